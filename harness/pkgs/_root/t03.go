package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// Scan of every uint64, int64, int and uint value into ID, ID32, Int64 and Int32 with any
// previous content. (An ID travels as the int64 with the same 64 bits.)
func ZZT03_ID() {
	n, old := zzsym.U64("n"), zzsym.U64("old")
	v, _ := zzScalar(zzsym.Choose("kind", 4), n)
	id := NewID(old)
	err := id.Scan(v)
	zzsym.Assert(err == nil, "64-bit integers scan into an ID")
	zzsym.Assert(id.UInt64() == n, "exact bits")
}

func ZZT03_ID32() {
	n, old := zzsym.U64("n"), zzsym.U32("old")
	v, neg := zzScalar(zzsym.Choose("kind", 4), n)
	id := ID32(old)
	err := id.Scan(v)
	fits := zzsym.And(zzsym.Not(neg), n <= 0xffffffff)
	if err == nil {
		zzsym.Assert(fits, "only values that fit are stored")
		zzsym.Assert(uint64(id) == n, "stored exactly")
	} else {
		zzsym.Assert(zzsym.Not(fits), "values that fit are accepted")
		zzsym.Assert(uint32(id) == old, "destination unchanged on error")
	}
}

func ZZT03_Int64() {
	n, old := zzsym.U64("n"), zzsym.I64("old")
	kind := zzsym.Choose("kind", 4)
	v, neg := zzScalar(kind, n)
	x := Int64(old)
	err := x.Scan(v)
	fits := zzsym.Or(neg, n <= 0x7fffffffffffffff)
	if err == nil {
		zzsym.Assert(fits, "only values that fit are stored")
		zzsym.Assert(uint64(x) == n, "stored exactly")
		zzsym.Assert(x.Int64() == int64(n), "Int64 accessor")
	} else {
		zzsym.Assert(zzsym.Not(fits), "values that fit are accepted")
		zzsym.Assert(int64(x) == old, "destination unchanged on error")
	}
}

func ZZT03_Int32() {
	n, old := zzsym.U64("n"), zzsym.I32("old")
	kind := zzsym.Choose("kind", 4)
	v, neg := zzScalar(kind, n)
	x := Int32(old)
	err := x.Scan(v)
	fits := zzsym.Or(zzsym.And(neg, int64(n) >= -2147483648), zzsym.And(zzsym.Not(neg), n <= 0x7fffffff))
	if err == nil {
		zzsym.Assert(fits, "only values that fit are stored")
		zzsym.Assert(int64(x) == int64(n), "stored exactly")
		zzsym.Assert(zzsym.And(x.Int64() == int64(n), int64(x.Int32()) == int64(n)), "accessors")
	} else {
		zzsym.Assert(zzsym.Not(fits), "values that fit are accepted")
		zzsym.Assert(int32(x) == old, "destination unchanged on error")
	}
}

// Unsupported kinds are refused and change nothing.
func ZZT03_Kinds() {
	v := zzOther(zzsym.Choose("kind", 7))
	if zzsym.Bool("float") {
		v = zzsym.F64("f")
	}
	n := zzsym.U64("old")
	id, id32, i64, i32 := NewID(n), ID32(n), Int64(n), Int32(n)
	zzsym.Assert(id.Scan(v) != nil && id.UInt64() == n, "ID")
	zzsym.Assert(id32.Scan(v) != nil && id32 == ID32(n), "ID32")
	zzsym.Assert(i64.Scan(v) != nil && i64 == Int64(n), "Int64")
	zzsym.Assert(i32.Scan(v) != nil && i32 == Int32(n), "Int32")
}

// Integers of the smaller kinds, any value: refused with the destination unchanged, or stored exactly.
func ZZT03_SmallKinds() {
	n, old := zzsym.U64("n"), zzsym.U64("old")
	var v any
	var want int64
	switch zzsym.Choose("kind", 6) {
	case 0:
		v, want = int32(n), int64(int32(n))
	case 1:
		v, want = int16(n), int64(int16(n))
	case 2:
		v, want = int8(n), int64(int8(n))
	case 3:
		v, want = uint32(n), int64(uint32(n))
	case 4:
		v, want = uint16(n), int64(uint16(n))
	default:
		v, want = uint8(n), int64(uint8(n))
	}
	check := func(err error, got, prev int64, what string) {
		if err != nil {
			zzsym.Assert(got == prev, what+": unchanged on error")
		} else {
			zzsym.Assert(got == want, what+": stored exactly")
		}
	}
	id, id32, i64, i32 := NewID(old), ID32(old), Int64(old), Int32(old)
	check(id.Scan(v), int64(id.UInt64()), int64(old), "ID")
	check(id32.Scan(v), int64(id32), int64(uint32(old)), "ID32")
	check(i64.Scan(v), int64(i64), int64(old), "Int64")
	check(i32.Scan(v), int64(i32), int64(int32(old)), "Int32")
}
