package xdb

import (
	"database/sql/driver"
	"math"
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
)

func zzNull(v driver.Value, err error, zero bool, what string) {
	zzsym.Assert(err == nil, what+": Value succeeds")
	if zero {
		zzsym.Assert(v == nil, what+": zero is written as NULL")
	} else {
		zzsym.Assert(v != nil, what+": non-zero is written as non-NULL")
	}
}

// ID, ID32, Int64, Int32, Bool: every value written, every previous content before scanning NULL.
func ZZT04_Ints() {
	n := zzsym.U64("n")
	switch zzsym.Choose("type", 5) {
	case 0:
		x := NewID(n)
		v, err := x.Value()
		zzNull(v, err, n == 0, "ID")
		if zzsym.Bool("text") {
			_ = x.String()
		}
		zzsym.Assert(x.Scan(nil) == nil, "ID: NULL accepted")
		zzsym.Assert(x.UInt64() == 0 && x.String() == "" && x.IsZero() && !x.Valid(), "ID: NULL resets")
	case 1:
		x := ID32(uint32(n))
		v, err := x.Value()
		zzNull(v, err, uint32(n) == 0, "ID32")
		zzsym.Assert(x.Scan(nil) == nil, "ID32: NULL accepted")
		zzsym.Assert(x == 0, "ID32: NULL resets")
	case 2:
		x := Int64(n)
		v, err := x.Value()
		zzNull(v, err, n == 0, "Int64")
		zzsym.Assert(x.Scan(nil) == nil, "Int64: NULL accepted")
		zzsym.Assert(x == 0, "Int64: NULL resets")
	case 3:
		x := Int32(int32(n))
		v, err := x.Value()
		zzNull(v, err, int32(n) == 0, "Int32")
		zzsym.Assert(x.Scan(nil) == nil, "Int32: NULL accepted")
		zzsym.Assert(x == 0, "Int32: NULL resets")
	case 4:
		b := zzsym.Bool("b")
		x := Bool(b)
		v, err := x.Value()
		zzNull(v, err, !b, "Bool")
		zzsym.Assert(x.Scan(nil) == nil, "Bool: NULL accepted")
		zzsym.Assert(!bool(x), "Bool: NULL resets")
	}
}

// Float: every float64 bit pattern (NaN and infinities included).
func ZZT04_Float() {
	f := zzsym.F64("f")
	x := Float(f)
	v, err := x.Value()
	zzNull(v, err, f == 0, "Float")
	zzsym.Assert(x.Scan(nil) == nil, "Float: NULL accepted")
	zzsym.Assert(x == 0, "Float: NULL resets")
}

// NULLString, UUID: every text of up to 4 bytes.
func ZZT04_Text() {
	s := zzsym.Str("s", zzsym.Choose("len", 5))
	if zzsym.Choose("type", 2) == 0 {
		x := NULLString(s)
		v, err := x.Value()
		zzNull(v, err, s == "", "NULLString")
		zzsym.Assert(x.Scan(nil) == nil, "NULLString: NULL accepted")
		zzsym.Assert(x == "", "NULLString: NULL resets")
		return
	}
	x := UUID(s)
	v, err := x.Value()
	zzNull(v, err, s == "", "UUID")
	zzsym.Assert(x.Scan(nil) == nil, "UUID: NULL accepted")
	zzsym.Assert(x == "", "UUID: NULL resets")
}

// Time: every instant of any 64-bit second within +-2^55 and any nanosecond, the zero time included.
func ZZT04_Time() {
	sec := zzsym.I64("sec")
	zzsym.Assume(zzsym.And(sec > -(1<<55), sec < 1<<55))
	ns := int64(zzsym.IntRange("ns", 0, 999999999))
	t := time.Unix(sec, ns)
	x := Time(t)
	zero := zzsym.And(sec == -62135596800, ns == 0)
	v, err := x.Value()
	zzNull(v, err, zero, "Time")
	if zzsym.Choose("text", 2) == 1 {
		zzsym.Assert(x.Scan("") == nil, "Time: empty text accepted")
	} else {
		zzsym.Assert(x.Scan(nil) == nil, "Time: NULL accepted")
	}
	zzsym.Assert(x.IsZero() && x.IsNil() && x.String() == "" && x.Ptr() == nil, "Time: NULL resets")
}

// Strings, Metadata, KVSet, IDArray: 0..2 entries with any 1-byte contents, nil and empty included.
func ZZT04_Lists() {
	n := zzsym.Choose("n", 4) // 0 nil, 1 empty, 2 one, 3 two entries
	a, b := zzPrintable("a", 1), zzPrintable("b", 1)
	switch zzsym.Choose("type", 4) {
	case 0:
		var x Strings
		switch n {
		case 1:
			x = Strings{}
		case 2:
			x = Strings{a}
		case 3:
			x = Strings{a, b}
		}
		if n != 1 {
			v, err := x.Value()
			zzNull(v, err, n == 0, "Strings")
		}
		zzsym.Assert(x.Scan(nil) == nil, "Strings: NULL accepted")
		zzsym.Assert(x == nil, "Strings: NULL resets")
	case 1:
		var x Metadata
		switch n {
		case 1:
			x = Metadata{}
		case 2:
			x = Metadata{a: b}
		case 3:
			x = Metadata{a: b, b: a}
		}
		v, err := x.Value()
		zzNull(v, err, n < 2, "Metadata")
		zzsym.Assert(x.Scan(nil) == nil, "Metadata: NULL accepted")
		zzsym.Assert(x == nil, "Metadata: NULL resets")
	case 2:
		var x KVSet
		switch n {
		case 1:
			x = KVSet{}
		case 2:
			x = KVSet{a: {b}}
		case 3:
			x = KVSet{a: {b, a}, b: {}}
		}
		v, err := x.Value()
		zzNull(v, err, n < 2, "KVSet")
		zzsym.Assert(x.Scan(nil) == nil, "KVSet: NULL accepted")
		zzsym.Assert(x == nil, "KVSet: NULL resets")
	case 3:
		var x IDArray
		k := zzsym.U64Range("k", 0, 999)
		switch n {
		case 1:
			x = IDArray{}
		case 2:
			x = IDArray{NewID(k)}
		case 3:
			x = IDArray{NewID(k), NewID(7)}
		}
		v, err := x.Value()
		zzNull(v, err, n < 2, "IDArray")
		zzsym.Assert(x.Scan(nil) == nil, "IDArray: NULL accepted")
		zzsym.Assert(len(x) == 0, "IDArray: NULL resets")
	}
}

// Pointers and helper conversions: TimePtr, NullTime, String, QuotedString.
func ZZT04_Helpers() {
	sec := zzsym.I64("sec")
	zzsym.Assume(zzsym.And(sec > -(1<<55), sec < 1<<55))
	t := time.Unix(sec, 0).UTC()
	zero := sec == -62135596800
	p := TimePtr(Time(t))
	if zero {
		zzsym.Assert(p == nil, "TimePtr: zero is nil")
	} else {
		zzsym.Assert(p != nil && p.Equal(t), "TimePtr: same instant")
	}
	zzsym.Assert(!NullTime(nil).Valid, "NullTime(nil) is NULL")
	nt := NullTime(&t)
	zzsym.Assert(nt.Valid && nt.Time.Equal(t), "NullTime(t) is t")
	s := zzsym.Str("s", zzsym.Choose("len", 3))
	zzsym.Assert(String(nil) == "" && QuotedString(nil) == "", "nil text is empty")
	zzsym.Assert(String(&s) == s && QuotedString(&s) == "\""+s+"\"", "text of pointer")
	_ = math.MaxInt32
}
