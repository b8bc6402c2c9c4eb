package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// One mutation (Set, Reset, Scan, UnmarshalJSON, UnmarshalYAML, String, assignment) of any id on
// one copy, the other copy (variable, list element, struct field) observed afterwards; all 2^64
// values, text cached or not before copying.
func ZZT02_Copies() {
	n := zzsym.U64("n")
	k := zzsym.U64("k")
	var a ID
	switch zzsym.Choose("make", 5) {
	case 0:
		a = NewID(n)
	case 1:
		n = 0
	case 2:
		zzsym.Assume(n != 0)
		zzsym.Assert(a.Set(zzDec(n)) == nil, "set")
	case 3:
		zzsym.Assert(a.UnmarshalJSON([]byte(zzDec(n))) == nil, "json")
	case 4:
		a = NewID(n)
		a.Reset()
		n = 0
	}
	if zzsym.Bool("cached") {
		_ = a.String()
	}
	want := ""
	if n != 0 {
		want = zzDec(n)
	}
	b := a
	list := IDArray{a}
	st := struct{ id ID }{a}
	var now uint64
	switch zzsym.Choose("op", 7) {
	case 0:
		zzsym.Assume(k != 0)
		now = k
		zzsym.Assert(a.Set(zzDec(k)) == nil, "set")
	case 1:
		a.Reset()
		now = 0
	case 2:
		now = k
		zzsym.Assert(a.Scan(int64(k)) == nil, "scan")
	case 3:
		now = k
		zzsym.Assert(a.UnmarshalJSON([]byte(zzDec(k))) == nil, "json")
	case 4:
		now = k
		err := a.UnmarshalYAML(func(p any) error { *(p.(*uint64)) = k; return nil })
		zzsym.Assert(err == nil, "yaml")
	case 5:
		now = n
		_ = a.String()
		_ = a.QuotedString()
	case 6:
		now = k
		a = NewID(k)
	}
	zzsym.Assert(a.UInt64() == now, "changed copy has the new number")
	txt := ""
	if now != 0 {
		txt = zzDec(now)
	}
	zzsym.Assert(a.String() == txt, "changed copy has the new text")
	zzsym.Assert(b.UInt64() == n, "variable copy keeps its number")
	zzsym.Assert(b.String() == want, "variable copy keeps its text")
	zzsym.Assert(list[0].UInt64() == n, "list copy keeps its number")
	zzsym.Assert(list[0].String() == want, "list copy keeps its text")
	zzsym.Assert(st.id.UInt64() == n, "field copy keeps its number")
	zzsym.Assert(st.id.String() == want, "field copy keeps its text")
	_, _ = b.Value()
}

// Two successive mutations, one on each copy.
func ZZT02_Both() {
	n, k, l := zzsym.U64("n"), zzsym.U64("k"), zzsym.U64("l")
	zzsym.Assume(zzsym.And(n != 0, k != 0, l != 0))
	a := NewID(n)
	b := a
	_ = b.String()
	zzsym.Assert(a.Set(zzDec(k)) == nil, "set a")
	zzsym.Assert(b.Set(zzDec(l)) == nil, "set b")
	zzsym.Assert(a.UInt64() == k && a.String() == zzDec(k), "a")
	zzsym.Assert(b.UInt64() == l && b.String() == zzDec(l), "b")
	c := b
	b.Reset()
	zzsym.Assert(b.UInt64() == 0 && b.String() == "", "reset")
	zzsym.Assert(c.UInt64() == l && c.String() == zzDec(l), "copy before reset")
}

// The text is the decimal form of the number after decoding any digits (leading zeros included)
// of up to 4 bytes.
func ZZT02_Text() {
	s := zzsym.Str("s", 1+zzsym.Choose("len", 4))
	var id ID
	var err error
	if zzsym.Choose("how", 2) == 0 {
		err = id.UnmarshalJSON([]byte(s))
	} else {
		err = id.Set(s)
	}
	if err != nil {
		return
	}
	n := id.UInt64()
	if n == 0 {
		zzsym.Assert(id.String() == "", "zero id has empty text")
	} else {
		zzsym.Assert(id.String() == zzDec(n), "text is the decimal form of the number")
	}
}
