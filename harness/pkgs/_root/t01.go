package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// All 2^64 ids, any previous content of the destination: NewID -> Value -> Scan.
func ZZT01_Value() {
	n := zzsym.U64("n")
	id := NewID(n)
	zzsym.Assert(id.UInt64() == n, "NewID keeps the number")
	zzsym.Assert(id.Valid() == (n != 0), "Valid")
	zzsym.Assert(id.Invalid() == (n == 0), "Invalid")
	zzsym.Assert(id.IsZero() == (n == 0), "IsZero")
	v, err := id.Value()
	zzsym.Assert(err == nil, "Value never fails")
	if n == 0 {
		zzsym.Assert(v == nil, "zero id is NULL")
	} else {
		i, ok := v.(int64)
		zzsym.Assert(ok && uint64(i) == n, "Value is the number as int64")
	}
	b := NewID(zzsym.U64("old"))
	zzsym.Assert(b.Scan(v) == nil, "Scan accepts what Value wrote")
	zzsym.Assert(b.UInt64() == n, "Scan(Value(id)) is the id")
}

// All 2^64 ids: String / ParseID / MustID / TryParseID / Set / QuotedString / UnderscoreString.
func ZZT01_Text() {
	n := zzsym.U64("n")
	id := NewID(n)
	s := id.String()
	if n == 0 {
		zzsym.Assert(s == "", "zero id has empty text")
		_, err := ParseID(s)
		zzsym.Assert(err != nil, "empty text is not an id")
		return
	}
	zzsym.Assert(s == zzDec(n), "text is decimal")
	zzsym.Assert(id.QuotedString() == "\""+s+"\"", "quoted text")
	zzsym.Assert(id.UnderscoreString() == "_"+s, "underscored text")
	p, err := ParseID(s)
	zzsym.Assert(err == nil, "own text parses")
	zzsym.Assert(p.UInt64() == n, "ParseID(String(id)) is the id")
	zzsym.Assert(TryParseID(s).UInt64() == n, "TryParseID(String(id)) is the id")
	zzsym.Assert(MustID(s).UInt64() == n, "MustID(String(id)) is the id")
	q := NewID(zzsym.U64("old"))
	zzsym.Assert(q.Set(s) == nil, "Set accepts")
	zzsym.Assert(q.UInt64() == n, "Set(String(id)) is the id")
}

// All 2^64 ids: JSON number and quoted string.
func ZZT01_JSON() {
	n := zzsym.U64("n")
	id := NewID(n)
	js, err := id.MarshalJSON()
	zzsym.Assert(err == nil, "marshal")
	zzsym.Assert(string(js) == zzDec(n), "JSON form is the number")
	b := NewID(zzsym.U64("old"))
	zzsym.Assert(b.UnmarshalJSON(js) == nil, "unmarshal")
	zzsym.Assert(b.UInt64() == n, "JSON round trip")
	c := NewID(zzsym.U64("old2"))
	zzsym.Assert(c.UnmarshalJSON([]byte("\""+string(js)+"\"")) == nil, "unmarshal quoted")
	zzsym.Assert(c.UInt64() == n, "quoted JSON round trip")
	y, err := id.MarshalYAML()
	zzsym.Assert(err == nil, "yaml")
	d := NewID(zzsym.U64("old3"))
	err = d.UnmarshalYAML(func(p any) error { *(p.(*uint64)) = y.(uint64); return nil })
	zzsym.Assert(err == nil && d.UInt64() == n, "YAML round trip")
}

// Every text of up to 4 (thorough: 5) bytes.
func ZZT01_TextAny() {
	max := 4
	if zzsym.Thorough() {
		max = 5
	}
	s := zzsym.Str("s", zzsym.Choose("len", max+1))
	old := zzsym.U64("old")
	id := NewID(old)
	err := id.Set(s)
	if err == nil {
		zzsym.Assert(zzIsDec(s), "accepted text is decimal")
		zzsym.Assert(id.UInt64() == zzVal(s), "accepted text yields its number")
		zzsym.Assert(id.UInt64() != 0, "zero text is refused")
	} else {
		zzsym.Assert(zzsym.Not(zzsym.And(zzIsDec(s), zzVal(s) != 0)), "decimal text is accepted")
		zzsym.Assert(id.UInt64() == old, "refused text leaves the id unchanged")
	}
	p, perr := ParseID(s)
	zzsym.Assert((perr == nil) == (err == nil), "ParseID and Set agree")
	if perr == nil {
		zzsym.Assert(p.UInt64() == id.UInt64(), "ParseID and Set yield the same")
	}
	u, uerr := ParseUint(s)
	if uerr == nil {
		zzsym.Assert(zzsym.And(zzIsDec(s), u == zzVal(s)), "ParseUint exact")
	} else {
		zzsym.Assert(zzsym.Not(zzIsDec(s)), "ParseUint accepts decimals")
	}
}

// Every JSON text of up to 4 (thorough: 5) bytes, quoted or not.
func ZZT01_JSONAny() {
	max := 4
	if zzsym.Thorough() {
		max = 5
	}
	s := zzsym.Str("s", zzsym.Choose("len", max+1))
	old := zzsym.U64("old")
	id := NewID(old)
	err := id.UnmarshalJSON([]byte(s))
	t := zzTrimQuotes(s)
	if err == nil {
		zzsym.Assert(zzsym.Or(len(t) == 0, zzIsDec(t)), "accepted JSON is decimal or empty")
		zzsym.Assert(id.UInt64() == zzVal(t), "accepted JSON yields its number")
	} else {
		zzsym.Assert(zzsym.Not(zzIsDec(t)), "decimal JSON is accepted")
		zzsym.Assert(id.UInt64() == old, "refused JSON leaves the id unchanged")
	}
}

// Every 20-digit decimal text whose first two digits are 18 (the range boundary 2^64), with the
// last 4 digits free and any digits in between taken from the boundary or one above: text and JSON.
func ZZT01_Range() {
	tail := zzsym.Str("tail", 5)
	zzsym.Assume(zzIsDec(tail))
	s := "184467440737095" + tail
	// 2^64-1 = 18446744073709551615
	fits := zzVal(tail) <= 51615
	id := NewID(7)
	err := id.Set(s)
	zzsym.Assert((err == nil) == fits, "text in range is accepted, out of range refused")
	if err == nil {
		zzsym.Assert(id.UInt64() == 18446744073709500000+zzVal(tail), "text value at the boundary")
	}
	j := NewID(7)
	jerr := j.UnmarshalJSON([]byte(s))
	zzsym.Assert((jerr == nil) == fits, "JSON in range is accepted, out of range refused")
	if jerr == nil {
		zzsym.Assert(j.UInt64() == id.UInt64(), "JSON value at the boundary")
	}
}
