package xdb

import (
	"strings"

	"github.com/effective-security/xdb/internal/zzsym"
)

// Database values: every ID32, Int64, Int32, Bool value; any previous content.
func ZZT05_DBInts() {
	n, old := zzsym.U64("n"), zzsym.U64("old")
	switch zzsym.Choose("type", 4) {
	case 0:
		x, y := ID32(uint32(n)), ID32(uint32(old))
		v, err := x.Value()
		zzsym.Assert(err == nil && y.Scan(v) == nil, "ID32: scans what it wrote")
		zzsym.Assert(y == x, "ID32: same value")
	case 1:
		x, y := Int64(n), Int64(old)
		v, err := x.Value()
		zzsym.Assert(err == nil && y.Scan(v) == nil, "Int64: scans what it wrote")
		zzsym.Assert(y == x && y.Int64() == int64(n), "Int64: same value")
	case 2:
		x, y := Int32(int32(n)), Int32(int32(old))
		v, err := x.Value()
		zzsym.Assert(err == nil && y.Scan(v) == nil, "Int32: scans what it wrote")
		zzsym.Assert(y == x && y.Int32() == int32(n) && y.Int64() == int64(int32(n)), "Int32: same value")
	case 3:
		x, y := Bool(zzsym.Bool("b")), Bool(zzsym.Bool("c"))
		v, err := x.Value()
		zzsym.Assert(err == nil && y.Scan(v) == nil, "Bool: scans what it wrote")
		zzsym.Assert(y == x && y.Bool() == bool(x), "Bool: same value")
	}
}

// Float as database value: every float64 bit pattern.
func ZZT05_DBFloat() {
	x, y := Float(zzsym.F64("f")), Float(zzsym.F64("old"))
	v, err := x.Value()
	zzsym.Assert(err == nil && y.Scan(v) == nil, "Float: scans what it wrote")
	zzsym.Assert(y == x || (x != x && y != y), "Float: same value")
	zzsym.Assert(y.Float() == float64(y) || y != y, "Float: accessor")
	// drivers may hand over smaller kinds
	g := zzsym.F32("g")
	zzsym.Assert(y.Scan(g) == nil, "Float: float32")
	zzsym.Assert(y == Float(g) || g != g, "Float: float32 value")
	i := zzsym.I32("i")
	zzsym.Assert(y.Scan(int64(i)) == nil && y == Float(i), "Float: integer value")
}

// NULLString as database value, text or bytes of up to 4 bytes.
func ZZT05_DBText() {
	s := zzsym.Str("s", zzsym.Choose("len", 5))
	y := NULLString("old")
	x := NULLString(s)
	v, err := x.Value()
	zzsym.Assert(err == nil, "NULLString: writes")
	if b, ok := v.(string); ok && zzsym.Bool("bytes") {
		v = []byte(b)
	}
	zzsym.Assert(y.Scan(v) == nil, "NULLString: scans what it wrote")
	zzsym.Assert(y == x && y.String() == s, "NULLString: same value")
	u := UUID("old")
	w := UUID(s)
	v, err = w.Value()
	zzsym.Assert(err == nil && u.Scan(v) == nil, "UUID: scans what it wrote")
	zzsym.Assert(u == w && u.String() == s, "UUID: same value")
}

// JSON: every ID32, Int64, Int32, Bool value, as number and as quoted number.
func ZZT05_JSON() {
	n, old := zzsym.U64("n"), zzsym.U64("old")
	quoted := zzsym.Bool("quoted")
	wrap := func(b []byte, err error) []byte {
		zzsym.Assert(err == nil, "writes JSON")
		if quoted {
			return []byte("\"" + string(b) + "\"")
		}
		return b
	}
	switch zzsym.Choose("type", 4) {
	case 0:
		x, y := ID32(uint32(n)), ID32(uint32(old))
		zzsym.Assert(y.UnmarshalJSON(wrap(x.MarshalJSON())) == nil, "ID32: reads what it wrote")
		zzsym.Assert(y == x, "ID32: same value")
	case 1:
		x, y := Int64(n), Int64(old)
		zzsym.Assert(y.UnmarshalJSON(wrap(x.MarshalJSON())) == nil, "Int64: reads what it wrote")
		zzsym.Assert(y == x, "Int64: same value")
	case 2:
		x, y := Int32(int32(n)), Int32(int32(old))
		zzsym.Assert(y.UnmarshalJSON(wrap(x.MarshalJSON())) == nil, "Int32: reads what it wrote")
		zzsym.Assert(y == x, "Int32: same value")
	case 3:
		x, y := Bool(zzsym.Bool("b")), Bool(zzsym.Bool("c"))
		zzsym.Assert(y.UnmarshalJSON(wrap(x.MarshalJSON())) == nil, "Bool: reads what it wrote")
		zzsym.Assert(y == x, "Bool: same value")
	}
}

// Text forms: every Int64, Int32, ID32, Bool value.
func ZZT05_String() {
	n := zzsym.U64("n")
	switch zzsym.Choose("type", 4) {
	case 0:
		zzsym.Assert(ID32(uint32(n)).String() == zzDec(uint64(uint32(n))), "ID32 text")
	case 1:
		s := Int64(n).String()
		if int64(n) < 0 {
			zzsym.Assert(s == "-"+zzDec(-n), "Int64 text")
		} else {
			zzsym.Assert(s == zzDec(n), "Int64 text")
		}
		zzsym.Assert(Int64(n).QuotedString() == "\""+s+"\"", "Int64 quoted text")
	case 2:
		m := int64(int32(n))
		s := Int32(int32(n)).String()
		if m < 0 {
			zzsym.Assert(s == "-"+zzDec(uint64(-m)), "Int32 text")
		} else {
			zzsym.Assert(s == zzDec(uint64(m)), "Int32 text")
		}
	case 3:
		b := zzsym.Bool("b")
		s := Bool(b).String()
		zzsym.Assert(b && s == "true" || !b && s == "false", "Bool text")
	}
}

// zzSigned: optional sign and decimal digits, and the value (up to 5 bytes).
func zzSigned(s string, sign bool) (bool, int64) {
	if sign && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		if s[0] == '-' {
			return zzIsDec(s[1:]), -int64(zzVal(s[1:]))
		}
		return zzIsDec(s[1:]), int64(zzVal(s[1:]))
	}
	return zzIsDec(s), int64(zzVal(s))
}

// Every JSON text of up to 4 (thorough: 5) bytes into ID32, Int64, Int32: exact number, zero for
// the empty and NULL texts, or error with the destination unchanged.
func ZZT05_JSONAny() {
	max := 4
	if zzsym.Thorough() {
		max = 5
	}
	s := zzsym.Str("s", zzsym.Choose("len", max+1))
	old := zzsym.U64("old")
	t := zzTrimQuotes(s)
	null := t == "" || t == "NULL"
	var err error
	var got, prev, want int64
	var ok bool
	switch zzsym.Choose("type", 3) {
	case 0:
		x := ID32(uint32(old))
		prev = int64(x)
		err = x.UnmarshalJSON([]byte(s))
		got = int64(x)
		ok, want = zzSigned(t, false)
	case 1:
		x := Int64(old)
		prev = int64(x)
		err = x.UnmarshalJSON([]byte(s))
		got = int64(x)
		ok, want = zzSigned(t, true)
	case 2:
		x := Int32(int32(old))
		prev = int64(x)
		err = x.UnmarshalJSON([]byte(s))
		got = int64(x)
		ok, want = zzSigned(t, true)
	}
	if null {
		zzsym.Assert(err == nil && got == 0, "empty JSON is zero")
		return
	}
	if err != nil {
		zzsym.Assert(zzsym.Not(ok), "numbers are accepted")
		zzsym.Assert(got == prev, "refused JSON leaves the destination unchanged")
	} else {
		zzsym.Assert(ok, "only numbers are accepted")
		zzsym.Assert(got == want, "exact number")
	}
}

// Range: every decimal number below 2^64, with either sign, into ID32, Int64, Int32.
func ZZT05_JSONRange() {
	n, old := zzsym.U64("n"), zzsym.U64("old")
	neg := zzsym.Bool("neg")
	s := zzDec(n)
	if neg {
		s = "-" + s
	}
	switch zzsym.Choose("type", 3) {
	case 0:
		x := ID32(uint32(old))
		err := x.UnmarshalJSON([]byte(s))
		fits := !neg && n <= 0xffffffff
		zzsym.Assert((err == nil) == fits, "ID32: accepted exactly if in range")
		if fits {
			zzsym.Assert(uint64(x) == n, "ID32: exact")
		} else {
			zzsym.Assert(x == ID32(uint32(old)), "ID32: unchanged")
		}
	case 1:
		x := Int64(old)
		err := x.UnmarshalJSON([]byte(s))
		fits := n <= 1<<63-1 || neg && n == 1<<63
		zzsym.Assert((err == nil) == fits, "Int64: accepted exactly if in range")
		if fits && neg {
			zzsym.Assert(int64(x) == -int64(n), "Int64: exact")
		} else if fits {
			zzsym.Assert(int64(x) == int64(n), "Int64: exact")
		} else {
			zzsym.Assert(x == Int64(old), "Int64: unchanged")
		}
	case 2:
		x := Int32(int32(old))
		err := x.UnmarshalJSON([]byte(s))
		fits := n <= 1<<31-1 || neg && n == 1<<31
		zzsym.Assert((err == nil) == fits, "Int32: accepted exactly if in range")
		if fits && neg {
			zzsym.Assert(int64(x) == -int64(n), "Int32: exact")
		} else if fits {
			zzsym.Assert(int64(x) == int64(n), "Int32: exact")
		} else {
			zzsym.Assert(x == Int32(int32(old)), "Int32: unchanged")
		}
	}
}

// Bool: every JSON text of up to 6 bytes; true exactly for true, TRUE and 1.
func ZZT05_BoolJSON() {
	s := zzsym.Str("s", zzsym.Choose("len", 7))
	x := Bool(zzsym.Bool("old"))
	if x.UnmarshalJSON([]byte(s)) != nil {
		return
	}
	t := zzTrimQuotes(s)
	zzsym.Assert(bool(x) == (t == "true" || t == "TRUE" || t == "1"), "Bool JSON")
	_ = strings.Trim
}

// Float from the decimal text of a driver: every number d.d, d and dd, thorough also dd.d and d.dd (either sign), is the nearest float64.
func ZZT05_FloatText() {
	digit := func(l string) (byte, float64) {
		b := zzsym.Byte(l)
		zzsym.Assume(zzsym.And(b >= '0', b <= '9'))
		return b, float64(b - '0')
	}
	a, x := digit("a")
	b, y := digit("b")
	s, want := string([]byte{a, '.', b}), (x*10+y)/10
	forms := 3
	if zzsym.Thorough() {
		forms = 5
	}
	switch zzsym.Choose("form", forms) {
	case 1:
		s, want = string([]byte{a}), x
	case 2:
		s, want = string([]byte{a, b}), x*10+y
	case 3:
		c, z := digit("c")
		s, want = string([]byte{a, b, '.', c}), (x*100+y*10+z)/10
	case 4:
		c, z := digit("c")
		s, want = string([]byte{a, '.', b, c}), (x*100+y*10+z)/100
	}
	if zzsym.Choose("neg", 2) == 1 {
		s, want = "-"+s, -want
	}
	f := Float(zzsym.F64("old"))
	zzsym.Assert(f.Scan([]byte(s)) == nil, "Float: decimal text")
	zzsym.Assert(float64(f) == want, "Float: value of the decimal text")
}
