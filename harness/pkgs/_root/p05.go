package xdb

import (
	"encoding/base64"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb/internal/zzsym"
)

func zzURLSafe(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok = zzsym.And(ok, zzsym.Or(zzsym.And(c >= 'a', c <= 'z'), zzsym.And(c >= 'A', c <= 'Z'), zzsym.And(c >= '0', c <= '9'), c == '-', c == '_'))
	}
	return ok
}

// Contents of one text value: any ASCII key of up to 1 byte and any ASCII value of up to 2 bytes
// (thorough: 3).
func ZZP05_Text() {
	max := 2
	if zzsym.Thorough() {
		max = 3
	}
	asc := func(l string, max int) string {
		s := zzsym.Str(l, zzsym.Choose(l+".len", max+1))
		for i := 0; i < len(s); i++ {
			zzsym.Assume(s[i] < 0x80)
		}
		return s
	}
	k, v := asc("k", 1), asc("v", max)
	c := EncodeCursor(values.MapAny{k: v})
	zzsym.Assert(zzURLSafe(c), "only URL-safe characters")
	m, err := DecodeCursor(c)
	zzsym.Assert(err == nil && len(m) == 1, "an encoded cursor decodes")
	x, ok := m[k].(string)
	zzsym.Assert(zzsym.And(ok, x == v), "to its content")
}

// Contents of one integer of up to 5 digits (thorough: 7) of any sign.
func ZZP05_Int() {
	lim := 99999
	if zzsym.Thorough() {
		lim = 9999999
	}
	n := zzsym.IntRange("n", -lim, lim)
	c := EncodeCursor(values.MapAny{"after": n})
	zzsym.Assert(zzURLSafe(c), "only URL-safe characters")
	m, err := DecodeCursor(c)
	zzsym.Assert(err == nil && len(m) == 1, "an encoded cursor decodes")
	zzsym.Assert(m.Int64("after") == int64(n), "to its number")
}

// Numbers beyond the 53 bits of a float64.
func ZZP05_BigInt() {
	id := []uint64{1<<53 + 1, 1<<63 + 1, 1<<64 - 1, 356418930512805889}[zzsym.Choose("id", 4)]
	m, err := DecodeCursor(EncodeCursor(values.MapAny{"after": id}))
	zzsym.Assert(err == nil && len(m) == 1, "an encoded cursor decodes")
	zzsym.Finding("cursor-large-integer", m.UInt64("after") == id, "a number above 2^53 decodes to another number")
}

// Mixed and nested contents, fixed.
func ZZP05_Mixed() {
	m, err := DecodeCursor(EncodeCursor(values.MapAny{"a": "x", "b": true, "c": nil, "d": []any{"é", 1.5}, "e": map[string]any{"f": "<>&"}}))
	zzsym.Assert(err == nil && len(m) == 5, "an encoded cursor decodes")
	d := m["d"].([]any)
	e := m["e"].(map[string]any)
	zzsym.Assert(m["a"] == "x" && m["b"] == true && m["c"] == nil && d[0] == "é" && d[1] == 1.5 && e["f"] == "<>&", "to its content")
}

// zzSkip returns the position after one JSON value without whitespace or escapes, or -1 (reference for
// texts of at most 4 bytes).
func zzObject(s string) bool {
	// objects of at most 4 bytes: only the empty one, with whitespace
	i := 0
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') {
			i++
		}
	}
	ws()
	if i >= len(s) || s[i] != '{' {
		return false
	}
	i++
	ws()
	if i >= len(s) || s[i] != '}' {
		return false
	}
	i++
	ws()
	return i == len(s)
}

// Any cursor text whose content is any text of up to 4 bytes: accepted only if the content is a JSON object
// (or null).
func ZZP05_AnyContent() {
	s := zzsym.Str("s", zzsym.Choose("len", 5))
	m, err := DecodeCursor(base64.RawURLEncoding.EncodeToString([]byte(s)))
	if zzObject(s) {
		zzsym.Assert(err == nil && m != nil && len(m) == 0, "an object decodes")
	} else if s == "null" {
		zzsym.Assert(err == nil && m == nil, "null decodes to nothing")
	} else {
		zzsym.Assert(err != nil && m == nil, "anything else is refused")
	}
}

// Contents that are not one complete, representable JSON object, fixed.
func ZZP05_Partial() {
	s := []string{`{"a":1,"b":1e999}`, `{"b":{"c":-1e400},"a":1}`, `{"a":1}{"b":2}`, `{"a":1} x`, `{"a":1},`, `{"a":1`,
		`{"a":1,}`, `{"a":tru}`, `{a:1}`, `[{"a":1}]`, `"a"`, `1`, `true`, `{"a":"x`, `{"a":1}]`, ` {"a":1}}`}
	m, err := DecodeCursor(base64.RawURLEncoding.EncodeToString([]byte(s[zzsym.Choose("s", 16)])))
	zzsym.Assert(err != nil && m == nil, "refused")
}

// Any text of up to 4 bytes (thorough: 6) as cursor: accepted only if it is base64url text (ignoring line
// breaks) of a JSON object.
func ZZP05_AnyText() {
	max := 4
	if zzsym.Thorough() {
		max = 6
	}
	s := zzsym.Str("s", zzsym.Choose("len", max+1))
	m, err := DecodeCursor(s)
	if err == nil {
		zzsym.Reached("accepted")
		raw, e2 := base64.RawURLEncoding.DecodeString(s)
		zzsym.Assert(e2 == nil, "base64url text")
		zzsym.Assert(zzObject(string(raw)) && len(m) == 0 && m != nil || string(raw) == "null" && m == nil, "of an object")
	} else {
		zzsym.Assert(m == nil, "no partial content")
	}
}

// An encoded cursor cut short, extended, or with one byte replaced by any byte outside the URL-safe
// alphabet (and line breaks, which base64 skips) is refused.
func ZZP05_Damaged() {
	c := EncodeCursor(values.MapAny{"after": "x1"})
	b := []byte(c)
	switch zzsym.Choose("how", 3) {
	case 0:
		b = b[:zzsym.Choose("cut", len(b))]
	case 1:
		// (a tail can only be read as JSON whitespace or as the unused bits of the last character)
		x := zzsym.Str("tail", 1+zzsym.Choose("tails", 2))
		for i := 0; i < len(x); i++ {
			zzsym.Assume(x[i] != '\n' && x[i] != '\r')
		}
		b = append(b, x...)
		if raw, err := base64.RawURLEncoding.DecodeString(string(b)); err == nil {
			l := raw[len(raw)-1]
			zzsym.Assume(len(raw) > 14 && l != ' ' && l != '\t' && l != '\n' && l != '\r')
		}
	default:
		x := zzsym.Byte("x")
		zzsym.Assume(zzsym.And(zzsym.Not(zzURLSafe(string([]byte{x}))), x != '\n', x != '\r'))
		b[zzsym.Choose("at", len(b))] = x
	}
	m, err := DecodeCursor(string(b))
	zzsym.Assert(err != nil && m == nil, "refused")
}

// Large contents: texts of 100 to 8000 bytes, 70 keys, or lists of 300 values, with one ASCII character of any value among them.
func ZZP05_Large() {
	c := zzsym.Str("c", 1)
	zzsym.Assume(c[0] < 0x80)
	in := values.MapAny{}
	n := []int{100, 250, 8000}[zzsym.Choose("n", 3)]
	kind := zzsym.Choose("kind", 3)
	long := ""
	switch kind {
	case 0:
		for i := 0; len(long) < n; i++ {
			long += []string{"~~~", ">>>", "???", "é", "a"}[i%5]
		}
		in["k"] = long + c
	case 1:
		for i := 0; i < n%90+60; i++ {
			in["k"+string(rune('a'+i%26))+string(rune('a'+i/26))] = "~?>"
		}
		in["kaa"] = c
	default:
		var l []any
		for i := 0; i < n/4; i++ {
			l = append(l, "~?")
		}
		in["k"] = append(l, c)
	}
	e := EncodeCursor(in)
	zzsym.Assert(zzURLSafe(e), "only URL-safe characters")
	m, err := DecodeCursor(e)
	zzsym.Assert(err == nil && len(m) == len(in), "an encoded cursor decodes")
	for k, v := range in {
		if l, ok := v.([]any); ok {
			r, ok := m[k].([]any)
			zzsym.Assert(ok && len(r) == len(l), "to its content")
			for i := range l {
				zzsym.Assert(r[i] == l[i], "to its content")
			}
		} else {
			zzsym.Assert(m[k] == v, "to its content")
		}
	}
}
