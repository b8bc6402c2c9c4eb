package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// Every 16-byte identifier: canonical upper-case text, first three groups byte-swapped.
func ZZT06_Binary() {
	b := zzsym.Bytes("b", 16)
	u := UUID("old")
	zzsym.Assert(u.Scan(b) == nil, "16 bytes decode")
	s := string(u)
	zzsym.Assert(len(s) == 36, "canonical length")
	order := []int{3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1, 10, 11, 12, 13, 14, 15}
	p := 0
	for _, o := range order {
		if o < 0 {
			zzsym.Assert(s[p] == '-', "group separator")
			p++
			continue
		}
		for k := 0; k < 2; k++ {
			d := b[o] >> 4
			if k == 1 {
				d = b[o] & 15
			}
			want := byte(zzsym.IteU64(d >= 10, uint64(d-10+'A'), uint64(d+'0')))
			zzsym.Assert(s[p] == want, "hexadecimal digit")
			p++
		}
	}
}

// Two 16-byte identifiers: equal texts only for equal bytes.
func ZZT06_Injective() {
	b, c := zzsym.Bytes("b", 16), zzsym.Bytes("c", 16)
	var u, v UUID
	zzsym.Assert(u.Scan(b) == nil && v.Scan(c) == nil, "decode")
	zzsym.Assert((u == v) == (string(b) == string(c)), "injective")
}

// Binary input of any length up to 18: 16 bytes decode; others are errors or are taken as text,
// and never leave the destination silently unchanged.
func ZZT06_Length() {
	n := zzsym.Choose("len", 19)
	b := zzsym.Bytes("b", n)
	u := UUID("OLD")
	err := u.Scan(b)
	if n == 16 {
		zzsym.Assert(err == nil && len(u) == 36, "16 bytes decode")
		return
	}
	if err == nil {
		zzsym.Assert(string(u) == string(b), "undecodable input is an error or kept as text")
	}
}

// The text form delivered as bytes (the Postgres driver does that) is kept as is; 36 bytes that are
// no text form are an error. Any two positions carry any byte.
func ZZT06_TextAsBytes() {
	b := []byte("a1B2c3D4-0000-9fF9-4a0A-7788e9eE00b6")
	i1 := zzsym.Choose("pos1", 36)
	i2 := zzsym.Choose("pos2", 36)
	zzsym.Assume(i1 <= i2)
	b[i1] = zzsym.Byte("c1")
	b[i2] = zzsym.Byte("c2")
	canon := true
	for i, c := range b {
		switch i {
		case 8, 13, 18, 23:
			canon = zzsym.And(canon, c == '-')
		default:
			canon = zzsym.And(canon, zzsym.Or(zzsym.And(c >= '0', c <= '9'), zzsym.Or(zzsym.And(c >= 'a', c <= 'f'), zzsym.And(c >= 'A', c <= 'F'))))
		}
	}
	u := UUID("OLD")
	var err error
	if canon {
		err = u.Scan(b)
		zzsym.Assert(err == nil && string(u) == string(b), "the text form is kept as is")
	} else {
		err = u.Scan(b)
		zzsym.Assert(err != nil || string(u) == string(b), "undecodable input is an error or kept as text")
	}
}

// Text up to 5 bytes, NULL and unsupported kinds.
func ZZT06_Text() {
	s := zzsym.Str("s", zzsym.Choose("len", 6))
	u := UUID("OLD")
	zzsym.Assert(u.Scan(s) == nil, "text accepted")
	zzsym.Assert(string(u) == s && u.String() == s, "text kept as is")
	zzsym.Assert(u.Scan(nil) == nil && u == "", "NULL is empty")
	u = "OLD"
	k := zzsym.Choose("kind", 4)
	var v any
	switch k {
	case 0:
		v = zzsym.I64("n")
	case 1:
		v = zzsym.Bool("t")
	case 2:
		v = [16]byte{1}
	case 3:
		v = struct{}{}
	}
	zzsym.Assert(u.Scan(v) != nil, "unsupported kind is an error")
}
