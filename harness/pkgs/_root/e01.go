package xdb

import (
	"strconv"
	"strings"
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/lib/pq"
)

type zzNums struct {
	A int64
	B int32
	C int16
	D uint32
	E Int64
	F Int32
}

type zzMisc struct {
	A Bool
	B bool
	C ID32
	D Float
	E float64
	F float32
}

type zzTexts struct {
	A string
	B NULLString
	C UUID
	D ID
	E Time
}

type zzLists struct {
	A []byte
	B Strings
	C IDArray
	D pq.Int64Array
	E pq.StringArray
}

type zzMaps struct {
	A Metadata
	B KVSet
	C ID
}

type zzInner struct {
	ID   ID
	Name NULLString
	At   Time
}

type zzNested struct {
	zzInner
	X      zzInner
	P      *zzInner
	hidden int64
	Last   ID
}

func zzMerge(dst, src any) {
	zzsym.Assert(Merge(dst, src) == nil, "Merge fails")
}

// src by value or by pointer
func zzSrc[T any](s *T) any {
	if zzsym.Bool("byval") {
		return *s
	}
	return s
}

func ZZE01_Numbers() {
	mk := func(l string) zzNums {
		return zzNums{zzsym.I64(l + "A"), zzsym.I32(l + "B"), zzsym.I16(l + "C"), zzsym.U32(l + "D"), Int64(zzsym.I64(l + "E")), Int32(zzsym.I32(l + "F"))}
	}
	d, s := mk("d"), mk("s")
	d0, s0 := d, s
	zzMerge(&d, zzSrc(&s))
	zzsym.Assert(s == s0, "the source changes")
	w := d0
	if s.A != 0 {
		w.A = s.A
	}
	if s.B != 0 {
		w.B = s.B
	}
	if s.C != 0 {
		w.C = s.C
	}
	if s.D != 0 {
		w.D = s.D
	}
	if s.E != 0 {
		w.E = s.E
	}
	if s.F != 0 {
		w.F = s.F
	}
	zzsym.Assert(d == w, "merged numbers")
	zzsym.Reached("end")
}

func ZZE01_Misc() {
	fl := func(l string) float64 { return float64(zzsym.IntRange(l, -3, 3)) / 2 }
	mk := func(l string) zzMisc {
		return zzMisc{Bool(zzsym.Bool(l + "A")), zzsym.Bool(l + "B"), ID32(zzsym.U32(l + "C")), Float(fl(l + "D")), fl(l + "E"), float32(fl(l + "F"))}
	}
	d, s := mk("d"), mk("s")
	d0, s0 := d, s
	zzMerge(&d, zzSrc(&s))
	zzsym.Assert(s == s0, "the source changes")
	w := d0
	if s.A {
		w.A = s.A
	}
	if s.B {
		w.B = s.B
	}
	if s.C != 0 {
		w.C = s.C
	}
	if s.D != 0 {
		w.D = s.D
	}
	if s.E != 0 {
		w.E = s.E
	}
	if s.F != 0 {
		w.F = s.F
	}
	zzsym.Assert(d == w, "merged values")
	zzsym.Reached("end")
}

func zzText(l string) string { return zzsym.Str(l, zzsym.Choose(l+".len", 3)) }

func zzAt(l string) Time {
	if zzsym.Bool(l + ".zero") {
		return Time{}
	}
	return Time(time.Unix(int64(zzsym.IntRange(l+".sec", -(1<<36), 1<<33)), int64(zzsym.IntRange(l+".ns", 0, 999999999))).UTC())
}

func zzSameTime(a, b Time) bool { return time.Time(a).Equal(time.Time(b)) }

func ZZE01_Texts() {
	mk := func(l string) zzTexts {
		return zzTexts{zzText(l + "A"), NULLString(zzText(l + "B")), UUID(zzText(l + "C")), NewID(zzsym.U64(l + "D")), zzAt(l + "E")}
	}
	d, s := mk("d"), mk("s")
	d0, s0 := d, s
	did, sid := d.D.UInt64(), s.D.UInt64()
	zzMerge(&d, zzSrc(&s))
	zzsym.Assert(s.A == s0.A && s.B == s0.B && s.C == s0.C && s.D.UInt64() == sid && zzSameTime(s.E, s0.E), "the source changes")
	zzsym.Assert(d0.D.UInt64() == did, "a copy of the record made before changes")
	w := d0
	if s.A != "" {
		w.A = s.A
	}
	if s.B != "" {
		w.B = s.B
	}
	if s.C != "" {
		w.C = s.C
	}
	if sid != 0 {
		did = sid
	}
	if !time.Time(s.E).IsZero() {
		w.E = s.E
	}
	zzsym.Assert(d.A == w.A && d.B == w.B && d.C == w.C, "merged texts")
	zzsym.Assert(d.D.UInt64() == did, "merged identifier")
	zzsym.Assert(zzSameTime(d.E, w.E), "merged time")
	// a later change of the merged record is not a change of the source
	d.D.Reset()
	zzsym.Assert(s.D.UInt64() == sid, "the source's identifier changes with the merged one")
	zzsym.Reached("end")
}

func ZZE01_Lists() {
	mk := func(l string) (r zzLists) {
		if n := zzsym.Choose(l+"A", 3); n > 0 {
			r.A = zzsym.Bytes(l+"a", n-1)
		}
		for i, n := 0, zzsym.Choose(l+"B", 3); i < n; i++ {
			r.B = append(r.B, zzsym.Str(l+"b", 1))
		}
		for i, n := 0, zzsym.Choose(l+"C", 3); i < n; i++ {
			r.C = append(r.C, NewID(zzsym.U64(l+"c")))
		}
		if n := zzsym.Choose(l+"D", 3); n > 0 {
			r.D = make(pq.Int64Array, n-1)
			for i := range r.D {
				r.D[i] = zzsym.I64(l + "d")
			}
		}
		for i, n := 0, zzsym.Choose(l+"E", 2); i < n; i++ {
			r.E = append(r.E, zzsym.Str(l+"e", 1))
		}
		return
	}
	cp := func(x zzLists) zzLists {
		return zzLists{append([]byte{}, x.A...), append(Strings{}, x.B...), append(IDArray{}, x.C...), append(pq.Int64Array{}, x.D...), append(pq.StringArray{}, x.E...)}
	}
	same := func(x, y zzLists, msg string) {
		zzsym.Assert(string(x.A) == string(y.A), msg+": bytes")
		zzsym.Assert(len(x.B) == len(y.B) && len(x.C) == len(y.C) && len(x.D) == len(y.D) && len(x.E) == len(y.E), msg+": length of a list")
		for i := range x.B {
			zzsym.Assert(x.B[i] == y.B[i], msg+": texts")
		}
		for i := range x.C {
			zzsym.Assert(x.C[i].UInt64() == y.C[i].UInt64(), msg+": identifiers")
		}
		for i := range x.D {
			zzsym.Assert(x.D[i] == y.D[i], msg+": numbers")
		}
		for i := range x.E {
			zzsym.Assert(x.E[i] == y.E[i], msg+": text array")
		}
	}
	// one list at a time is of any length in the destination; the others are of one element or empty
	d, s := mk("d"), mk("s")
	w, s0 := cp(d), cp(s)
	zzMerge(&d, zzSrc(&s))
	same(s, s0, "the source changes")
	if len(s0.A) > 0 {
		w.A = s0.A
	}
	if len(s0.B) > 0 {
		w.B = s0.B
	}
	if len(s0.C) > 0 {
		w.C = s0.C
	}
	if len(s0.D) > 0 {
		w.D = s0.D
	}
	if len(s0.E) > 0 {
		w.E = s0.E
	}
	same(d, w, "merged lists")
	zzsym.Reached("end")
}

// Maps: every entry of the source is in the merged map, and the entries it does not have are left.
func ZZE01_Maps() {
	keys := []string{"a", "b"}
	mk := func(l string) (r zzMaps) {
		for _, k := range keys {
			if zzsym.Bool(l + "has" + k) {
				if r.A == nil {
					r.A = Metadata{}
				}
				r.A[k] = zzText(l + "v")
			}
		}
		for _, k := range keys {
			if zzsym.Bool(l + "kv" + k) {
				if r.B == nil {
					r.B = KVSet{}
				}
				r.B[k] = []string{zzsym.Str(l+"w", 1)}
			}
		}
		r.C = NewID(zzsym.U64(l + "C"))
		return
	}
	cp := func(x zzMaps) (r zzMaps) {
		r.A, r.B = Metadata{}, KVSet{}
		for _, k := range keys {
			if v, ok := x.A[k]; ok {
				r.A[k] = v
			}
			if v, ok := x.B[k]; ok {
				r.B[k] = append([]string{}, v...)
			}
		}
		r.C = NewID(x.C.UInt64())
		return
	}
	same := func(x, y zzMaps, msg string) {
		zzsym.Assert(len(x.A) == len(y.A) && len(x.B) == len(y.B), msg+": size of a map")
		for _, k := range keys {
			v, ok := x.A[k]
			v2, ok2 := y.A[k]
			zzsym.Assert(ok == ok2, msg+": keys")
			zzsym.Assert(v == v2, msg+": metadata")
			l, l2 := x.B[k], y.B[k]
			zzsym.Assert(len(l) == len(l2), msg+": key-value set")
			for i := range l {
				zzsym.Assert(l[i] == l2[i], msg+": key-value set")
			}
		}
		zzsym.Assert(x.C.UInt64() == y.C.UInt64(), msg+": identifier")
	}
	d, s := mk("d"), mk("s")
	w, s0 := cp(d), cp(s)
	zzMerge(&d, zzSrc(&s))
	same(s, s0, "the source changes")
	for _, k := range keys {
		if v, ok := s0.A[k]; ok {
			w.A[k] = v
		}
		if v, ok := s0.B[k]; ok {
			w.B[k] = v
		}
	}
	if s0.C.Valid() {
		w.C = s0.C
	}
	same(d, w, "merged maps")
	zzsym.Reached("end")
}

// Records in records, embedded and by pointer; a field after them is merged too.
func ZZE01_Nested() {
	in := func(l string) zzInner {
		return zzInner{NewID(uint64(zzsym.Choose(l+"id", 2)) * (1 + zzsym.U64Range(l+"v", 0, 1000))), NULLString(zzsym.Str(l+"n", zzsym.Choose(l+"len", 2))), zzAt(l + "at")}
	}
	d, s := &zzNested{}, &zzNested{}
	which := zzsym.Choose("which", 3)
	switch which {
	case 0:
		d.zzInner, s.zzInner = in("d"), in("s")
	case 1:
		d.X, s.X = in("d"), in("s")
	default:
		if zzsym.Bool("dp") {
			x := in("d")
			d.P = &x
		}
		if zzsym.Bool("sp") {
			x := in("s")
			s.P = &x
		}
	}
	d.hidden, s.hidden = 1, 2
	d.Last, s.Last = NewID(7), NewID(zzsym.U64("last"))
	at := func(n *zzNested) zzInner {
		switch which {
		case 0:
			return n.zzInner
		case 1:
			return n.X
		}
		if n.P != nil {
			return *n.P
		}
		return zzInner{}
	}
	d0, s0 := at(d), at(s)
	sid, last := s0.ID.UInt64(), s.Last.UInt64()
	zzMerge(d, zzSrc(s))
	got, src := at(d), at(s)
	zzsym.Assert(src.ID.UInt64() == sid && src.Name == s0.Name && zzSameTime(src.At, s0.At) && s.Last.UInt64() == last && s.hidden == 2, "the source changes")
	id, name, t := d0.ID.UInt64(), d0.Name, d0.At
	if sid != 0 {
		id = sid
	}
	if s0.Name != "" {
		name = s0.Name
	}
	if !time.Time(s0.At).IsZero() {
		t = s0.At
	}
	if last == 0 {
		last = 7
	}
	zzsym.Assert(got.ID.UInt64() == id, "nested identifier")
	zzsym.Assert(got.Name == name, "nested text")
	zzsym.Assert(zzSameTime(got.At, t), "nested time")
	zzsym.Assert(d.Last.UInt64() == last, "field after a nested record")
	zzsym.Reached("end")
}

type zzDeep struct {
	V    ID
	N    NULLString
	Next *zzDeep
	In   struct{ X, Y Int64 }
}

// Large values: lists of 80 elements, maps of 40 entries, a text of 300 bytes, and records nested 12 deep, replaced by
// or merged with values of the same, a smaller or a larger size, from up to 3 sources one after the other.
func ZZE01_Large() {
	sizes := []int{0, 1, 80, 90}
	ds := sizes[zzsym.Choose("dst", 4)]
	lists := func(l string, n int) (r zzLists) {
		for i := 0; i < n; i++ {
			r.A = append(r.A, zzsym.Byte(l))
			r.B = append(r.B, zzsym.Str(l, 1))
			r.C = append(r.C, NewID(uint64(i)*100+uint64(l[0])))
			r.D = append(r.D, zzsym.I64(l))
			r.E = append(r.E, zzsym.Str(l, 1))
		}
		return
	}
	type rec struct {
		L zzLists
		M Metadata
		T NULLString
		D *zzDeep
	}
	mk := func(l string, n int) (r rec) {
		r.L = lists(l, n)
		for i := 0; i < n; i += 2 {
			if r.M == nil {
				r.M = Metadata{}
			}
			r.M["k"+strconv.Itoa(i)] = l + strconv.Itoa(i)
		}
		r.T = NULLString(strings.Repeat(l, n*3))
		for i := 0; i < n && i < 12; i++ {
			x := &zzDeep{V: NewID(uint64(i) + 1), N: NULLString(l), Next: r.D}
			x.In.Y = Int64(l[0])*100 + Int64(i)
			r.D = x
		}
		return
	}
	d := mk("d", ds)
	want := d
	want.M = Metadata{}
	for k, v := range d.M {
		want.M[k] = v
	}
	var in [12]Int64
	depth := 0
	for x := d.D; x != nil; x = x.Next {
		in[depth] = x.In.Y
		depth++
	}
	for k := 0; k < 3; k++ {
		n := []int{0, 40, 80}[(zzsym.Choose("src", 3)+k)%3]
		s := mk(string(rune('p'+k)), n)
		m := map[string]string{}
		for k, v := range s.M {
			m[k] = v
		}
		zzMerge(&d, &s)
		zzsym.Assert(len(s.M) == len(m) && len(s.L.A) == n && len(s.T) == n*3, "the source changes")
		if n == 0 {
			continue
		}
		want.L, want.T = s.L, s.T
		for k, v := range m {
			want.M[k] = v
		}
		for i, x := 0, s.D; x != nil; i, x = i+1, x.Next {
			in[i] = x.In.Y
		}
		depth = max(depth, 12)
	}
	zzsym.Assert(len(d.L.A) == len(want.L.A) && len(d.L.B) == len(want.L.B) && len(d.L.C) == len(want.L.C) && len(d.L.D) == len(want.L.D) && len(d.L.E) == len(want.L.E), "length of the lists")
	ok := true
	for i := range want.L.A {
		ok = zzsym.And(ok, d.L.A[i] == want.L.A[i], d.L.B[i] == want.L.B[i], d.L.C[i].UInt64() == want.L.C[i].UInt64(), d.L.D[i] == want.L.D[i], d.L.E[i] == want.L.E[i])
	}
	zzsym.Assert(ok, "merged lists")
	zzsym.Assert(len(d.M) == len(want.M), "size of the map")
	for k, v := range want.M {
		zzsym.Assert(d.M[k] == v, "entry of the map")
	}
	zzsym.Assert(d.T == want.T, "text")
	i := 0
	for x := d.D; x != nil; i, x = i+1, x.Next {
		zzsym.Assert(i < 12 && x.In.Y == in[i], "nested number")
	}
	zzsym.Assert(i == depth, "depth")
	zzsym.Reached("end")
}
