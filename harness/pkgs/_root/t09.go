package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

func zzNums9(l IDArray) []uint64 {
	r := []uint64{}
	for _, x := range l {
		r = append(r, x.UInt64())
	}
	return r
}

// SQL array: lists of up to 2 ids (thorough: 3), each any 64-bit number, scanned as text or bytes
// into a list with any previous content.
func ZZT09_Array() {
	max := 2
	if zzsym.Thorough() {
		max = 3
	}
	n := zzsym.Choose("n", max+1)
	var l IDArray
	var in []uint64
	for i := 0; i < n; i++ {
		k := zzsym.U64("l")
		if i > 1 {
			zzsym.Assume(k < 100)
		}
		in = append(in, k)
		l = append(l, NewID(k))
	}
	v, err := l.Value()
	zzsym.Assert(err == nil, "writes")
	zzsym.Assert((v == nil) == (n == 0), "exactly the empty list is NULL")
	if s, ok := v.(string); ok && zzsym.Bool("bytes") {
		v = []byte(s)
	}
	y := IDArray{NewID(9), NewID(8)}
	zzsym.Assert(y.Scan(v) == nil, "scans what it wrote")
	out := zzNums9(y)
	zzsym.Assert(len(out) == n, "same number of ids")
	for i := range out {
		zzsym.Assert(out[i] == in[i], "same id at the same place")
	}
}

// zzArr: the numbers of a SQL array of one-digit numbers, if the text is one.
func zzArr(s string) ([]uint64, bool) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	if s == "" {
		return nil, true
	}
	var r []uint64
	i := 0
	for {
		j := i
		for j < len(s) && s[j] != ',' {
			j++
		}
		if !zzIsDec(s[i:j]) {
			return nil, false
		}
		r = append(r, zzVal(s[i:j]))
		if j == len(s) {
			return r, true
		}
		i = j + 1
	}
}

// Every text of up to 4 bytes (thorough: 5) over the alphabet { } , 0-9 and one arbitrary other byte:
// an array of decimals yields its ids, anything else an error and no ids.
func ZZT09_Malformed() {
	max := 4
	if zzsym.Thorough() {
		max = 5
	}
	s := zzsym.Str("s", zzsym.Choose("len", max+1))
	// signs, quotes, escapes and blanks are outside this oracle
	for i := 0; i < len(s); i++ {
		c := s[i]
		zzsym.Assume(zzsym.Or(c == '{', c == '}', c == ',', zzsym.And(c >= '0', c <= '9'), zzsym.And(c >= 'a', c <= 'z')))
	}
	y := IDArray{NewID(9), NewID(8)}
	var err error
	if zzsym.Bool("bytes") {
		err = y.Scan([]byte(s))
	} else {
		err = y.Scan(s)
	}
	for i := 1; i+1 < len(s); i++ {
		// nested arrays are outside this oracle
		zzsym.Assume(zzsym.And(s[i] != '{', s[i] != '}'))
	}
	want, ok := zzArr(s)
	if err != nil {
		zzsym.Assert(!ok, "an array of decimals is accepted")
		zzsym.Assert(len(y) == 0, "no ids after an error")
		return
	}
	zzsym.Assert(ok, "anything else is an error")
	out := zzNums9(y)
	zzsym.Assert(len(out) == len(want), "same number of ids")
	for i := range out {
		zzsym.Assert(out[i] == want[i], "same ids")
	}
}

// Unsupported kinds are errors with no ids.
func ZZT09_Kinds() {
	y := IDArray{NewID(9)}
	zzsym.Assert(y.Scan(zzsym.I64("n")) != nil && len(y) == 0, "integer is refused")
	y = IDArray{NewID(9)}
	zzsym.Assert(y.Scan(struct{}{}) != nil && len(y) == 0, "struct is refused")
}

// String and integer list conversions of lists of up to 2 distinct ids, any 64-bit numbers.
func ZZT09_Lists() {
	n := zzsym.Choose("n", 3)
	var l IDArray
	var in []uint64
	for i := 0; i < n; i++ {
		k := zzsym.U64("l")
		zzsym.Assume(k != 0)
		for _, o := range in {
			zzsym.Assume(o != k)
		}
		in = append(in, k)
		l = append(l, NewID(k))
	}
	ss := l.Strings()
	zzsym.Assert(len(ss) == n, "one string per id")
	join := ""
	for i, s := range ss {
		zzsym.Assert(s == zzDec(in[i]), "string of the id")
		if i > 0 {
			join += ","
		}
		join += s
	}
	zzsym.Assert(l.String() == join, "joined text")
	back := zzNums9(IDArrayFromStrings(ss))
	zzsym.Assert(len(back) == n, "same number of ids")
	ia, ib := l.Int64Array(), Int64Array(in)
	ll := l.List()
	zzsym.Assert(len(ia) == n && len(ib) == n && len(ll) == n, "same number of integers")
	for i := range in {
		zzsym.Assert(back[i] == in[i], "same ids")
		zzsym.Assert(uint64(ia[i]) == in[i] && uint64(ib[i]) == in[i] && ll[i] == in[i], "same integers")
	}
}

// Strings that are not ids are skipped: lists of two texts of up to 2 bytes each.
func ZZT09_FromStrings() {
	a := zzsym.Str("a", zzsym.Choose("la", 3))
	b := zzsym.Str("b", zzsym.Choose("lb", 3))
	var want []uint64
	for _, s := range []string{a, b} {
		if zzIsDec(s) && zzVal(s) != 0 {
			if len(want) == 0 || want[0] != zzVal(s) {
				want = append(want, zzVal(s))
			}
		}
	}
	got := zzNums9(IDArrayFromStrings([]string{a, b}))
	zzsym.Assert(len(got) == len(want), "number of valid ids")
	for i := range got {
		zzsym.Assert(got[i] == want[i], "ids in order")
	}
}

type zzEnum int32
type zzEnumU uint32

// Enum lists keep every value and its place.
func ZZT09_Enums() {
	a, b := zzsym.I32("a"), zzsym.I32("b")
	x := Int32Array([]zzEnum{zzEnum(a), zzEnum(b)})
	zzsym.Assert(len(x) == 2 && x[0] == a && x[1] == b, "signed enums")
	c := zzsym.U32("c")
	y := Int32Array([]zzEnumU{zzEnumU(c)})
	zzsym.Assert(len(y) == 1 && uint32(y[0]) == c, "unsigned enums")
}

// Longer lists: 6 ids (thorough: 9) of one digit each, in any order and with repetitions, keep number and order in a
// SQL array and in the string and integer lists.
func ZZT09_Long() {
	n := 6
	if zzsym.Thorough() {
		n = 9
	}
	var l IDArray
	var in []uint64
	for i := 0; i < n; i++ {
		k := zzsym.U64("l")
		zzsym.Assume(zzsym.And(k > 0, k < 10))
		in = append(in, k)
		l = append(l, NewID(k))
	}
	v, err := l.Value()
	zzsym.Assert(err == nil, "writes")
	var y IDArray
	zzsym.Assert(y.Scan(v) == nil, "scans what it wrote")
	out, ss, ia, ll := zzNums9(y), l.Strings(), l.Int64Array(), l.List()
	zzsym.Assert(len(out) == n && len(ss) == n && len(ia) == n && len(ll) == n, "same number of ids")
	for i := range in {
		zzsym.Assert(zzsym.And(out[i] == in[i], ia[i] == int64(in[i]), ll[i] == in[i]), "same id at the same place")
		zzsym.Assert(ss[i] == string(byte('0'+in[i])), "same text at the same place")
	}
}

// Long lists: 40 or 300 ids of 1 to 20 digits, some of them repeated next to each other or further apart, and one of any value at the front, in the
// middle or at the end.
func ZZT09_Many() {
	n := []int{40, 300}[zzsym.Choose("n", 2)]
	var l IDArray
	var in []uint64
	for i := 0; i < n; i++ {
		k := uint64(i/2%100+1) * []uint64{1, 1, 1000003, 10000000000000061}[i/2%4]
		in = append(in, k)
	}
	in[[]int{0, n / 2, n - 1}[zzsym.Choose("place", 3)]] = zzsym.U64("k")
	for _, k := range in {
		l = append(l, NewID(k))
	}
	v, err := l.Value()
	zzsym.Assert(err == nil, "writes")
	var y IDArray
	zzsym.Assert(y.Scan(v) == nil, "scans what it wrote")
	out, ss, ia, ll := zzNums9(y), l.Strings(), l.Int64Array(), l.List()
	zzsym.Assert(len(out) == n && len(ss) == n && len(ia) == n && len(ll) == n, "same number of ids")
	join := ""
	for i := range in {
		zzsym.Assert(zzsym.And(out[i] == in[i], uint64(ia[i]) == in[i], ll[i] == in[i]), "same id at the same place")
		if i > 0 {
			join += ","
		}
		join += ss[i]
	}
	zzsym.Assert(l.String() == join, "joined text")
	var want []uint64
	for i, k := range in {
		has := k == 0
		for _, x := range want {
			has = zzsym.Or(has, x == k)
		}
		if n > 40 && i >= 40 {
			break
		}
		if !has {
			want = append(want, k)
		}
	}
	got := zzNums9(IDArrayFromStrings(ss[:40]))
	zzsym.Assert(len(got) == len(want), "ids from texts: every valid id once")
	for i := range want {
		zzsym.Assert(got[i] == want[i], "ids from texts: in order")
	}
}
