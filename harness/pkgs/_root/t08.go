package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// zzList is a duplicate-free list of n ids, each any 64-bit number, with room for spare more in its
// backing array.
func zzList(label string, n, spare int) IDArray {
	l := make(IDArray, 0, n+spare)
	for i := 0; i < n; i++ {
		k := zzsym.U64(label)
		for j := 0; j < i; j++ {
			zzsym.Assume(l[j].UInt64() != k)
		}
		l = append(l, NewID(k))
	}
	return l
}

func zzNums(l IDArray) []uint64 {
	var r []uint64
	for _, x := range l {
		r = append(r, x.UInt64())
	}
	return r
}

func zzHas(l []uint64, k uint64) bool {
	r := false
	for _, x := range l {
		r = zzsym.Or(r, x == k)
	}
	return r
}

func zzEq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = zzsym.And(r, a[i] == b[i])
	}
	return r
}

func zzDistinct(a []uint64) bool {
	r := true
	for i := range a {
		for j := 0; j < i; j++ {
			r = zzsym.And(r, a[i] != a[j])
		}
	}
	return r
}

// Add to any duplicate-free list of up to 3 ids (spare capacity 0 or 2), then Add to the same list
// again: both results are right and the original is unchanged.
func ZZT08_Add() {
	l := zzList("l", zzsym.Choose("n", 4), 2*zzsym.Choose("spare", 2))
	before := zzNums(l)
	a, b := zzsym.U64("a"), zzsym.U64("b")
	x := l.Add(NewID(a))
	xs := zzNums(x)
	y := l.Add(NewID(b))
	ys := zzNums(y)
	z := x.Add(NewID(b))
	check := func(r []uint64, base []uint64, k uint64) {
		if zzHas(base, k) {
			zzsym.Assert(zzEq(r, base), "Add of a member keeps the list")
		} else {
			zzsym.Assert(len(r) == len(base)+1 && zzEq(r[:len(base)], base) && r[len(base)] == k, "Add appends a new id")
		}
	}
	check(xs, before, a)
	check(ys, before, b)
	check(zzNums(z), xs, b)
	zzsym.Assert(zzEq(zzNums(l), before), "the original list is unchanged")
	zzsym.Assert(zzEq(zzNums(x), xs), "an earlier result is unchanged")
	zzsym.Assert(zzEq(zzNums(y), ys), "another result is unchanged")
}

// Concat of any two duplicate-free lists of up to 3 ids with spare capacity, each in both roles.
func ZZT08_Concat() {
	l := zzList("l", zzsym.Choose("n", 4), 3*zzsym.Choose("spare", 2))
	m := zzList("m", zzsym.Choose("k", 3), 3)
	lb, mb := zzNums(l), zzNums(m)
	x := l.Concat(m)
	xs := zzNums(x)
	y := m.Concat(l)
	for _, r := range [][]uint64{xs, zzNums(y)} {
		zzsym.Assert(zzDistinct(r), "no duplicates")
		for _, k := range lb {
			zzsym.Assert(zzHas(r, k), "contains the ids of the first list")
		}
		for _, k := range mb {
			zzsym.Assert(zzHas(r, k), "contains the ids of the second list")
		}
		for _, k := range r {
			zzsym.Assert(zzHas(lb, k) || zzHas(mb, k), "contains no other id")
		}
	}
	ys := zzNums(y)
	_ = x.Add(NewID(zzsym.U64("extra")))
	o := zzList("o", 1, 0)
	_, _, _, _ = l.Concat(o), o.Concat(l), m.Concat(o), o.Concat(m)
	zzsym.Assert(zzEq(zzNums(l), lb) && zzEq(zzNums(m), mb), "operands unchanged")
	zzsym.Assert(zzEq(zzNums(x), xs) && zzEq(zzNums(y), ys), "an earlier result is unchanged")
}

// Contains and Overlaps of any lists of up to 3 ids.
func ZZT08_Member() {
	l := zzList("l", zzsym.Choose("n", 4), 0)
	m := zzList("m", zzsym.Choose("k", 4), 0)
	k := zzsym.U64("x")
	zzsym.Assert(l.Contains(NewID(k)) == zzHas(zzNums(l), k), "Contains")
	ov := false
	for _, x := range zzNums(m) {
		ov = zzsym.Or(ov, zzHas(zzNums(l), x))
	}
	zzsym.Assert(l.Overlaps(m) == ov, "Overlaps")
	zzsym.Assert(m.Overlaps(l) == ov, "Overlaps is symmetric")
}

// Sort of any list of up to 4 ids (duplicates allowed; thorough: 5).
func ZZT08_Sort() {
	max := 4
	if zzsym.Thorough() {
		max = 5
	}
	n := zzsym.Choose("n", max+1)
	var l IDArray
	var in []uint64
	for i := 0; i < n; i++ {
		k := zzsym.U64("l")
		in = append(in, k)
		l = append(l, NewID(k))
	}
	out := zzNums(l.Sort())
	zzsym.Assert(len(out) == n, "same number of ids")
	for i := 1; i < len(out); i++ {
		zzsym.Assert(out[i-1] <= out[i], "ascending")
	}
	x := zzsym.U64("any")
	var ci, co uint64
	for i := range in {
		ci += zzsym.IteU64(in[i] == x, 1, 0)
		co += zzsym.IteU64(out[i] == x, 1, 0)
	}
	zzsym.Assert(ci == co, "same ids")
}

// Lists built from numbers (up to 3, duplicates allowed) are duplicate-free and keep order.
func ZZT08_New() {
	n := zzsym.Choose("n", 4)
	var in []uint64
	for i := 0; i < n; i++ {
		in = append(in, zzsym.U64("l"))
	}
	l := NewIDArray(in)
	var want []uint64
	for _, k := range in {
		if !zzHas(want, k) {
			want = append(want, k)
		}
	}
	zzsym.Assert(zzEq(zzNums(l), want), "ids in order without duplicates")
	zzsym.Assert(zzEq(l.List(), want), "List")
}

// zzSome: n different ids in a scrambled order, some of them equal in their low or high halves.
func zzSome(n, step int) IDArray {
	var l IDArray
	for i := 0; i < n; i++ {
		j := uint64(i*step%n + 1)
		l = append(l, NewID(j/3+1+(j%3)<<32+(j%5)<<62))
	}
	return l
}

// zzUnion: a, then what only b has.
func zzUnion(a, b []uint64) []uint64 {
	r := append([]uint64(nil), a...)
	for _, y := range b {
		if !zzHas(a, y) {
			r = append(r, y)
		}
	}
	return r
}

// Long lists: 23 or 301 ids in one of 3 orders, with any id (301: one of 5) looked up, added, or in the front, in the middle or at the end of the other
// list: Contains, Overlaps, Add, Concat and Sort are what they are for short lists.
func ZZT08_Many() {
	n := []int{23, 301}[zzsym.Choose("n", 2)]
	l := zzSome(n, []int{1, 6, n - 1}[zzsym.Choose("order", 3)])
	before := zzNums(l)
	x := zzsym.U64("x")
	if n > 23 {
		x = []uint64{0, 1 << 40, before[0], before[n/2], before[n-1]}[zzsym.Choose("xn", 5)]
	}
	switch zzsym.Choose("op", 5) {
	case 0:
		zzsym.Assert(l.Contains(NewID(x)) == zzHas(before, x), "Contains")
	case 1:
		o := zzSome(n+30, 1)[n:]
		o[[]int{0, 15, 29}[zzsym.Choose("place", 3)]] = NewID(x)
		zzsym.Assert(l.Overlaps(o) == zzHas(before, x), "Overlaps")
		zzsym.Assert(o.Overlaps(l) == zzHas(before, x), "Overlaps is symmetric")
	case 2:
		r := zzNums(l.Add(NewID(x)))
		if zzHas(before, x) {
			zzsym.Assert(zzEq(r, before), "Add of a member keeps the list")
		} else {
			zzsym.Assert(len(r) == n+1 && zzEq(r[:n], before) && r[n] == x, "Add appends a new id")
		}
	case 3:
		o := zzSome(n+25, 1)[n-10:]
		p := []int{0, 5, 34}[zzsym.Choose("place", 3)]
		o[p] = NewID(x)
		for i, y := range o {
			zzsym.Assume(i == p || y.UInt64() != x)
		}
		r, w1, w2 := zzNums(l.Concat(o)), zzUnion(before, zzNums(o)), zzUnion(zzNums(o), before)
		zzsym.Assert(len(r) == len(w1), "the union has every id once")
		// the usual orders first: the general comparison is quadratic
		if !zzEq(r, w1) && !zzEq(r, w2) {
			for _, y := range w1 {
				zzsym.Assert(zzHas(r, y), "the union has the ids of both lists")
			}
		}
	default:
		p := []int{0, n / 2, n - 1}[zzsym.Choose("place", 3)]
		l[p] = NewID(x)
		before[p] = x
		r := l.Sort()
		zzsym.Assert(zzEq(zzNums(r), zzNums(l)), "sorts in place")
		out := zzNums(r)
		zzsym.Assert(len(out) == n, "same number of ids")
		for i := 1; i < n; i++ {
			zzsym.Assert(out[i-1] <= out[i], "ascending")
		}
		for _, y := range []uint64{x, before[1], before[n-2]} {
			ci, co := 0, 0
			for i := range out {
				if before[i] == y {
					ci++
				}
				if out[i] == y {
					co++
				}
			}
			zzsym.Assert(ci == co, "every id as often as before")
		}
		return
	}
	zzsym.Assert(zzEq(zzNums(l), before), "the list is unchanged")
}
