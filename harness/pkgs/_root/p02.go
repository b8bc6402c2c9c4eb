package xdb

import (
	"database/sql"

	"github.com/effective-security/xdb/internal/zzsym"
)

func zzSame(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case uint64:
		y, ok := b.(uint64)
		return zzsym.And(ok, x == y)
	case uint32:
		y, ok := b.(uint32)
		return zzsym.And(ok, x == y)
	}
	return false
}

func zzReports(b *QueryParamsBuilder, s *zzShape) {
	args := b.Args()
	zzsym.Assert(len(args) == len(s.args), "as many arguments as bound")
	for i := range args {
		zzsym.Assert(zzSame(s.args[i], args[i]), "arguments in call order, paging last")
	}
	q := zzsym.U32("q")
	zzsym.Assert(b.IsSet(q) == zzsym.And(q < 64, s.pos>>q&1 == 1), "set exactly if it was set")
	v, ok := b.GetEnum(q)
	found, val := false, int32(0)
	for i := range s.enumP {
		if !found && s.enumP[i] == q {
			found, val = true, s.enumV[i]
		}
	}
	zzsym.Assert(ok == found, "an enum is reported exactly if it was set")
	zzsym.Assert(!found || v == val || len(s.enumP) > 1, "with its value")
	if !found {
		zzsym.Assert(v == 0, "zero if not set")
	}
	f := b.GetFlags()
	zzsym.Assert(len(f) == len(s.flags), "flags as given")
	for i := range f {
		zzsym.Assert(f[i] == s.flags[i], "flags as given")
	}
	lim, off := b.Page()
	zzsym.Assert(lim == s.limit && off == s.offset, "page as given, zero size meaning the default")
	lim, c := b.Cursor()
	zzsym.Assert(lim == s.limit && zzSame(s.cursor, c), "cursor as given")
	n := b.GetNullColumns()
	zzsym.Assert(len(n) == len(s.cols), "nulled columns as given")
	for i := range n {
		zzsym.Assert(n[i] == s.cols[i], "nulled columns as given")
	}
}

func zzPanics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// Any sequence of up to 3 setters (thorough: 4; calls after paging refused), then every report.
func ZZP02_Reports() {
	n := 3
	if zzsym.Thorough() {
		n = 4
	}
	b := NewQueryParams("q")
	var s zzShape
	for i := 0; i < n; i++ {
		k := zzsym.Choose("op", 8)
		if k == 7 {
			break
		}
		if s.paging != 0 && (k != 2 && k != 5) {
			zzsym.Assert(zzPanics(func() { zzSetter("s", k, b, &zzShape{}) }), "arguments after paging are refused")
			continue
		}
		zzSetter("s", k, b, &s)
	}
	zzReports(b, &s)
}

// Distinct enum positions: the value given for each.
func ZZP02_Enums() {
	b := NewQueryParams("q")
	p := []uint32{zzPos("p"), zzPos("p"), zzPos("p")}
	zzsym.Assume(p[0] != p[1])
	zzsym.Assume(p[0] != p[2])
	zzsym.Assume(p[1] != p[2])
	var v []int32
	for i := range p {
		v = append(v, zzsym.I32("v"))
		b.SetEnum(p[i], v[i])
	}
	for i := range p {
		x, ok := b.GetEnum(p[i])
		zzsym.Assert(ok && x == v[i] && b.IsSet(p[i]), "enum value as given")
	}
	zzsym.Assert(len(b.Args()) == 0, "enums are not arguments")
}

// Positions above 63 are refused by every positional setter and change nothing, after any one setter.
func ZZP02_Range() {
	b := NewQueryParams("q")
	var s zzShape
	zzSetter("s", zzsym.Choose("op", 3), b, &s)
	p := zzsym.U32("p")
	zzsym.Assume(p > 63)
	zzsym.Assert(zzPanics(func() { b.Set(p, 1) }), "Set refuses the position")
	zzsym.Assert(zzPanics(func() { b.SetEnum(p, 1) }), "SetEnum refuses the position")
	zzsym.Assert(zzPanics(func() { b.SetCursor(5, p, "x") }), "SetCursor refuses the position")
	zzReports(b, &s)
}

// Reset after any 2 setters, or one setter and asking for the name, gives a set that reports and is named like a new one, also after one more
// setter on both.
func ZZP02_Reset() {
	b := NewQueryParams("q")
	var s zzShape
	named := zzsym.Choose("named", 2)
	for i := named; i < 2; i++ {
		k := zzsym.Choose("op", 7)
		if s.paging != 0 && (k != 2 && k != 5) {
			continue
		}
		zzSetter("s", k, b, &s)
	}
	if named == 1 {
		b.Name()
	}
	kept := b.Args()
	keptN := len(kept)
	b.Reset()
	var s2 zzShape
	zzReports(b, &s2)
	zzsym.Assert(b.Name() == NewQueryParams("q").Name(), "named like a new set")
	k := zzsym.Choose("op2", 7)
	zzSetter("t", k, b, &s2)
	zzReports(b, &s2)
	zzsym.Assert(len(kept) == keptN && keptN == len(s.args), "arguments handed out before the reset are unchanged")
	for i := range kept {
		zzsym.Assert(zzSame(s.args[i], kept[i]), "arguments handed out before the reset are unchanged")
	}
}

// The bound arguments are the set's own: what the caller does with the slice it passed changes nothing, and binding
// more leaves the caller's slice alone.
func ZZP02_Own() {
	v := []any{zzsym.U64("a"), zzsym.U64("b"), zzsym.U64("c")}
	w := append([]any(nil), v...)
	n := zzsym.Choose("n", 3)
	b := NewQueryParams("q")
	var s zzShape
	pre := zzsym.Choose("pre", 3)
	if pre == 1 {
		zzSetter("s", 0, b, &s)
	} else if pre == 2 {
		b.Set(1, "x").Set(2, "y").Reset()
	}
	b.AddArgs(v[:n]...)
	s.args = append(s.args, w[:n]...)
	zzSetter("t", []int{0, 3, 4, 6}[zzsym.Choose("op", 4)], b, &s)
	for i := range v {
		zzsym.Assert(zzSame(w[i], v[i]), "the caller's slice is unchanged")
		v[i] = "other"
	}
	zzReports(b, &s)
}

// After a reset the set is named like a new one given the same setter, after any setter before it.
func ZZP02_ResetName() {
	b, f := NewQueryParams("q"), NewQueryParams("q")
	var s zzShape
	zzSetter("s", zzsym.Choose("op", 7), b, &s)
	b.Reset()
	v := uint32(1 + zzsym.Choose("v", 2))
	k := zzsym.Choose("op2", 6)
	set := func(x *QueryParamsBuilder) {
		switch k {
		case 0:
			x.Set(v, "a")
		case 1:
			x.SetEnum(v, int32(v))
		case 2:
			x.SetFlags(int32(v))
		case 3:
			x.SetPage(v, 0)
		case 4:
			x.SetCursor(v, 1, nil)
		case 5:
			x.SetNullColums([]string{"c"})
		}
	}
	set(b)
	set(f)
	zzsym.Assert(b.Name() == f.Name(), "named like a new set")
}

// Page values given as int, uint32 or named argument decode to themselves.
func ZZP02_PageParam() {
	v := zzsym.U32("v")
	zzsym.Assert(PageParam(v) == v, "uint32")
	zzsym.Assert(PageParam(int(v)) == v, "int")
	zzsym.Assert(PageParam(sql.Named("n", v)) == v, "named uint32")
	zzsym.Assert(PageParam(sql.Named("n", int(v))) == v, "named int")
	zzsym.Assert(zzPanics(func() { PageParam("5") }), "other kinds are refused")
	var p QueryParams = NewQueryParams("n")
	zzsym.Assert(GetQueryParams("x", p) == p, "found among arguments")
	zzsym.Assert(zzPanics(func() { GetQueryParams("x", 5) }), "refused when absent")
}

// Large sets: 60 arguments of any value bound one by one or in lists of 20 or 60, up to 64 enums set in any of 3 orders, 40 flags and 40 nulled columns, then a page
// or a cursor: all reported, and after Reset the same from the beginning.
func ZZP02_Many() {
	b := NewQueryParams("q")
	order := []int{1, 5, 31}[zzsym.Choose("order", 3)]
	paging := zzsym.Choose("paging", 3)
	group := []int{0, 20, 60}[zzsym.Choose("group", 3)]
	for round := 0; round < 2; round++ {
		if round == 1 {
			b.Reset()
		}
		var want []any
		if group > 0 {
			for len(want) < 60 {
				var l []any
				for i := 0; i < group; i++ {
					l = append(l, zzsym.U64("a"))
				}
				want = append(want, l...)
				b.AddArgs(l...)
			}
		} else {
			for i := 0; i < 60; i++ {
				v := zzsym.U64("a")
				want = append(want, v)
				b.Set(uint32(i*order%64), v)
			}
		}
		var ev [64]int32
		for i := round; i < 64; i++ {
			v := zzsym.I32("e")
			ev[i*order%64] = v
			b.SetEnum(uint32(i*order%64), v)
		}
		var f []int32
		var c []string
		for i := 0; i < 40; i++ {
			f = append(f, zzsym.I32("f"))
			c = append(c, "c"+string(rune('z'-i)))
		}
		b.SetFlags(f...)
		b.SetNullColums(c)
		lim, x := zzsym.U32("lim"), zzsym.U64("x")
		zzsym.Assume(lim > 0)
		switch paging {
		case 1:
			b.SetPage(lim, 7)
			want = append(want, lim, uint32(7))
		case 2:
			b.SetCursor(lim, 3, x)
			want = append(want, x, lim)
		}
		args := b.Args()
		zzsym.Assert(len(args) == len(want), "as many arguments as bound")
		ok := true
		for i := range args {
			ok = zzsym.And(ok, zzSame(want[i], args[i]))
		}
		zzsym.Assert(ok, "arguments in call order, paging last")
		for i := round; i < 64; i++ {
			p := uint32(i * order % 64)
			v, is := b.GetEnum(p)
			zzsym.Assert(is && b.IsSet(p), "an enum is reported exactly if it was set")
			ok = zzsym.And(ok, v == ev[p])
		}
		zzsym.Assert(ok, "with its value")
		gf, gc := b.GetFlags(), b.GetNullColumns()
		zzsym.Assert(len(gf) == 40 && len(gc) == 40, "flags and nulled columns as given")
		for i := range gf {
			ok = zzsym.And(ok, gf[i] == f[i], gc[i] == c[i])
		}
		zzsym.Assert(ok, "flags and nulled columns as given")
	}
}
