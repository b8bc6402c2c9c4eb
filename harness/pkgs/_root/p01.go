package xdb

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

func zzSubset(a, b []string) bool {
	r := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = zzsym.Or(in, x == y)
		}
		r = zzsym.And(r, in)
	}
	return r
}

// zzJoined is the concatenation of the texts in ascending order.
func zzJoined(l []string) string {
	l = append([]string(nil), l...)
	for i := range l {
		for j := range l[:i] {
			if l[i] < l[j] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	r := ""
	for _, x := range l {
		r += x
	}
	return r
}

func zzSameShape(a, b *zzShape) {
	zzsym.Assert(a.pos == b.pos, "equal names: same positions")
	zzsym.Assert(a.paging == b.paging, "equal names: same kind of paging")
	zzsym.Assert(len(a.enumP) == len(b.enumP) && len(a.flags) == len(b.flags), "equal names: same number of enums and flags")
	for i := range a.enumP {
		zzsym.Assert(zzsym.And(a.enumP[i] == b.enumP[i], a.enumV[i] == b.enumV[i]), "equal names: same enums")
	}
	for i := range a.flags {
		zzsym.Assert(a.flags[i] == b.flags[i], "equal names: same flags")
	}
	if !zzsym.And(zzSubset(a.cols, b.cols), zzSubset(b.cols, a.cols)) {
		if len(a.cols) > 0 && len(b.cols) > 0 && zzJoined(a.cols) == zzJoined(b.cols) {
			zzsym.Finding("null-columns-concatenated", false, "null column lists that concatenate to the same text have the same name")
		} else {
			zzsym.Assert(false, "equal names: same nulled columns")
		}
	}
}

func zzPair(n int) {
	a, b := NewQueryParams("q"), NewQueryParams("q")
	var sa, sb zzShape
	run := func(l string, p *QueryParamsBuilder, s *zzShape) {
		for i := 0; i < n; i++ {
			k := zzsym.Choose(l+".op", 7)
			if k == 6 { // fewer setters
				return
			}
			if s.paging != 0 && (k == 0 || k == 1 || k == 3 || k == 4) {
				zzsym.Assume(false)
			}
			zzSetter(l, k, p, s)
		}
	}
	run("a", a, &sa)
	run("b", b, &sb)
	if a.Name() == b.Name() {
		zzsym.Reached("equal names")
		zzSameShape(&sa, &sb)
	}
}

// Two parameter sets made by up to 1 setter each (thorough: 2), with any positions, values, enum values,
// flags, paging values and up to 2 nulled columns of 1 or 2 bytes: equal names only for equal shapes.
func ZZP01_Pairs() {
	n := 1
	if zzsym.Thorough() {
		n = 2
	}
	zzPair(n)
}

// The same with one enum or flag list or column list on both sides after any position was set.
func ZZP01_PairsAfterSet() {
	a, b := NewQueryParams("q"), NewQueryParams("q")
	var sa, sb zzShape
	k := []int{1, 2, 5}[zzsym.Choose("kind", 3)]
	k2 := []int{1, 2, 3, 4, 5}[zzsym.Choose("kind2", 5)]
	pa, pb := uint32(3), uint32(3)
	a.Set(pa, 1)
	sa.pos = 1 << pa
	b.Set(pb, 1)
	sb.pos = 1 << pb
	zzSetter("a", k, a, &sa)
	zzSetter("b", k2, b, &sb)
	if a.Name() == b.Name() {
		zzSameShape(&sa, &sb)
	}
}

// Up to 2 setters (thorough: 3) of any kind with the name asked for before or after any of them: the
// name is that of a set built without asking, and no caller-owned list changes.
func ZZP01_Current() {
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	a, b := NewQueryParams("q"), NewQueryParams("q")
	ask := zzsym.Choose("ask", n)
	var lists [][]string
	var before [][]string
	for i := 0; i < n; i++ {
		if i == ask {
			a.Name()
		}
		k := zzsym.Choose("op", 6)
		lim, _ := a.Page()
		if lim != 0 && (k == 0 || k == 1 || k == 3 || k == 4) {
			zzsym.Assume(false)
		}
		p, v := zzPos("pos"), zzsym.I32("val")
		switch k {
		case 0:
			a.Set(p, v)
			b.Set(p, v+1)
		case 1:
			a.SetEnum(p, v)
			b.SetEnum(p, v)
		case 2:
			a.SetFlags(v, 2)
			b.SetFlags(v, 2)
		case 3:
			a.SetPage(uint32(v), uint32(p))
			b.SetPage(uint32(v), uint32(p))
		case 4:
			a.SetCursor(uint32(v), p, "x")
			b.SetCursor(uint32(v)+1, p, "y")
		case 5:
			c1 := []string{zzsym.Str("col", 1), zzsym.Str("col", 1)}
			a.SetNullColums(c1)
			b.SetNullColums([]string{c1[1], c1[0]})
			lists, before = append(lists, c1), append(before, append([]string(nil), c1...))
		}
	}
	zzsym.Assert(a.Name() == b.Name(), "the name reflects the current content, not values or column order")
	zzsym.Assert(a.Name() == b.Name(), "and stays the same")
	for i := range lists {
		for j := range lists[i] {
			zzsym.Assert(lists[i][j] == before[i][j], "the caller's column list is unchanged")
		}
	}
	if len(lists) > 0 {
		g := a.GetNullColumns()
		w := before[len(before)-1]
		zzsym.Assert(len(g) == len(w) && g[0] == w[0] && g[1] == w[1], "the nulled columns are reported as given")
	}
}

// Two sets of up to 3 nulled columns (1 or 2 bytes each), one a reordering of the other: same name.
func ZZP01_ColumnOrder() {
	n := zzsym.Choose("n", 4)
	var c []string
	for i := 0; i < n; i++ {
		c = append(c, zzsym.Str("col", 1+zzsym.Choose("cl", 2)))
	}
	rev := append([]string(nil), c...)
	if n > 1 {
		i := zzsym.Choose("i", n)
		j := zzsym.Choose("j", n)
		rev[i], rev[j] = rev[j], rev[i]
	}
	a := NewQueryParams("q").SetNullColums(c)
	b := NewQueryParams("q").SetNullColums(rev)
	zzsym.Assert(a.Name() == b.Name(), "the order of nulled columns does not matter")
}

// Large shapes: 20 or 70 flags, up to 64 enums, 12 or 40 nulled columns and every position set, one place of which differs (any values; a column or position
// more; a longer list): equal names only for equal values there. The order of the columns does not matter.
func ZZP01_Many() {
	big := zzsym.Choose("big", 2)
	at := func(n int) int { return []int{0, n / 3, n - 1}[zzsym.Choose("place", 3)] }
	a, b := NewQueryParams("q"), NewQueryParams("q")
	x, y := zzsym.I32("x"), zzsym.I32("y")
	what := zzsym.Choose("what", 5)
	same := x == y
	// flags
	nf := []int{20, 70}[big]
	f, g := make([]int32, nf), make([]int32, nf)
	for i := range f {
		f[i] = int32(i * i * 1000003)
		g[i] = f[i]
	}
	ne := []int{20, 63}[big]
	e, h := make([]int32, ne), make([]int32, ne)
	for i := range e {
		e[i] = int32(i*i - 50)
		h[i] = e[i]
	}
	nc := []int{12, 40}[big]
	var c, d []string
	for i := 0; i < nc; i++ {
		c = append(c, "col"+string(rune('a'+i%26))+string(rune('a'+i/26)))
	}
	switch zzsym.Choose("order", 3) {
	case 0:
		d = append(d, c...)
	case 1:
		d = append(append(d, c[nc/2:]...), c[:nc/2]...)
	default:
		for i := range c {
			d = append(d, c[nc-1-i])
		}
	}
	switch what {
	case 0:
		i := at(nf)
		f[i], g[i] = x, y
	case 1:
		i := at(ne)
		e[i], h[i] = x, y
	case 2:
		g = append(g, y)
		same = false
	case 3:
		i := at(nc)
		d[i] += "x"
		same = false
	default:
		zzsym.Assume(same)
		d = append(d[:0:0], d...)
	}
	for i := range e {
		a.SetEnum(uint32(i), e[i])
		b.SetEnum(uint32(i), h[i])
	}
	a.SetFlags(f...)
	b.SetFlags(g...)
	a.SetNullColums(c)
	b.SetNullColums(d)
	a.Set(63, x)
	b.Set(63, y)
	zzsym.Assert((a.Name() == b.Name()) == same, "equal names exactly for equal shapes")
	v, ok := a.GetEnum(uint32(ne - 1))
	zzsym.Assert(ok && v == e[ne-1] && len(a.GetFlags()) == nf && len(a.GetNullColumns()) == nc, "the content is reported")
	for i := range c {
		zzsym.Assert(a.GetNullColumns()[i] == c[i], "the caller's column list is unchanged")
	}
}
