package xsql

import "github.com/effective-security/xdb/internal/zzsym"

// zzDirty leaves a recycled statement of arbitrary content in the pool.
func zzDirty() {
	q := NoDialect.From("old").Where("o=?", 1).Limit(2).To(new(int)).UseNewLines(false)
	_ = q.String()
	q.Close()
}

// A statement made by a constructor and one call (thorough: 2), with its text requested or not, newlines on or
// off, cloned into a fresh or a recycled statement object; then 2 calls (thorough: 2), each on the original or
// on the clone; then one of them may be closed: both equal their reference models.
func ZZQ04_Clone() {
	g := &zzGen{id: "q", one: true}
	if zzsym.Choose("dirty", 2) == 1 {
		zzDirty()
	}
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	q, m := zzNew(d, g, []int{0, 1, 2, 4}[zzsym.Choose("new", 4)])
	ops := []int{0, 1, 2, 6, 7, 10, 11, 14, 16}
	n := 1
	if zzsym.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		zzOp(q, m, g, ops[zzsym.Choose(g.l("op"), len(ops))])
		g.n++
	}
	if zzsym.Choose("read", 2) == 1 {
		_ = q.String()
	}
	c := q.Clone()
	mc := m.clone()
	for i := 0; i < 2; i++ {
		g.n++
		k := zzsym.Choose(g.l("op"), 2*len(ops))
		if k < len(ops) {
			zzOp(q, m, g, ops[k])
		} else {
			zzOp(c, mc, g, ops[k-len(ops)])
		}
	}
	switch zzsym.Choose("close", 3) {
	case 0:
		zzCheck(q, m, pg, "original")
		zzCheck(c, mc, pg, "clone")
	case 1:
		q.Close()
		NoDialect.From("new").Where("n=?", 1)
		zzCheck(c, mc, pg, "clone after closing the original")
	default:
		c.Close()
		NoDialect.From("new").Where("n=?", 1)
		zzCheck(q, m, pg, "original after closing the clone")
	}
}

// A clone taken right away yields the same text, arguments and targets, and nesting a query into one leaves
// the other alone.
func ZZQ04_Nested() {
	g := &zzGen{id: "q"}
	q, m := zzNew(NoDialect, g, zzsym.Choose("new", 5))
	zzOp(q, m, g, 2)
	c := q.Clone()
	mc := m.clone()
	g.n++
	zzCheck(c, mc, false, "clone")
	op := 17 + zzsym.Choose("op", 3)
	if zzsym.Choose("which", 2) == 0 {
		zzOp(q, m, g, op)
	} else {
		zzOp(c, mc, g, op)
	}
	zzCheck(q, m, false, "original")
	zzCheck(c, mc, false, "clone")
}

// A statement of 7 to 13 clauses (more than a new statement object has room for) cloned into a fresh or a recycled
// statement object; then 2 calls (thorough: 3), each on the original or on the clone: both equal their models.
func ZZQ04_Long() {
	g := &zzGen{id: "q", one: true}
	switch zzsym.Choose("dirty", 3) {
	case 1:
		zzDirty()
	case 2:
		o, om := zzNew(NoDialect, g, 0)
		for i := 0; i < 12; i++ {
			zzOp(o, om, g, 10)
		}
		o.Close()
	}
	q, m := zzNew(NoDialect, g, 0)
	for _, op := range []int{1, 2, 4, 5, 6, 7} {
		zzOp(q, m, g, op)
	}
	n := zzsym.Choose("raw", 7)
	for i := 0; i < n; i++ {
		zzOp(q, m, g, 10)
	}
	if zzsym.Choose("back", 2) == 1 {
		zzOp(q, m, g, 2)
	}
	c := q.Clone()
	mc := m.clone()
	ops := []int{0, 2, 7, 10, 11}
	k := 2
	if zzsym.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		g.n++
		k := zzsym.Choose(g.l("op"), 2*len(ops))
		if k < len(ops) {
			zzOp(q, m, g, ops[k])
		} else {
			zzOp(c, mc, g, ops[k-len(ops)])
		}
	}
	zzCheck(q, m, false, "original")
	zzCheck(c, mc, false, "clone")
}

// Statements of any fragment texts (1 byte, thorough: 2, without a blank at either end), either dialect, cloned
// with the text requested or not, then one more fragment on either.
func ZZQ04_Texts() {
	n := 1
	if zzsym.Thorough() {
		n = 2
	}
	str := func(l string) string {
		s := zzsym.Str(l, n)
		zzsym.Assume(zzsym.And(s[0] > ' ', s[n-1] > ' '))
		return s
	}
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	m := &zzM{nl: true}
	s, w, x := str("select"), str("where"), str("next")
	q := d.Select(s, 1).Where(w, 2)
	m.frag(zzSelect, "SELECT", ", ", s, 1)
	m.frag(zzWhere, "WHERE", " AND ", w, 2)
	if zzsym.Choose("read", 2) == 1 {
		_ = q.String()
	}
	c, mc := q.Clone(), m.clone()
	if zzsym.Choose("which", 2) == 1 {
		q.Select(x, 3)
		m.frag(zzSelect, "SELECT", ", ", x, 3)
	} else {
		c.Where(x, 3)
		mc.frag(zzWhere, "WHERE", " AND ", x, 3)
	}
	zzCheck(q, m, pg, "original")
	zzCheck(c, mc, pg, "clone")
}

// A long statement (40 calls) cloned into a fresh or a recycled object; then 20 calls on each of the two, alternating: both equal their models.
func ZZQ04_Hundred() {
	if zzsym.Choose("dirty", 2) == 1 {
		o := NoDialect.Select("1")
		zzLong(o, &zzM{}, "o", 20, 1)
		o.Close()
	}
	q, m, pg := zzLongNew()
	step := zzSteps[zzsym.Choose("step", 4)]
	zzLong(q, m, "", 40, step)
	if zzsym.Choose("read", 2) == 1 {
		_ = q.String()
	}
	c, mc := q.Clone(), m.clone()
	for i := 0; i < 5; i++ {
		zzLong(q, m, "q"+string(rune('a'+i)), 4, step+i)
		zzLong(c, mc, "c"+string(rune('a'+i)), 4, step+i+1)
	}
	zzCheck(q, m, pg, "original")
	zzCheck(c, mc, pg, "clone")
}
