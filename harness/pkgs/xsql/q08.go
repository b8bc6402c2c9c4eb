package xsql

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// Statements of either dialect with 2 calls before and 1 call after (thorough: 2) embedding a sub-query, a
// UNION or a WITH, among calls with arguments; the inner query of either dialect, with its text requested or
// not, its clauses added in or out of order, with an argument.
func ZZQ08_Nested() {
	n := 1
	if zzsym.Thorough() {
		n = 2
	}
	g := &zzGen{id: "q", one: true}
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	q, m := zzNew(d, g, []int{0, 2, 4}[zzsym.Choose("new", 3)])
	ops := []int{0, 2, 7, 10, 11, 17, 18, 19}
	for i := 0; i < 2+n; i++ {
		g.n++
		g.plain = i != 1
		k := zzsym.Choose(g.l("op"), len(ops))
		if i == 1 {
			zzsym.Assume(k >= 5)
		}
		zzOp(q, m, g, ops[k])
	}
	zzCheck(q, m, pg, "statement")
}

// An inner query that embeds another one, three deep, with arguments at each level and any prefix and suffix
// texts (possibly empty).
func ZZQ08_Deep() {
	pre := []string{"", "EXISTS ("}[zzsym.Choose("prefix", 2)]
	suf := []string{"", ")"}[zzsym.Choose("suffix", 2)]
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	i1, i2 := d, []SQLDialect{NoDialect, Postgres}[zzsym.Choose("inner", 2)]
	a, b, c, e := zzsym.Int("a"), zzsym.Int("b"), zzsym.Int("c"), zzsym.Int("e")
	q3 := i2.From("c").Where("c=?", c)
	q2 := i1.From("b").Where("b=?", b)
	q2.SubQuery(pre, suf, q3)
	q1 := d.From("a").Limit(e)
	var want string
	args := []any{a, b, c, e}
	if zzsym.Choose("where", 2) == 0 {
		q1.Where("a=?", a)
		want = "FROM a \nWHERE a=? AND " + pre + "FROM b \nWHERE b=? AND " + pre + "FROM c \nWHERE c=?" + suf + suf + " \nLIMIT ?"
	} else {
		q1.Clause("x = ?", a)
		args = []any{e, a, b, c}
		want = "FROM a \nLIMIT ? \nx = ? " + pre + "FROM b \nWHERE b=? AND " + pre + "FROM c \nWHERE c=?" + suf + suf
	}
	q1.SubQuery(pre, suf, q2)
	if pg {
		want = zzPg(want)
	}
	zzsym.Assert(q1.String() == want, "text at the place of embedding")
	zzsym.Assert(zzArgsEq(q1.Args(), args), "arguments at the place of embedding")
}

// Two queries embedded one after the other into any clause of a statement that also has a filter (made current
// by a call for it, with or without an expression): each clause keeps its own separator.
func ZZQ08_Separator() {
	g := &zzGen{id: "q", one: true}
	q, m := zzNew(NoDialect, g, zzsym.Choose("new", 5))
	if zzsym.Choose("where", 2) == 1 {
		zzOp(q, m, g, 2)
	}
	ops := []int{0, 1, 2, 4, 6, 9, 10}
	g.n++
	zzOp(q, m, g, ops[zzsym.Choose("op", len(ops))])
	for i := 0; i < 2; i++ {
		g.n++
		s, a := g.frag(1)
		q.SubQuery("p(", ")s", Postgres.From("i").Where(s, a...))
		m.sub("p(", ")s", "FROM i \nWHERE "+s, a)
	}
	zzCheck(q, m, false, "statement")
}

// Any texts around and inside an embedded query (prefix, suffix and fragments of 1 byte, thorough: 2, of any
// value, without a blank at either end), either dialect outside and inside, the inner text requested or not.
func ZZQ08_Texts() {
	n := 1
	if zzsym.Thorough() {
		n = 2
	}
	str := func(l string) string {
		s := zzsym.Str(l, n)
		zzsym.Assume(zzsym.And(s[0] > ' ', s[n-1] > ' '))
		return s
	}
	pre, suf, in, out := str("prefix"), str("suffix"), str("inner"), str("outer")
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	di := []SQLDialect{NoDialect, Postgres}[zzsym.Choose("inner dialect", 2)]
	a, b := zzsym.Int("a"), zzsym.Int("b")
	m := &zzM{nl: true}
	q := d.Update("t").Where(out, a)
	m.frag(zzUpdate, "UPDATE", ", ", "t")
	m.frag(zzWhere, "WHERE", " AND ", out, a)
	i := di.Update("i").Where(in, b)
	if zzsym.Choose("read", 2) == 1 {
		_ = i.String()
	}
	if zzsym.Choose("union", 2) == 1 {
		q.Union(true, i)
		m.union(true, "UPDATE i \nWHERE "+in, []any{b})
	} else {
		q.SubQuery(pre, suf, i)
		m.sub(pre, suf, "UPDATE i \nWHERE "+in, []any{b})
	}
	zzCheck(q, m, pg, "statement")
}

// Queries nested 10 deep, each level with 12 arguments before and 1 after the inner query and 3 unions of long queries (20 calls each).
func ZZQ08_Long() {
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	step := zzSteps[zzsym.Choose("step", 4)]
	build := func(d SQLDialect, id string, n int) (Builder, *zzM) {
		m := &zzM{nl: true}
		m.frag(zzSelect, "SELECT", ", ", "1")
		q := d.Select("1")
		zzLong(q, m, id, n, step)
		return q, m
	}
	q, m := build(d, "z", 3)
	for i := 0; i < 10; i++ {
		var o Builder
		var om *zzM
		id := string(rune('a' + i))
		if i%2 == 0 {
			o, om = build(d, id, 14)
		} else {
			o, om = build(Postgres, id, 14)
		}
		if i == 9 {
			o, om = build(d, id, 14)
		}
		a := zzsym.Int("outer")
		o.Where("w=?", a)
		om.frag(zzWhere, "WHERE", " AND ", "w=?", a)
		o.SubQuery("IN (", ")", q)
		om.sub("IN (", ")", m.sql(), m.args())
		o.Where("v=?", a)
		om.frag(zzWhere, "WHERE", " AND ", "v=?", a)
		q, m = o, om
	}
	for i := 0; i < 3; i++ {
		u, um := build([]SQLDialect{NoDialect, Postgres}[i%2], "u"+string(rune('a'+i)), 20)
		q.Union(i%2 == 0, u)
		m.union(i%2 == 0, um.sql(), um.args())
	}
	zzCheck(q, m, pg, "statement")
}
