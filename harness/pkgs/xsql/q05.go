package xsql

import (
	"strconv"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzFree makes a statement from SELECT and up to n calls, with fragments of any text of the given lengths
// (without leading or trailing space).
func zzFree(d SQLDialect, g *zzGen, n, max int) (Builder, *zzM) {
	frag := func() (string, []any) {
		g.n++
		s := zzsym.Str(g.l("f"), 1+(max-1)*zzsym.Choose(g.l("len"), 2))
		for i := 0; i < len(s); i++ {
			if i == 0 || i == len(s)-1 {
				zzsym.Assume(zzsym.And(s[i] > ' ', s[i] < 0x7f))
			}
		}
		return s, nil
	}
	m := &zzM{nl: true}
	s, _ := frag()
	q := d.Select(s)
	m.frag(zzSelect, "SELECT", ", ", s)
	for i := 0; i < n; i++ {
		s, _ := frag()
		switch zzsym.Choose(g.l("op"), 4) {
		case 0:
			q.Select(s)
			m.frag(zzSelect, "SELECT", ", ", s)
		case 1:
			q.From(s)
			m.frag(zzFrom, "FROM", ", ", s)
		case 2:
			q.OrderBy(s)
			m.frag(zzOrderBy, "ORDER BY", ", ", s)
		default:
			q.Clause(s)
			m.raw(s)
		}
	}
	return q, m
}

// Two statements of the default dialect built one after the other, each SELECT and 2 calls (thorough: 3) among
// SELECT, FROM, ORDER BY and raw clauses, with any fragment texts of length 1 or 4: the second statement is
// what it would be on its own, whatever the first was.
func ZZQ05_Texts() {
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	a, am := zzFree(NoDialect, &zzGen{id: "a"}, n, 4)
	zzCheck(a, am, false, "first")
	if zzsym.Choose("close", 2) == 1 {
		a.Close()
	}
	b, bm := zzFree(NoDialect, &zzGen{id: "b"}, 2, 4)
	zzCheck(b, bm, false, "second")
}

// Two PostgreSQL statements of 2 calls (thorough: 3) with the same fragments, in the same or in another order, with or without
// arguments, the first still open or closed: the second is what it would be on its own.
func ZZQ05_Args() {
	ops := func(g *zzGen, n int) (Builder, *zzM) {
		m := &zzM{nl: true}
		arg := func() []any {
			g.n++
			if zzsym.Choose(g.l("nargs"), 2) == 1 {
				return []any{zzsym.Int(g.l("a"))}
			}
			return nil
		}
		m.frag(zzSelect, "SELECT", ", ", "s")
		q := Postgres.Select("s")
		for i := 0; i < n; i++ {
			g.n++
			switch zzsym.Choose(g.l("op"), 4) {
			case 0:
				a := arg()
				q.Where("w\\?", a...)
				m.frag(zzWhere, "WHERE", " AND ", "w\\?", a...)
			case 1:
				a := arg()
				q.Having("h\\?", a...)
				m.frag(zzHaving, "HAVING", " AND ", "h\\?", a...)
			case 2:
				a := arg()
				q.Expr("s", a...)
				m.frag(m.cur, "", ", ", "s", a...)
			default:
				v := zzsym.Int(g.l("lim"))
				q.Limit(v)
				m.single(zzLimit, "LIMIT ?", v)
			}
		}
		return q, m
	}
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	a, am := ops(&zzGen{id: "a"}, n)
	zzCheck(a, am, true, "first")
	if zzsym.Choose("close", 2) == 1 {
		a.Close()
	}
	b, bm := ops(&zzGen{id: "b"}, n)
	zzCheck(b, bm, true, "second")
}

// A statement object that is recycled after being closed starts empty: an old statement of any constructor and
// one call (with targets, arguments and its text requested or not) is closed, then a new one is built with
// any constructor and two calls.
func ZZQ05_Recycled() {
	og := &zzGen{id: "o", one: true}
	old, _ := zzNew(NoDialect, og, zzsym.Choose("old", 5))
	om := &zzM{nl: true}
	om.frag(zzFrom, "FROM", "", "")
	switch zzsym.Choose("call", 6) {
	case 0:
		old.To(new(int), new(int))
	case 1:
		old.UseNewLines(false)
	case 2:
		old.Limit(zzsym.Int("l")).Offset(zzsym.Int("o"))
	case 3:
		old.SetName("n")
		_ = old.String()
	case 4:
		_ = old.String()
		old.Where("x=?", zzsym.Int("x"))
	default:
		_ = old.Clone()
	}
	old.Close()
	g := &zzGen{id: "q", one: true}
	q, m := zzNew(NoDialect, g, zzsym.Choose("new", 5))
	for i := 0; i < 2; i++ {
		g.n++
		zzOp(q, m, g, zzsym.Choose(g.l("op"), zzOps+1))
	}
	zzCheck(q, m, false, "new statement")
	zzsym.Assert(q.Name() == "", "a new statement has no name")
}

// Two statements under construction at the same time, calls interleaved in any way (2 each), do not affect
// each other.
func ZZQ05_Interleaved() {
	ga, gb := &zzGen{id: "a", one: true}, &zzGen{id: "b", one: true}
	a, am := zzNew(NoDialect, ga, zzsym.Choose("newa", 5))
	b, bm := zzNew(NoDialect, gb, zzsym.Choose("newb", 2))
	ops := []int{0, 2, 7, 11, 12, 14}
	for i := 0; i < 3; i++ {
		ga.n++
		k := zzsym.Choose(ga.l("op"), 2*len(ops))
		if k < len(ops) {
			zzOp(a, am, ga, ops[k])
		} else {
			gb.n++
			zzOp(b, bm, gb, ops[k-len(ops)])
		}
	}
	zzCheck(a, am, false, "first")
	zzCheck(b, bm, false, "second")
}

// Two goroutines, each building, reading and closing two statements one after the other (each with one of several calls, arguments and targets; equal or
// different texts, default or PostgreSQL dialect, or the text of a named statement from the cache), every interleaving with up to 2
// preemptions (thorough: 3) at synchronisation points; a pool gives back the object it got last; unsynchronised accesses are
// violations.
func ZZQ05_Concurrent() {
	zzsym.Races()
	p := 2
	if zzsym.Thorough() {
		p = 3
	}
	zzsym.Concurrent(p)
	d, pg := NoDialect, false
	if zzsym.Choose("pg", 2) == 1 {
		d, pg = Postgres, true
	}
	work := func(id string) {
		for i := 0; i < 2; i++ {
			g := &zzGen{id: id + strconv.Itoa(i)}
			switch k := zzsym.Choose(g.l("kind"), 4); k {
			case 3:
				s, n := d.GetOrCreateQuery("n", func(string) Builder { return d.From("t").Select("a") })
				zzsym.Assert(s == "SELECT a \nFROM t" && n == "n", "the text of a named statement")
			default:
				x := new(int)
				m := &zzM{nl: true, dest: []any{x}}
				q := d.Select("s").To(x)
				m.frag(zzSelect, "SELECT", ", ", "s")
				switch k {
				case 0:
					q.Where("w=?", id)
					m.frag(zzWhere, "WHERE", " AND ", "w=?", id)
				case 1:
					q.Where("w=?", id)
					m.frag(zzWhere, "WHERE", " AND ", "w=?", id)
					q.Limit(i)
					m.single(zzLimit, "LIMIT ?", i)
				default:
					q.Having(id+"=?", i)
					m.frag(zzHaving, "HAVING", " AND ", id+"=?", i)
				}
				zzCheck(q, m, pg, "statement")
				q.Close()
			}
		}
	}
	done := make(chan bool)
	go func() { work("a"); done <- true }()
	work("b")
	<-done
}

// Long statements (60 calls, about 130 arguments) are built and closed, then another one, short or long, of the same or the other dialect, is built from the
// recycled object: it is what it would be on its own.
func ZZQ05_Long() {
	step := zzSteps[zzsym.Choose("step", 4)]
	for i := 0; i < 3; i++ {
		q, m := NoDialect.Select("1"), &zzM{nl: true}
		m.frag(zzSelect, "SELECT", ", ", "1")
		zzLong(q, m, string(rune('a'+i)), 60, step)
		zzCheck(q, m, false, "earlier statement")
		q.Close()
	}
	q, m, pg := zzLongNew()
	zzLong(q, m, "a", []int{2, 60}[zzsym.Choose("long", 2)], step)
	zzCheck(q, m, pg, "later statement")
}
