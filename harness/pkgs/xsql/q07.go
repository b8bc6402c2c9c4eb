package xsql

import (
	"github.com/effective-security/xdb/internal/zzsym"
)

// A SELECT with any 5 calls (thorough: 6) among LIMIT, OFFSET, paging, a filter with an argument, a raw clause
// with an argument and RETURNING; all values any int, page numbers and sizes any int with a product below 2^62.
func ZZQ07_Calls() {
	n := 5
	if zzsym.Thorough() {
		n = 6
	}
	g := &zzGen{id: "q", one: true}
	d, pg := NoDialect, false
	if zzsym.Choose("dialect", 2) == 1 {
		d, pg = Postgres, true
	}
	m := &zzM{nl: true}
	q := d.From("t")
	m.frag(zzFrom, "FROM", ", ", "t")
	off := 0
	hasOff := false
	for i := 0; i < n; i++ {
		g.n++
		switch zzsym.Choose(g.l("op"), 6) {
		case 0:
			v := zzsym.Int(g.l("lim"))
			q.Limit(v)
			m.single(zzLimit, "LIMIT ?", v)
		case 1:
			off, hasOff = zzsym.Int(g.l("off")), true
			q.Offset(off)
			m.single(zzOffset, "OFFSET ?", off)
		case 2:
			page, size := zzsym.IntRange(g.l("page"), -1<<30, 1<<31), zzsym.IntRange(g.l("size"), -1<<30, 1<<31)
			q.Paginate(page, size)
			if page < 1 {
				page = 1
			}
			if size < 1 {
				size = 1
			}
			m.single(zzLimit, "LIMIT ?", size)
			off = (page - 1) * size
			if page > 1 || hasOff {
				m.single(zzOffset, "OFFSET ?", off)
				hasOff = true
			}
		case 3:
			s, a := g.args()
			q.Where(s, a...)
			m.frag(zzWhere, "WHERE", " AND ", s, a...)
		case 4:
			s, a := g.args()
			q.Clause(s, a...)
			m.raw(s, a...)
		default:
			s, _ := g.frag(0)
			q.Returning(s)
			m.frag(zzReturning, "RETURNING", ", ", s)
		}
	}
	zzCheck(q, m, pg, "statement")
}

// Paging by any page number and size (product below 2^62), on a statement without offset.
func ZZQ07_Paginate() {
	page, size := zzsym.IntRange("page", -1<<30, 1<<31), zzsym.IntRange("size", -1<<30, 1<<31)
	q := NoDialect.From("t")
	q.Paginate(page, size)
	args := q.Args()
	p, s := page, size
	if p < 1 {
		p = 1
	}
	if s < 1 {
		s = 1
	}
	zzsym.Assert(len(args) >= 1 && args[0].(int) == s, "limit is the page size")
	if len(args) == 1 {
		zzsym.Assert(zzsym.And(q.String() == "FROM t \nLIMIT ?", (p-1)*s == 0), "without offset only for the first page")
	} else {
		zzsym.Assert(len(args) == 2 && q.String() == "FROM t \nLIMIT ? \nOFFSET ?", "limit and offset")
		zzsym.Assert(args[1].(int) == (p-1)*s, "offset is the number of rows of the pages before")
	}
}

// LIMIT, OFFSET and paging set 9 times between the 60 calls of a long statement.
func ZZQ07_Long() {
	q, m, pg := zzLongNew()
	step := zzSteps[zzsym.Choose("step", 4)]
	for i := 0; i < 9; i++ {
		zzLong(q, m, string(rune('a'+i)), 7, step)
		l, o := zzsym.Int("last limit"), zzsym.Int("last offset")
		if i%2 == 0 {
			q.Limit(l).Offset(o)
		} else {
			p, s := 2+i, 10*i
			q.Paginate(p, s)
			l, o = s, (p-1)*s
		}
		m.single(zzLimit, "LIMIT ?", l)
		m.single(zzOffset, "OFFSET ?", o)
		zzCheck(q, m, pg, "statement")
	}
}
