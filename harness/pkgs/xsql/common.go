package xsql

import (
	"strconv"
	"strings"

	"github.com/effective-security/xdb/internal/zzsym"
)

// Reference model of a statement: clauses in SQL order, each with its fragments and arguments in call order.

type zzFrag struct {
	sep, text string
	args      []any
}

type zzClause struct {
	pos   int
	nl    bool
	kw    string
	kargs []any // arguments of the keyword text (LIMIT ?, raw clauses)
	frags []zzFrag
}

type zzM struct {
	clauses []zzClause
	cur     int // clause that the last call touched
	nl      bool
	dest    []any
}

// SQL order of the clauses.
const (
	zzStart = iota * 10000
	zzWith
	zzDelete
	zzUpdate
	zzSet
	zzSelect
	zzFrom
	zzWhere
	zzGroupBy
	zzHaving
	zzUnion
	zzOrderBy
	zzLimit
	zzOffset
	zzReturning
)

func (m *zzM) find(pos int) *zzClause {
	for i := range m.clauses {
		if m.clauses[i].pos == pos {
			return &m.clauses[i]
		}
	}
	return nil
}

func (m *zzM) last() int {
	if len(m.clauses) == 0 {
		return -1
	}
	return m.clauses[len(m.clauses)-1].pos
}

// clause returns the clause at pos, added with keyword kw if new.
func (m *zzM) clause(pos int, kw string) (*zzClause, bool) {
	m.cur = pos
	if c := m.find(pos); c != nil {
		return c, false
	}
	i := 0
	for i < len(m.clauses) && m.clauses[i].pos < pos {
		i++
	}
	m.clauses = append(m.clauses, zzClause{})
	copy(m.clauses[i+1:], m.clauses[i:])
	m.clauses[i] = zzClause{pos: pos, kw: kw, nl: m.nl && kw != ""}
	return &m.clauses[i], true
}

func (m *zzM) frag(pos int, kw, sep, text string, args ...any) {
	c, _ := m.clause(pos, kw)
	if len(c.frags) == 0 {
		sep = " "
	}
	c.frags = append(c.frags, zzFrag{sep, text, append([]any(nil), args...)})
}

func (m *zzM) raw(kw string, args ...any) {
	pos := zzStart
	if len(m.clauses) > 0 {
		pos = m.last() + 1
	}
	c, _ := m.clause(pos, kw)
	c.kargs = append([]any(nil), args...)
}

// single sets the argument of LIMIT or OFFSET.
func (m *zzM) single(pos int, kw string, arg any) {
	c, _ := m.clause(pos, kw)
	c.kargs = []any{arg}
}

func (m *zzM) union(all bool, text string, args []any) {
	pos := zzUnion
	if l := m.last(); l >= pos {
		pos = l + 1
	}
	kw := "UNION "
	if all {
		kw = "UNION ALL "
	}
	c, _ := m.clause(pos, kw+text)
	c.kargs = append([]any(nil), args...)
}

// sub appends an embedded query to the clause that the last call touched.
func (m *zzM) sub(prefix, suffix, text string, args []any) {
	sep := ", "
	if m.cur == zzWhere {
		sep = " AND "
	}
	m.frag(m.cur, "", sep, prefix+text+suffix, args...)
}

func (m *zzM) clone() *zzM {
	r := &zzM{cur: m.cur, nl: m.nl, dest: append([]any(nil), m.dest...)}
	for _, c := range m.clauses {
		c.frags = append([]zzFrag(nil), c.frags...)
		c.kargs = append([]any(nil), c.kargs...)
		r.clauses = append(r.clauses, c)
	}
	return r
}

// text is the SQL without placeholder rewriting.
func (m *zzM) text() string {
	s := ""
	for i, c := range m.clauses {
		if i > 0 {
			s += " "
		}
		if c.nl {
			s += "\n"
		}
		s += c.kw
		for _, f := range c.frags {
			s += f.sep + f.text
		}
	}
	return s
}

func (m *zzM) args() []any {
	var r []any
	for _, c := range m.clauses {
		r = append(r, c.kargs...)
		for _, f := range c.frags {
			r = append(r, f.args...)
		}
	}
	return r
}

// zzPg rewrites the placeholders of a text, all bound to arguments.
func zzPg(s string) string {
	r := ""
	n := 1
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s) && s[i+1] == '?':
			r += "?"
			i++
		case s[i] == '?':
			r += "$" + strconv.Itoa(n)
			n++
		default:
			r += string(s[i : i+1])
		}
	}
	return r
}

func zzArgsEq(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		switch x := a[i].(type) {
		case int:
			y, is := b[i].(int)
			if !is {
				return false
			}
			ok = zzsym.And(ok, x == y)
		default:
			if a[i] != b[i] {
				return false
			}
		}
	}
	return ok
}

// zzCheck compares a statement with its model.
func zzCheck(q Builder, m *zzM, pg bool, what string) {
	want := m.text()
	if pg {
		want = zzPg(want)
	}
	zzsym.Assert(q.String() == strings.Trim(want, "\n\r\t "), what+": text")
	zzsym.Assert(zzArgsEq(q.Args(), m.args()), what+": arguments")
	zzsym.Assert(zzArgsEq(q.Dest(), m.dest), what+": scan targets")
}

// zzGen makes the parts of the calls.
type zzGen struct {
	id  string
	n   int
	one bool // every fragment has one argument

	plain bool // inner queries of the 4 plain forms only
	noesc bool // no inner queries with an escaped question mark
}

func (g *zzGen) l(s string) string { return g.id + s + strconv.Itoa(g.n) }

// frag is a fragment text, different from all others, with k placeholders and k arguments of any value.
func (g *zzGen) frag(k int) (string, []any) {
	g.n++
	s := "c" + g.id + strconv.Itoa(g.n)
	var args []any
	for i := 0; i < k; i++ {
		s += "=?"
		args = append(args, zzsym.Int(g.l("a")+string(rune('a'+i))))
	}
	return s, args
}

func (g *zzGen) args() (string, []any) {
	if g.one {
		return g.frag(1)
	}
	return g.frag(zzsym.Choose(g.l("nargs"), 2))
}

const zzOps = 14

// zzOp makes one call on the statement and on its model.
func zzOp(q Builder, m *zzM, g *zzGen, op int) {
	switch op {
	case 0:
		s, a := g.args()
		q.Select(s, a...)
		m.frag(zzSelect, "SELECT", ", ", s, a...)
	case 1:
		s, a := g.args()
		q.From(s, a...)
		m.frag(zzFrom, "FROM", ", ", s, a...)
	case 2:
		s, a := g.args()
		q.Where(s, a...)
		m.frag(zzWhere, "WHERE", " AND ", s, a...)
	case 3:
		// documented to follow a filter
		c := m.find(zzWhere)
		zzsym.Assume(c != nil)
		g.n++
		a := []any{zzsym.Int(g.l("in"))}
		text := "IN (?)"
		if zzsym.Choose(g.l("two"), 2) == 1 {
			a = append(a, zzsym.Int(g.l("in2")))
			text = "IN (?,?)"
		}
		q.In(a...)
		m.frag(zzWhere, "", " ", text, a...)
	case 4:
		s, _ := g.frag(0)
		q.GroupBy(s)
		m.frag(zzGroupBy, "GROUP BY", ", ", s)
	case 5:
		s, a := g.args()
		q.Having(s, a...)
		m.frag(zzHaving, "HAVING", " AND ", s, a...)
	case 6:
		s, _ := g.frag(0)
		q.OrderBy(s, "z")
		m.frag(zzOrderBy, "ORDER BY", ", ", s+", z")
	case 7:
		v := zzsym.Int(g.l("lim"))
		g.n++
		q.Limit(v)
		m.single(zzLimit, "LIMIT ?", v)
	case 8:
		v := zzsym.Int(g.l("off"))
		g.n++
		q.Offset(v)
		m.single(zzOffset, "OFFSET ?", v)
	case 9:
		s, _ := g.frag(0)
		q.Returning(s)
		m.frag(zzReturning, "RETURNING", ", ", s)
	case 10:
		s, a := g.args()
		q.Clause(s, a...)
		m.raw(s, a...)
	case 11:
		s, a := g.args()
		q.Expr(s, a...)
		m.frag(m.cur, "", ", ", s, a...)
	case 12:
		s, _ := g.frag(0)
		j := zzsym.Choose(g.l("join"), 4)
		zzsym.Assume(m.find(zzFrom) != nil)
		switch j {
		case 0:
			q.Join(s, "k")
		case 1:
			q.LeftJoin(s, "k")
		case 2:
			q.RightJoin(s, "k")
		default:
			q.FullJoin(s, "k")
		}
		m.frag(zzFrom, "", " ", []string{"", "LEFT ", "RIGHT ", "FULL "}[j]+"JOIN "+s+" ON (k)")
	case 13:
		s, a := g.args()
		zzsym.Assume(m.find(zzUpdate) != nil)
		q.SetExpr(s, "v", a...)
		m.frag(zzSet, "SET", ", ", s+"=v", a...)
	case 14:
		t := new(int)
		q.To(t)
		m.dest = append(m.dest, t)
	case 15:
		_ = q.String()
		_ = q.Args()
	case 16:
		m.nl = !m.nl
		q.UseNewLines(m.nl)
	case 17:
		sub, sm := zzSub(g)
		q.SubQuery("p(", ")s", sub)
		m.sub("p(", ")s", sm.sql(), sm.args())
	case 18:
		sub, sm := zzSub(g)
		all := zzsym.Choose(g.l("all"), 2) == 1
		q.Union(all, sub)
		m.union(all, sm.sql(), sm.args())
	case 19:
		sub, sm := zzSub(g)
		name := "w" + strconv.Itoa(g.n)
		q.With(name, sub)
		m.clause(zzWith, "WITH")
		m.sub(name+" AS (", ")", sm.sql(), sm.args())
	}
}

func (m *zzM) sql() string { return strings.Trim(m.text(), "\n\r\t ") }

// zzSub makes an inner query of any dialect, with two clauses added in either order, with or without a name,
// arguments and an escaped question mark, its text already requested or not.
func zzSub(g *zzGen) (Builder, *zzM) {
	g.n++
	forms := 11
	if g.noesc {
		forms = 10
	}
	if g.plain {
		forms = 4
	}
	how := zzsym.Choose(g.l("sub"), forms)
	d := []SQLDialect{NoDialect, Postgres}[how&1]
	if how >= 8 {
		d = Postgres
	}
	m := &zzM{nl: true}
	s, a := g.frag(1)
	q := d.From("i")
	m.frag(zzFrom, "FROM", ", ", "i")
	switch {
	case how == 10:
		q.Select("j\\?")
		m.frag(zzSelect, "SELECT", ", ", "j\\?")
	case how&2 == 0:
		q.Where(s, a...)
		m.frag(zzWhere, "WHERE", " AND ", s, a...)
		q.Select("j")
		m.frag(zzSelect, "SELECT", ", ", "j")
	default:
		q.Select(s, a...)
		m.frag(zzSelect, "SELECT", ", ", s, a...)
	}
	if how >= 8 {
		q.SetName("named" + g.id + strconv.Itoa(g.n))
	}
	if how >= 4 {
		_ = q.String()
	}
	return q, m
}

// zzNew starts a statement in one of the ways there are.
func zzNew(d SQLDialect, g *zzGen, kind int) (Builder, *zzM) {
	m := &zzM{nl: true}
	s, _ := g.frag(0)
	switch kind {
	case 0:
		s, a := g.args()
		m.frag(zzSelect, "SELECT", ", ", s, a...)
		return d.Select(s, a...), m
	case 1:
		s, a := g.args()
		m.frag(zzFrom, "FROM", ", ", s, a...)
		return d.From(s, a...), m
	case 2:
		m.frag(zzUpdate, "UPDATE", ", ", s)
		return d.Update(s), m
	case 3:
		m.frag(zzDelete, "DELETE FROM", ", ", s)
		return d.DeleteFrom(s), m
	default:
		s, a := g.args()
		c, _ := m.clause(zzSelect, s)
		c.kargs = a
		return d.New(s, a...), m
	}
}

// zzLong makes n calls of varying methods, with 0 to 12 arguments of any value each; step varies their order.
func zzLong(q Builder, m *zzM, id string, n, step int) {
	for i := 0; i < n; i++ {
		s := "c" + id + strconv.Itoa(i)
		var a []any
		for k := []int{0, 1, 2, 1, 12, 1, 3}[(i+step)%7]; k > 0; k-- {
			s += "=?"
			a = append(a, zzsym.Int("arg"))
		}
		switch (i*step + i/5) % 11 {
		case 0:
			q.Select(s, a...)
			m.frag(zzSelect, "SELECT", ", ", s, a...)
		case 1:
			q.From(s, a...)
			m.frag(zzFrom, "FROM", ", ", s, a...)
		case 2, 3:
			q.Where(s, a...)
			m.frag(zzWhere, "WHERE", " AND ", s, a...)
		case 4:
			q.GroupBy("g" + id + strconv.Itoa(i))
			m.frag(zzGroupBy, "GROUP BY", ", ", "g"+id+strconv.Itoa(i))
		case 5:
			q.Having(s, a...)
			m.frag(zzHaving, "HAVING", " AND ", s, a...)
		case 6:
			v := zzsym.Int("limit")
			q.Limit(v)
			m.single(zzLimit, "LIMIT ?", v)
		case 7:
			q.Clause(s, a...)
			m.raw(s, a...)
		case 8:
			q.Expr(s, a...)
			m.frag(m.cur, "", ", ", s, a...)
		case 9:
			t := new(int)
			q.To(t)
			m.dest = append(m.dest, t)
			q.OrderBy("o" + id + strconv.Itoa(i))
			m.frag(zzOrderBy, "ORDER BY", ", ", "o"+id+strconv.Itoa(i))
		case 10:
			v := zzsym.Int("offset")
			q.Offset(v)
			m.single(zzOffset, "OFFSET ?", v)
		}
	}
}

// zzLongNew starts a statement for zzLong, in either dialect.
func zzLongNew() (Builder, *zzM, bool) {
	m := &zzM{nl: true}
	m.frag(zzSelect, "SELECT", ", ", "1")
	if zzsym.Choose("dialect", 2) == 1 {
		return Postgres.Select("1"), m, true
	}
	return NoDialect.Select("1"), m, false
}

var zzSteps = []int{1, 3, 5, 8}
