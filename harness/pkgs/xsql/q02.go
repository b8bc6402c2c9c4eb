package xsql

import "github.com/effective-security/xdb/internal/zzsym"

// Every sequence of 4 calls (thorough: 5) from the statement constructors and the builder methods SELECT,
// FROM, JOIN (4 kinds), WHERE, IN, GROUP BY, HAVING, ORDER BY, LIMIT, OFFSET, RETURNING, SET, raw clauses and
// expressions, each fragment with 0 or 1 arguments of any value, default dialect: the text and the arguments
// are those of the reference model. (IN and SET follow a WHERE and an UPDATE; JOIN follows a FROM.)
func ZZQ02_Calls() {
	n := 3
	if zzsym.Thorough() {
		n = 4
	}
	g := &zzGen{id: "q"}
	q, m := zzNew(NoDialect, g, zzsym.Choose("new", 5))
	for i := 0; i < n; i++ {
		zzOp(q, m, g, zzsym.Choose(g.l("op"), zzOps))
	}
	zzCheck(q, m, false, "statement")
}

// 3 calls (thorough: 4) with fragments of 1 to 2 arbitrary bytes each, line breaks switched on or off between
// the calls, default dialect: every byte of every fragment is in the text (outer white space is trimmed).
func ZZQ02_Texts() {
	n := 3
	if zzsym.Thorough() {
		n = 4
	}
	m := &zzM{nl: true}
	var q Builder
	for i := 0; i < n; i++ {
		l := string(rune('a' + i))
		s := zzsym.Str("s"+l, 1+zzsym.Choose("len"+l, 2))
		if i == 0 {
			if zzsym.Choose("new", 2) == 0 {
				q = NoDialect.New(s)
				m.clause(zzSelect, s)
			} else {
				q = NoDialect.Select(s)
				m.frag(zzSelect, "SELECT", ", ", s)
			}
			continue
		}
		if zzsym.Choose("nl"+l, 2) == 1 {
			m.nl = !m.nl
			q.UseNewLines(m.nl)
		}
		switch zzsym.Choose("op"+l, 5) {
		case 0:
			q.Select(s)
			m.frag(zzSelect, "SELECT", ", ", s)
		case 1:
			q.From(s)
			m.frag(zzFrom, "FROM", ", ", s)
		case 2:
			zzsym.Assume(m.find(zzFrom) != nil)
			q.LeftJoin("t", s)
			m.frag(zzFrom, "", " ", "LEFT JOIN t ON ("+s+")")
		case 3:
			q.Clause(s)
			m.raw(s)
		default:
			q.Returning(s)
			m.frag(zzReturning, "RETURNING", ", ", s)
		}
	}
	zzCheck(q, m, false, "statement")
}

// Up to 40 raw clauses in a row after a SELECT, then one more clause of each kind and a raw clause.
func ZZQ02_ManyClauses() {
	g := &zzGen{id: "q", one: true}
	m := &zzM{nl: true}
	q := NoDialect.Select("s")
	m.frag(zzSelect, "SELECT", ", ", "s")
	n := zzsym.Choose("n", 41)
	for i := 0; i < n; i++ {
		q.Clause("r")
		m.raw("r")
	}
	zzOp(q, m, g, zzsym.Choose("op", zzOps))
	q.Clause("e")
	m.raw("e")
	zzCheck(q, m, false, "statement")
}

// The package-level constructors use the default dialect, whichever it is set to, with its line break option,
// for any byte but ? in a fragment.
func ZZQ02_Default() {
	d := []SQLDialect{NoDialect, Postgres, SQLServer}[zzsym.Choose("dialect", 3)]
	SetDialect(d)
	nl := " "
	if zzsym.Choose("nl", 2) == 0 {
		UseNewLines(false)
	} else {
		nl = " \n"
	}
	x := zzsym.Str("s", 1)
	zzsym.Assume(x[0] != '?')
	s := "c" + x + "d"
	var q Builder
	var want string
	switch zzsym.Choose("how", 7) {
	case 0:
		q, want = New(s).Clause("x"), s+nl+"x"
	case 1:
		q, want = From(s).Where("x"), "FROM "+s+nl+"WHERE x"
	case 2:
		q, want = Select(s).From("x"), "SELECT "+s+nl+"FROM x"
	case 3:
		q, want = Update(s).Set("x", 1), "UPDATE "+s+nl+"SET x=?"
	case 4:
		q, want = DeleteFrom(s).Where("x"), "DELETE FROM "+s+nl+"WHERE x"
	case 5:
		q, want = With("w", Select(s)).Select("x"), "WITH w AS (SELECT "+s+")"+nl+"SELECT x"
	default:
		q, want = InsertInto(s).Set("x", 1), "INSERT INTO "+s+nl+"( x"+nl+") VALUES ( ?"+nl+")"
	}
	if d == Postgres {
		want = zzPg(want)
	}
	zzsym.Assert(q.String() == want, "statement of the default dialect")
	UseNewLines(true)
	SetDialect(NoDialect)
}

// Binding a structure selects its tagged fields in order, with embedded structures in place, and reads each
// column into its own field.
func ZZQ02_Bind() {
	type Emb struct {
		C int `db:"c,pk"`
		D int
	}
	type Rec struct {
		A int `db:"a"`
		Emb
		B string `db:"b,omitempty"`
	}
	var r Rec
	q := NoDialect.From("t")
	if zzsym.Choose("before", 2) == 1 {
		q.Select("z").To(new(int))
	}
	n := len(q.Dest())
	q.Bind(&r)
	pre := ""
	if n == 1 {
		pre = "z, "
	}
	zzsym.Assert(q.String() == "SELECT "+pre+"a, c, b \nFROM t", "columns of the fields in order")
	d := q.Dest()[n:]
	zzsym.Assert(len(d) == 3 && d[0] == any(&r.A) && d[1] == any(&r.C) && d[2] == any(&r.B), "each into its field")
}

// A long statement: 80 calls in 4 orders, its text requested after every 10 of them.
func ZZQ02_Long() {
	q, m, pg := zzLongNew()
	step := zzSteps[zzsym.Choose("step", 4)]
	for i := 0; i < 8; i++ {
		zzLong(q, m, string(rune('a'+i)), 10, step)
		zzCheck(q, m, pg, "statement")
	}
}
