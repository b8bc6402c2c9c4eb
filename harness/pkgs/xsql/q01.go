package xsql

import (
	"strconv"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzNumbered tells whether the placeholders of a text are $1..$n in order.
func zzNumbered(s string, n int) bool {
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '?' {
			return false
		}
		if s[i] != '$' {
			continue
		}
		k++
		t := strconv.Itoa(k)
		if i+len(t) >= len(s)+0 && i+len(t) > len(s)-1 {
			return false
		}
		if s[i+1:i+1+len(t)] != t {
			return false
		}
		if e := i + 1 + len(t); e < len(s) && s[e] >= '0' && s[e] <= '9' {
			return false
		}
	}
	return k == n
}

// Every sequence of 3 calls (thorough: 4) after a constructor, among the methods that take arguments and
// requesting the text, 0 to 1 arguments of any value per fragment (IN: 1 to 2), PostgreSQL dialect: the
// placeholders are $1..$n in text order and arguments and text are those of the reference model.
func ZZQ01_Calls() {
	n := 3
	if zzsym.Thorough() {
		n = 4
	}
	g := &zzGen{id: "q"}
	q, m := zzNew(Postgres, g, zzsym.Choose("new", 5))
	ops := []int{0, 1, 2, 3, 5, 7, 8, 10, 11, 13, 15}
	for i := 0; i < n; i++ {
		zzOp(q, m, g, ops[zzsym.Choose(g.l("op"), len(ops))])
	}
	zzCheck(q, m, true, "statement")
	zzsym.Assert(zzNumbered(q.String(), len(q.Args())), "placeholders are numbered $1..$n")
}

// The same with sub-queries, unions and WITH among 2 calls (thorough: 3).
func ZZQ01_Nested() {
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	g := &zzGen{id: "q", noesc: true}
	q, m := zzNew(Postgres, g, zzsym.Choose("new", 5))
	ops := []int{0, 2, 7, 10, 11, 17, 18, 19}
	for i := 0; i < n; i++ {
		zzOp(q, m, g, ops[zzsym.Choose(g.l("op"), len(ops))])
	}
	zzCheck(q, m, true, "statement")
	zzsym.Assert(zzNumbered(q.String(), len(q.Args())), "placeholders are numbered $1..$n")
}

// 12 arguments: numbers of two digits.
func ZZQ01_Many() {
	q := Postgres.From("t")
	var want []any
	for i := 0; i < 6; i++ {
		a, b := zzsym.Int("a"+strconv.Itoa(i)), zzsym.Int("b"+strconv.Itoa(i))
		q.Where("a=? or b=?", a, b)
		want = append(want, a, b)
	}
	zzsym.Assert(zzNumbered(q.String(), 12), "placeholders are numbered $1..$12")
	zzsym.Assert(zzArgsEq(q.Args(), want), "arguments in call order")
}

// A long statement: 80 calls in 4 orders, with 0 to 12 arguments each (about 180, of any value).
func ZZQ01_Long() {
	q, m, pg := zzLongNew()
	zzLong(q, m, "", 80, zzSteps[zzsym.Choose("step", 4)])
	zzCheck(q, m, pg, "statement")
	if pg {
		zzsym.Assert(zzNumbered(q.String(), len(q.Args())), "placeholders are numbered $1..$n")
	}
}

// LIMIT or OFFSET set three times, with an expression of 0 or 1 arguments added to it in between and other calls around: the clause keeps its place and its
// expressions, and has the last value.
func ZZQ01_Again() {
	q, m, pg := zzLongNew()
	op := 7 + zzsym.Choose("clause", 2)
	g := &zzGen{id: "a"}
	others := []int{2, 6, 9, 10, 15 - op}
	for i := 0; i < 3; i++ {
		zzOp(q, m, g, op)
		if zzsym.Choose(g.l("expr"), 2) == 1 {
			zzOp(q, m, g, 11)
		}
		if k := zzsym.Choose(g.l("other"), len(others)+1); k < len(others) {
			g.one = true
			zzOp(q, m, g, others[k])
			g.one = false
		}
	}
	zzOp(q, m, g, op)
	zzCheck(q, m, pg, "statement")
}
