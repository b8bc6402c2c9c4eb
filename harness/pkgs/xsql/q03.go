package xsql

import (
	"strconv"
	"strings"

	"github.com/effective-security/xdb/internal/zzsym"
)

func zzTrim(s string) string { return strings.Trim(s, "\n\r\t ") }

// One fragment of up to 4 arbitrary bytes (thorough: 5) binding 1 or 2 arguments, in the middle of a
// PostgreSQL statement: every ? becomes the next $number, every \? a plain ?, nothing else changes.
func ZZQ03_Fragment() {
	max := 4
	if zzsym.Thorough() {
		max = 5
	}
	s := zzsym.Str("s", 1+zzsym.Choose("len", max))
	args := []any{1, 2}[:1+zzsym.Choose("nargs", 2)]
	q := Postgres.From("t").Where("a=?", 0).Having(s, args...)
	want := zzPg("FROM t \nWHERE a=? \nHAVING " + s)
	zzsym.Assert(q.String() == zzTrim(want), "only placeholders are rewritten")
}

// Two fragments of up to 2 arbitrary bytes each (thorough: 3), both binding arguments, in one clause or in
// two: the fragments are rewritten independently of each other.
func ZZQ03_Two() {
	max := 2
	if zzsym.Thorough() {
		max = 3
	}
	s := zzsym.Str("s", 1+zzsym.Choose("lens", max))
	t := zzsym.Str("t", 1+zzsym.Choose("lent", max))
	var q Builder
	var want string
	switch zzsym.Choose("how", 3) {
	case 0:
		q = Postgres.Select(s, 1).Select(t, 2)
		want = "SELECT " + s + ", " + t
	case 1:
		q = Postgres.Select(s, 1).From("x").Select(t, 2)
		want = "SELECT " + s + ", " + t + " \nFROM x"
	default:
		q = Postgres.New(s, 1).Clause(t, 2)
		want = s + " \n" + t
	}
	zzsym.Assert(q.String() == zzTrim(zzPg(want)), "only placeholders are rewritten")
}

// A fragment of up to 4 arbitrary bytes that binds no arguments: \? becomes a plain ?, nothing else changes.
func ZZQ03_Unbound() {
	s := zzsym.Str("s", 1+zzsym.Choose("len", 4))
	q := Postgres.From("t").Where(s)
	want := "FROM t \nWHERE " + strings.ReplaceAll(s, "\\?", "?")
	zzsym.Assert(q.String() == zzTrim(want), "only escapes are rewritten")
}

// The other dialects: any fragment of up to 4 bytes, with or without arguments, is emitted unchanged.
func ZZQ03_Other() {
	d := []SQLDialect{NoDialect, SQLServer}[zzsym.Choose("dialect", 2)]
	s := zzsym.Str("s", 1+zzsym.Choose("len", 4))
	args := []any{1, 2}[:zzsym.Choose("nargs", 3)]
	q := d.From("t").Where(s, args...)
	zzsym.Assert(q.String() == zzTrim("FROM t \nWHERE "+s), "the text is emitted unchanged")
}

// Statements with 9 to 1001 (thorough: 65535, the most Postgres takes) placeholders: in one fragment, in a list of values, or in one clause
// each, with an arbitrary byte between the placeholders.
func ZZQ03_Many() {
	counts := []int{9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 65535}
	k := 12
	if zzsym.Thorough() {
		k = len(counts)
	}
	n := counts[zzsym.Choose("count", k)]
	args := make([]any, n)
	sep := zzsym.Str("sep", 1)
	zzsym.Assume(sep != "?" && sep != "\\")
	num := func(sep string) string {
		var b strings.Builder
		for i := 1; i <= n; i++ {
			if i > 1 {
				b.WriteString(sep)
			}
			b.WriteByte('$')
			b.WriteString(strconv.Itoa(i))
		}
		return b.String()
	}
	var q Builder
	var want string
	switch zzsym.Choose("how", 3) {
	case 0:
		q = Postgres.From("t").Where("a IN ("+strings.Repeat("?"+sep, n-1)+"?)", args...)
		want = "FROM t \nWHERE a IN (" + num(sep) + ")"
	case 1:
		q = Postgres.From("t").Where("a").In(args...)
		want = "FROM t \nWHERE a IN (" + num(",") + ")"
	case 2:
		zzsym.Assume(n <= 300)
		q = Postgres.From("t")
		for i := range args {
			q.Where("?"+sep, args[i])
		}
		want = "FROM t \nWHERE " + num(sep+" AND ") + sep
	}
	zzsym.Assert(q.String() == zzTrim(want), "every placeholder gets the next number")
}
