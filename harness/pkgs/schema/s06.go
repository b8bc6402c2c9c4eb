package schema

import (
	"strings"

	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/effective-security/xdb/xsql"
)

func zzWord(l string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(zzsym.IntRange(l, 'a', 'z'))
	}
	return string(b)
}

// zzName is a name of any printable characters but commas, question marks and backslashes.
func zzName(l string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(zzsym.IntRange(l, '!', '~'))
		zzsym.Assume(zzsym.And(b[i] != ',', zzsym.And(b[i] != '?', b[i] != '\\')))
	}
	return string(b)
}

func zzInfo() *TableInfo {
	t := &TableInfo{Schema: "s", Name: "t", SchemaName: zzWord("name", 2), Dialect: xsql.Postgres}
	if zzsym.Choose("plain", 2) == 1 {
		t.Dialect = xsql.NoDialect
	}
	n := 3
	if zzsym.Thorough() {
		n = 5
	}
	for i := zzsym.Choose("ncols", n+1); i > 0; i-- {
		t.Columns = append(t.Columns, zzName("col", 1+zzsym.Choose("len", 2)))
	}
	return t
}

// zzTokens splits a statement at white space and commas.
func zzTokens(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' || r == ',' })
}

func zzTok(got string, want []string, msg string) {
	zzsym.Assert(strings.Join(zzTokens(got), " ") == strings.Join(want, " "), msg)
}

// zzCommas checks that the list of items is separated by single commas.
func zzCommas(s string, n int) {
	if n > 0 {
		zzsym.Assert(strings.Count(s, ",") == n-1, "items are separated by commas")
	}
}

// Table metadata with any name (2 letters), 0 to 3 columns (thorough: 5) of any names of 1 or 2 letters, equal ones included; any prefix of up to 1 letter; any set of nulled columns; any 0
// to 2 requested columns; two dialects; each statement is built again after every other one.
func ZZS06_Select() {
	t := zzInfo()
	cols := append([]string{}, t.Columns...)
	prefix := zzWord("prefix", zzsym.Choose("np", 2))
	nulls := map[string]bool{}
	isNull := make([]bool, len(cols))
	for i, c := range cols {
		if zzsym.Choose("null", 2) == 1 {
			nulls[c] = true
		}
		_ = i
	}
	for i, c := range cols {
		isNull[i] = nulls[c]
	}
	for i := 0; i < 2; i++ {
		zzTok(t.AllColumns(), cols, "all columns in declared order")
		zzCommas(t.AllColumns(), len(cols))
		var want []string
		for k, c := range cols {
			switch {
			case isNull[k]:
				c = "NULL"
			case prefix != "":
				c = prefix + "." + c
			}
			want = append(want, c)
		}
		al := t.AliasedColumns(prefix, nulls)
		zzTok(al, want, "every column prefixed, nulled columns in place")
		zzCommas(al, len(cols))
		if len(cols) > 0 {
			q := append(append([]string{"SELECT"}, want...), "FROM", t.SchemaName)
			if prefix != "" {
				q = append(q, prefix)
			}
			zzTok(t.SelectAliased(prefix, nulls).String(), q, "the aliased statement selects exactly that from the table under the alias")
			zzTok(t.Select().String(), append(append([]string{"SELECT"}, cols...), "FROM", t.SchemaName), "selecting nothing in particular selects all columns of the table")
		}
	}
	for i, c := range cols {
		zzsym.Assert(nulls[c] == isNull[i], "the caller's set of nulled columns is unchanged")
	}
	for i := range cols {
		zzsym.Assert(t.Columns[i] == cols[i], "the metadata is unchanged")
	}
}

// Table metadata as above with 2 columns; any 1 to 3 requested columns of 1 letter; every kind of statement; two dialects.
func ZZS06_Statements() {
	t := zzInfo()
	var req []string
	for i := zzsym.Choose("nreq", 3); i >= 0; i-- {
		req = append(req, zzWord("req", 1))
	}
	asked := append([]string{}, req...)
	zzTok(t.Select(req...).String(), append(append([]string{"SELECT"}, req...), "FROM", t.SchemaName), "exactly the requested columns")
	zzCommas(t.Select(req...).String(), len(req))
	zzTok(strings.Join(req, " "), asked, "the caller's list of columns is unchanged")
	ws := append([]string{" " + req[0]}, req[1:]...)
	zzTok(t.Select(ws...).String(), append(append([]string{"SELECT"}, req...), "FROM", t.SchemaName), "exactly the requested columns")
	zzsym.Assert(ws[0] == " "+req[0], "the caller's list of columns is unchanged")
	zzTok(t.From().Select("x").String(), []string{"SELECT", "x", "FROM", t.SchemaName}, "FROM names the table")
	zzTok(t.DeleteFrom().Where("x IS NULL").String(), []string{"DELETE", "FROM", t.SchemaName, "WHERE", "x", "IS", "NULL"}, "DELETE names the table")
	zzTok(t.InsertInto().SetExpr("x", "1").String(), []string{"INSERT", "INTO", t.SchemaName, "(", "x", ")", "VALUES", "(", "1", ")"}, "INSERT names the table")
	zzTok(t.Update().SetExpr("x", "1").String(), []string{"UPDATE", t.SchemaName, "SET", "x=1"}, "UPDATE names the table")
}

// Two goroutines start statements and column lists from the same table metadata at once, the first use included; every
// interleaving with up to 2 preemptions at synchronisation points, unsynchronised accesses are violations.
func ZZS06_Concurrent() {
	zzsym.Races()
	zzsym.Concurrent(2)
	t := &TableInfo{Schema: "s", Name: "t", SchemaName: "s.t", Dialect: xsql.Postgres, Columns: []string{"a", "b"}}
	ops := []func() string{
		func() string { return t.AllColumns() },
		func() string { return t.Select().String() },
		func() string { return t.AliasedColumns("x", map[string]bool{"a": true}) },
		func() string { return t.SelectAliased("x", nil).String() },
		func() string { return t.Select("a").String() },
		func() string { return t.From().Select("a").String() },
	}
	f, g := ops[zzsym.Choose("first", len(ops))], ops[zzsym.Choose("second", len(ops))]
	c := make(chan string)
	go func() { c <- f() }()
	b := g()
	a := <-c
	zzsym.Assert(a == f() && b == g(), "the result is the same as alone")
}

// Table metadata of 40 columns, some of them nulled, one with any name of 2 characters; all or any 1 to 30 of them requested.
func ZZS06_Large() {
	t := &TableInfo{Schema: "s", Name: "t", SchemaName: "s.t", Dialect: xsql.Postgres}
	nulls := map[string]bool{}
	for i := 0; i < 40; i++ {
		c := "c" + string(rune('a'+i*7%26)) + string(rune('a'+i))
		if i == 20 {
			c = zzName("col", 2)
		}
		if i%5 == 1 {
			nulls[c] = true
		}
		t.Columns = append(t.Columns, c)
	}
	cols := append([]string{}, t.Columns...)
	n := []int{1, 9, 17, 30}[zzsym.Choose("n", 4)]
	from := zzsym.Choose("from", 10)
	prefix := []string{"", "p"}[zzsym.Choose("prefix", 2)]
	var want []string
	for _, c := range cols {
		switch {
		case nulls[c]:
			c = "NULL"
		case prefix != "":
			c = prefix + "." + c
		}
		want = append(want, c)
	}
	for i := 0; i < 2; i++ {
		zzTok(t.AllColumns(), cols, "all columns in declared order")
		zzTok(t.AliasedColumns(prefix, nulls), want, "every column prefixed, nulled columns in place")
		q := append(append([]string{"SELECT"}, want...), "FROM", t.SchemaName)
		if prefix != "" {
			q = append(q, prefix)
		}
		zzTok(t.SelectAliased(prefix, nulls).String(), q, "the aliased statement selects exactly that from the table under the alias")
		zzTok(t.Select().String(), append(append([]string{"SELECT"}, cols...), "FROM", t.SchemaName), "selecting nothing in particular selects all columns of the table")
		req := cols[from : from+n]
		zzTok(t.Select(req...).String(), append(append([]string{"SELECT"}, req...), "FROM", t.SchemaName), "exactly the requested columns")
		zzCommas(t.Select(req...).String(), n)
	}
	for i := range cols {
		zzsym.Assert(t.Columns[i] == cols[i], "the metadata is unchanged")
	}
}
