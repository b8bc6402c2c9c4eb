package schema

import (
	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// Schema and table names of any bytes, up to 3 (thorough: 5) each, reported by the server as the names of a table or as the target of a foreign key;
// both databases; with and without dependencies.
func ZZS04_Names() {
	n := 3
	if zzsym.Thorough() {
		n = 5
	}
	s, t := zzsym.Str("schema", zzsym.Choose("slen", n+1)), zzsym.Str("table", zzsym.Choose("tlen", n+1))
	zzsym.Assume(zzsym.Or(s != "s", t != "t"))
	zzNames(zzsym.Choose("postgres", 2) == 1, s, t)
}

func zzNames(pg bool, s, t string) {
	// the same catalog with plain names, and with these
	run := func(s, t string) []zzdrv.Event {
		w := zzPlain(pg, s, t)
		tt, err := w.p.ListTables(w.ctx, nil, nil, true)
		zzsym.Assert(err == nil && len(tt) == 3, "listing succeeds")
		var l []zzdrv.Event
		for _, e := range w.d.Log {
			if e.Op == "query" {
				l = append(l, e)
			}
			if k := zzKind(e.Query); e.Op == "query" && s == "plain" && (k == "columns" || k == "indexes") {
				as, at := zzWhere(e.Query, e.Args, e.Names)
				zzsym.Assert(as == s && (at == t || at == t+"2") || as == "s" && at == "t", "the query compares the schema with the schema and the table with the table")
			}
		}
		return l
	}
	a, b := run("plain", "names"), run(s, t)
	zzsym.Assert(len(a) == len(b), "names do not change which queries are made")
	with := 0
	for i, e := range b {
		zzsym.Assert(a[i].Query == e.Query, "names do not change the text of a query")
		zzsym.Assert(len(e.Args) == len(a[i].Args), "names do not change the number of arguments")
		for k := range e.Args {
			zzsym.Assert(e.Names[k] == a[i].Names[k], "names do not change the names of arguments")
			x := a[i].Args[k].(string)
			if x == "plain" {
				x = s
				with++
			} else if x == "names" {
				x = t
				with++
			} else if x == "names2" {
				x = t + "2"
			}
			zzsym.Assert(e.Args[k].(string) == x, "names reach the database exactly")
		}
	}
	zzsym.Assert(with >= 4, "names reach the database as arguments")
}

// zzPlain is a catalog of three tables, the last of which is only reached by a foreign key, all with the same content; the first and the last have the name.
func zzPlain(pg bool, s, t string) *zzCat {
	w := &zzCat{d: &zzdrv.DB{}, pg: pg}
	w.ctx = zzCtx()
	w.d.Answer = w.answerAny
	w.p = w.provider()
	w.tabs = []zzTab{{schema: s, name: t, typ: "T"}, {schema: "s", name: "t", typ: "T"}}
	w.fks = []zzFK{{"f", "s", "t", "c", s, t + "2", "c"}}
	return w
}

// The text of the table, column and index queries, evaluated on the system catalogs of databases: two tables in the same or in two schemas and a view,
// with all names (1 byte) and so all coincidences of names that the server allows (databases as in S01).
func ZZS04_Queries() { zzUserTables() }

// Names of 60 to 300 characters of every kind, one of them any byte.
func ZZS04_Long() {
	long := func(l string) string {
		s := ""
		for n := []int{60, 128, 300}[zzsym.Choose(l, 3)]; len(s) < n; {
			s += []string{"a", "Z", "'", "\"", "]", "é", " ", ";", "--", "$1", "@p1", "%"}[len(s)*7%12]
		}
		return s
	}
	zzNames(zzsym.Choose("postgres", 2) == 1, long("schema")+zzsym.Str("c", 1), long("table"))
}
