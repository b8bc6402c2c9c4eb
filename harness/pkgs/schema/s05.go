package schema

import "github.com/effective-security/xdb/internal/zzsym"

// Two views (thorough: three) with any ASCII names (schema and name 1 byte each) and columns as below, their rows alternating; up to two filters
// of any ASCII text; Postgres (thorough: both databases).
func ZZS05_ViewsFilter() {
	w := zzNewOn(!zzsym.Thorough() || zzsym.Choose("postgres", 2) == 1)
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		v := zzTab{schema: zzAscii("schema", 1), name: zzAscii("view", 1)}
		for _, o := range w.views {
			zzsym.Assume(zzsym.Or(o.schema != v.schema, o.name != v.name))
		}
		zzsym.Assume(zzsym.And(v.schema != ".", v.name != "."))
		v.cols = []zzCol{{name: "b", typ: "int", udt: "int", null: "NO", ord: 2}, {name: "a", typ: "int", udt: "int", null: "NO", ord: 1}}
		w.views = append(w.views, v)
	}
	ss := zzStrs("sf", 2, 1)
	nt := 2
	if !zzsym.Thorough() {
		nt -= len(ss)
	}
	ts := zzStrs("vf", nt, 1)
	tt, err := w.p.ListViews(w.ctx, ss, ts)
	zzsym.Assert(err == nil, "listing succeeds")
	zzSorted(tt)
	k := 0
	for _, x := range w.views {
		if !zzMatch(x.schema, x.name, ss, ts) {
			continue
		}
		k++
		found := false
		for _, t := range tt {
			found = zzsym.Or(found, zzsym.And(t.Schema == x.schema, t.Name == x.name))
		}
		zzsym.Assert(found, "every matching view is listed")
	}
	zzsym.Assert(len(tt) == k, "and no other")
	for _, t := range tt {
		zzsym.Assert(t.IsView, "as a view")
		zzColumns(t.SchemaName, t.Columns, w.views[0].cols)
	}
}

// Two views with 0 to 2 columns (thorough: 3; SQL Server: from 1) of any types (1 byte), nullability, length limit (first column) and ordinals, their
// rows alternating in any column order; both databases; every order of map iteration.
func ZZS05_ViewsContent() {
	zzsym.MapOrder(true)
	w := zzNew()
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	v := zzContent("s", "v", n)
	u := zzTab{schema: "s", name: "u", cols: []zzCol{{name: "b", typ: "int", udt: "int", null: "YES", ord: 2, max: int64(7)}, {name: "a", typ: "text", udt: "text", null: "NO", ord: 1}}}
	w.views = []zzTab{v, u}
	if zzsym.Choose("order", 2) == 1 {
		w.views = []zzTab{u, v}
	}
	if !w.pg {
		zzsym.Assume(len(v.cols) > 0)
		for i := range v.cols {
			v.cols[i].udt = v.cols[i].typ
		}
	}
	tt, err := w.p.ListViews(w.ctx, nil, nil)
	zzsym.Assert(err == nil && len(tt) == 2, "listing succeeds")
	zzSorted(tt)
	zzColumns("s.u", tt[0].Columns, u.cols)
	zzColumns("s.v", tt[1].Columns, v.cols)
	zzsym.Assert(w.d.OpenRows == 0, "every cursor is released")
}

// Up to 3 foreign keys (thorough: 4) with any ASCII names: source schema and table of 1 byte, name, column and target of 1 byte each; up to two
// filters of any ASCII text; Postgres (thorough: both databases).
func ZZS05_ForeignKeys() {
	w := zzNewOn(!zzsym.Thorough() || zzsym.Choose("postgres", 2) == 1)
	n := zzsym.Choose("n", 3)
	if zzsym.Thorough() {
		n = zzsym.Choose("n", 4)
	}
	for i := 0; i < n; i++ {
		a := func(l string) string { return zzAscii(l, 1) }
		w.fks = append(w.fks, zzFK{a("fk"), a("schema"), a("table"), a("col"), a("rs"), a("rt"), a("rc")})
	}
	ss := zzStrs("sf", 2, 1)
	nt := 2
	if !zzsym.Thorough() {
		nt -= len(ss)
	}
	ts := zzStrs("tf", nt, 1)
	kk, err := w.p.ListForeignKeys(w.ctx, ss, ts)
	zzsym.Assert(err == nil, "listing succeeds")
	at := 0
	for _, f := range w.fks {
		if !zzMatch(f.s, f.t, ss, ts) {
			continue
		}
		zzsym.Assert(at < len(kk), "every matching foreign key is listed")
		k := kk[at]
		at++
		zzsym.Assert(zzsym.And(k.Name == f.name, k.Schema == f.s, k.Table == f.t, k.Column == f.c, k.RefSchema == f.rs, k.RefTable == f.rt, k.RefColumn == f.rc),
			"in the order of the database, with source and target unchanged")
		zzsym.Assert(k.ColumnSchemaName() == f.s+"."+f.t+"."+f.c && k.RefColumnSchemaName() == f.rs+"."+f.rt+"."+f.rc && k.SchemaName == f.s+"."+f.t+"."+f.name, "full names")
	}
	zzsym.Assert(len(kk) == at, "and no other")
	zzsym.Assert(w.d.OpenRows == 0, "every cursor is released")
}

// The text of the view query, evaluated on the system catalogs of databases: two views and a table in two schemas with any names (1 byte), two columns.
func ZZS05_ViewQuery() { zzUserViews() }

// The text of the foreign key query, evaluated on the system catalogs of databases: two foreign keys of one or two columns, on one table or on two
// in one schema or two, with any names (1 byte), besides a primary key.
func ZZS05_KeyQuery() { zzUserKeys() }

// A large database: 24 views over 3 schemas, one of them with 60 columns, and 80 foreign keys; filters of up to 12 names; both databases.
func ZZS05_Large() {
	w := zzNew()
	zzBigDB(w, true)
	var ss []string
	if zzsym.Choose("schemas", 2) == 1 {
		ss = []string{"S", "r"}
	}
	ts := zzBigFilter()
	tt, err := w.p.ListViews(w.ctx, ss, ts)
	zzsym.Assert(err == nil && w.d.OpenRows == 0, "listing succeeds")
	for i, x := range zzListed(tt, w.views, ss, ts) {
		zzsym.Assert(tt[i].Schema == x.schema && tt[i].Name == x.name && tt[i].IsView, "the view")
		zzColumns(tt[i].SchemaName, tt[i].Columns, x.cols)
	}
	kk, err := w.p.ListForeignKeys(w.ctx, ss, ts)
	zzsym.Assert(err == nil && w.d.OpenRows == 0, "listing succeeds")
	at := 0
	for _, f := range w.fks {
		if !zzMatch(f.s, f.t, ss, ts) {
			continue
		}
		zzsym.Assert(at < len(kk), "every matching foreign key is listed")
		k := kk[at]
		at++
		zzsym.Assert(*k == ForeignKey{Name: f.name, Schema: f.s, Table: f.t, Column: f.c, RefSchema: f.rs, RefTable: f.rt, RefColumn: f.rc, SchemaName: f.s + "." + f.t + "." + f.name}, "in the order of the database")
	}
	zzsym.Assert(len(kk) == at, "and no other")
}
