package schema

import "github.com/effective-security/xdb/internal/zzsym"

// Two tables (thorough: three) with any ASCII names (schema 1 byte, table 1 byte), up to two schema and two table filters (quick: two
// altogether) of any ASCII text of that length; Postgres (thorough: both databases); the server's rows in any order.
func ZZS01_Filter() {
	w := zzNewOn(!zzsym.Thorough() || zzsym.Choose("postgres", 2) == 1)
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		t := zzTab{schema: zzAscii("schema", 1), name: zzAscii("table", 1), typ: "T"}
		for _, o := range w.tabs {
			zzsym.Assume(zzsym.Or(o.schema != t.schema, o.name != t.name))
		}
		// a dot in a name makes full names ambiguous
		zzsym.Assume(zzsym.And(t.schema != ".", t.name != "."))
		w.tabs = append(w.tabs, t)
	}
	ss := zzStrs("sf", 2, 1)
	nt := 2
	if !zzsym.Thorough() {
		nt -= len(ss)
	}
	ts := zzStrs("tf", nt, 1)
	tt, err := w.p.ListTables(w.ctx, ss, ts, false)
	zzsym.Assert(err == nil, "listing succeeds")
	zzSorted(tt)
	k := 0
	for _, x := range w.tabs {
		if !zzMatch(x.schema, x.name, ss, ts) {
			continue
		}
		k++
		found := false
		for _, t := range tt {
			found = zzsym.Or(found, zzsym.And(t.Schema == x.schema, t.Name == x.name))
		}
		zzsym.Assert(found, "every matching table is listed")
	}
	zzsym.Assert(len(tt) == k, "and no other")
}

// One table with up to 2 columns (thorough: 3): any type texts (1 byte), nullability, length limits (of the first), ordinals in any order; both databases.
func ZZS01_Columns() {
	w := zzNew()
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	w.tabs = []zzTab{zzContent("s", "t", n)}
	tt, err := w.p.ListTables(w.ctx, nil, nil, false)
	zzsym.Assert(err == nil && len(tt) == 1, "listing succeeds")
	if !w.pg {
		for i := range w.tabs[0].cols {
			w.tabs[0].cols[i].udt = w.tabs[0].cols[i].typ
		}
	}
	zzTable(tt[0], w.tabs[0])
}

// A table with 2 columns (one of them with a space in front of its name) and up to 2 indexes, each primary and unique or not, on any non-empty set of the columns and of a column that is not
// visible in the list of columns; a second table with a column and index of the same names; both databases.
func ZZS01_Indexes() {
	w := zzNew()
	t := zzTab{schema: "s", name: "t", typ: "BASE TABLE", cols: []zzCol{{name: "a", typ: "int", udt: "int", null: "NO", ord: 1}, {name: " b", typ: "int", udt: "int", null: "NO", ord: 2}}}
	u := t
	u.name = "u"
	u.idx = []zzIdx{{name: "i0", unique: true, cols: []string{" b"}}}
	n := zzsym.Choose("nidx", 3)
	sets := [][]string{{"a"}, {" b"}, {"a", " b"}, {" b", "a"}, {"hidden"}, {"a", "hidden"}}
	pk := false
	for i := 0; i < n; i++ {
		x := zzIdx{name: "i" + string(rune('0'+i)), unique: zzsym.Bool("unique")}
		if !pk && zzsym.Choose("pk", 2) == 1 {
			x.pk, pk = true, true
		}
		x.cols = sets[zzsym.Choose("cols", len(sets))]
		t.idx = append(t.idx, x)
	}
	w.tabs = []zzTab{t, u}
	if zzsym.Choose("order", 2) == 1 {
		w.tabs = []zzTab{u, t}
	}
	tt, err := w.p.ListTables(w.ctx, nil, nil, false)
	zzsym.Assert(err == nil && len(tt) == 2, "listing succeeds")
	zzTable(tt[0], t)
	zzTable(tt[1], u)
}

// zzSame checks that two listings are equal.
func zzSame(a, b Tables) {
	zzsym.Assert(len(a) == len(b), "the same tables")
	for i, t := range a {
		u := b[i]
		zzsym.Assert(t.SchemaName == u.SchemaName && t.Schema == u.Schema && t.Name == u.Name && t.Type == u.Type && t.IsView == u.IsView, "the same tables")
		zzsym.Assert(len(t.Columns) == len(u.Columns) && len(t.Indexes) == len(u.Indexes) && t.PrimaryKeyName() == u.PrimaryKeyName(), "with the same content")
		for k, c := range t.Columns {
			d := u.Columns[k]
			zzsym.Assert(c.StructString() == d.StructString() && c.Tag() == d.Tag() && c.SchemaName == d.SchemaName, "with the same columns")
			zzsym.Assert(len(c.Indexes) == len(d.Indexes) && (c.Ref == nil) == (d.Ref == nil), "with the same columns")
			if c.Ref != nil {
				zzsym.Assert(*c.Ref == *d.Ref, "with the same references")
			}
		}
	}
}

// A database with four tables, one of them alone, the others chained by foreign keys, and a view; any sequence of 2 (thorough: 3) calls of listing tables
// (any of them, with or without dependencies), views and foreign keys; between the calls a table or a column may be dropped
// or a foreign key removed: every call gives what a new provider gives.
func ZZS01_History() {
	w := zzNew()
	col := func(n string, o int64) zzCol { return zzCol{name: n, typ: "int", udt: "int", null: "NO", ord: o} }
	pk := []zzIdx{{name: "pk", pk: true, unique: true, cols: []string{"id"}}}
	for _, n := range []string{"a", "b", "c", "x"} {
		w.tabs = append(w.tabs, zzTab{schema: "s", name: n, typ: "BASE TABLE", cols: []zzCol{col("id", 1), col("r", 2)}, idx: pk})
	}
	w.views = []zzTab{{schema: "s", name: "a", cols: []zzCol{col("id", 1)}}}
	w.fks = []zzFK{{"f1", "s", "a", "r", "s", "b", "id"}, {"f2", "s", "b", "r", "s", "c", "id"}}
	call := func(p Provider, op int, f []string, deps bool) Tables {
		switch op {
		case 0:
			tt, err := p.ListTables(w.ctx, nil, f, deps)
			zzsym.Assert(err == nil, "listing succeeds")
			return tt
		case 1:
			tt, err := p.ListViews(w.ctx, nil, f)
			zzsym.Assert(err == nil, "listing succeeds")
			return tt
		}
		kk, err := p.ListForeignKeys(w.ctx, nil, f)
		zzsym.Assert(err == nil, "listing succeeds")
		var tt Tables
		for _, k := range kk {
			tt = append(tt, &Table{Name: k.Name, Columns: Columns{{Name: k.Column, Ref: k}}})
		}
		return tt
	}
	n := 2
	if zzsym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		op := zzsym.Choose("op", 3)
		var f []string
		if k := zzsym.Choose("filter", 5); k > 0 {
			f = []string{w.tabs[k-1].name}
		}
		deps := op == 0 && zzsym.Choose("deps", 2) == 1
		got := call(w.p, op, f, deps)
		if i > 0 {
			zzSame(got, call(w.provider(), op, f, deps))
		}
		switch zzsym.Choose("change", 4) {
		case 1:
			w.fks = w.fks[1:]
			w.tabs[0].cols = w.tabs[0].cols[:1]
		case 2:
			w.fks = nil
		case 3:
			w.tabs[2].idx = nil
		}
		if len(w.fks) == 0 {
			break
		}
	}
}

// Two listings (tables with or without dependencies, views, foreign keys) of one provider at once, taking turns at
// every query and every row: unsynchronised accesses are violations, and each listing gives what it gives alone.
func ZZS01_Concurrent() {
	w := zzNewOn(true)
	w.tabs = []zzTab{
		{schema: "s", name: "a", typ: "BASE TABLE", cols: []zzCol{{name: "id", typ: "int", udt: "int", null: "NO", ord: 1}}},
		{schema: "s", name: "b", typ: "BASE TABLE", cols: []zzCol{{name: "id", typ: "int", udt: "int", null: "NO", ord: 1}}},
	}
	w.views = []zzTab{{schema: "s", name: "v", cols: []zzCol{{name: "id", typ: "int", udt: "int", null: "NO", ord: 1}}}}
	w.fks = []zzFK{{"f1", "s", "a", "id", "s", "b", "id"}}
	call := func(p Provider, op int) Tables {
		switch op {
		case 0, 1:
			tt, err := p.ListTables(w.ctx, nil, []string{"a"}, op == 1)
			zzsym.Assert(err == nil, "listing succeeds")
			return tt
		case 2:
			tt, err := p.ListViews(w.ctx, nil, nil)
			zzsym.Assert(err == nil, "listing succeeds")
			return tt
		}
		kk, err := p.ListForeignKeys(w.ctx, nil, nil)
		zzsym.Assert(err == nil, "listing succeeds")
		var tt Tables
		for _, k := range kk {
			tt = append(tt, &Table{Name: k.Name, Columns: Columns{{Name: k.Column, Ref: k}}})
		}
		return tt
	}
	x := zzsym.Choose("first", 4)
	y := x + zzsym.Choose("second", 4-x)
	zzsym.Races()
	w.d.Fault = func(op string) error {
		if op == "next" || op == "query" {
			zzsym.Yield()
		}
		return nil
	}
	c := make(chan Tables)
	go func() { c <- call(w.p, x) }()
	b := call(w.p, y)
	a := <-c
	zzSame(a, call(w.provider(), x))
	zzSame(b, call(w.provider(), y))
	zzsym.Reached("end")
}

// Five tables, views and foreign keys over three schemas; a list of up to 4 (thorough: 5) schemas or tables, or of both (up to 3 and 3), with repetitions, other
// spellings and names of nothing: tables, views and foreign keys; both databases.
func ZZS01_Lists() {
	w := zzNewOn(!zzsym.Thorough() || zzsym.Choose("postgres", 2) == 1)
	col := []zzCol{{name: "id", typ: "int", udt: "int", null: "NO", ord: 1}}
	for _, n := range [][2]string{{"r", "a"}, {"s", "b"}, {"s", "a"}, {"t", "c"}, {"r", "d"}} {
		w.tabs = append(w.tabs, zzTab{schema: n[0], name: n[1], typ: "T", cols: col})
		w.views = append(w.views, zzTab{schema: n[0], name: n[1], cols: col})
		w.fks = append(w.fks, zzFK{"f", n[0], n[1], "id", "s", "b", "id"})
	}
	pick := func(l string, from []string, n int) []string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, from[zzsym.Choose(l, len(from))])
		}
		return r
	}
	top := 5
	if zzsym.Thorough() {
		top = 6
	}
	var ns, nt int
	switch zzsym.Choose("lists", 3) {
	case 0:
		ns = zzsym.Choose("ns", top)
	case 1:
		nt = 1 + zzsym.Choose("nt", top-1)
	case 2:
		ns, nt = 3, 3
	}
	names := []string{"A", "b", "zz"}
	ss := pick("sf", []string{"S", "t", ""}[:3], ns)
	if ns == 3 && nt == 3 {
		names = names[:2]
	}
	ts := pick("tf", names, nt)
	want := 0
	for _, x := range w.tabs {
		if zzMatch(x.schema, x.name, ss, ts) {
			want++
		}
	}
	has := func(tt Tables) {
		zzSorted(tt)
		zzsym.Assert(len(tt) == want, "exactly the matching ones")
		for _, t := range tt {
			zzsym.Assert(zzMatch(t.Schema, t.Name, ss, ts), "exactly the matching ones")
		}
	}
	switch zzsym.Choose("op", 3) {
	case 0:
		tt, err := w.p.ListTables(w.ctx, ss, ts, false)
		zzsym.Assert(err == nil, "listing succeeds")
		has(tt)
	case 1:
		tt, err := w.p.ListViews(w.ctx, ss, ts)
		zzsym.Assert(err == nil, "listing succeeds")
		has(tt)
	case 2:
		kk, err := w.p.ListForeignKeys(w.ctx, ss, ts)
		zzsym.Assert(err == nil, "listing succeeds")
		zzsym.Assert(len(kk) == want, "exactly the matching ones")
		for _, k := range kk {
			zzsym.Assert(zzMatch(k.Schema, k.Table, ss, ts), "exactly the matching ones")
		}
	}
}

// The text of the catalog queries, evaluated on the system catalogs of databases: two tables in the same or in two schemas and a view, with all
// names (1 byte) and so all coincidences of names of tables, columns and indexes that the server allows; two columns with any nullability; up to two
// indexes (primary, unique, one or two columns in either order, with a further column); partitioned and foreign tables, tables with descriptions, the
// server's own tables; the rows of the catalog in either order.
func ZZS01_Queries() { zzUserTables() }

// A large database: 24 tables over 3 schemas in a scrambled order, one of them with 60 columns, 14 indexes and a key of 12 columns; one column of any
// type, nullability and length; listed with filters of up to 12 names; both databases.
func ZZS01_Large() {
	w := zzNew()
	zzBigDB(w, true)
	var ss []string
	if zzsym.Choose("schemas", 2) == 1 {
		ss = []string{"S", "r"}
	}
	ts := zzBigFilter()
	tt, err := w.p.ListTables(w.ctx, ss, ts, false)
	zzsym.Assert(err == nil && w.d.OpenRows == 0, "listing succeeds")
	for i, x := range zzListed(tt, w.tabs, ss, ts) {
		zzTable(tt[i], x)
	}
}
