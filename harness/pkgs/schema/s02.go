package schema

import "github.com/effective-security/xdb/internal/zzsym"

// Any foreign keys between 3 tables (thorough: 4) with one referencing column each (the first: two; thorough: two each), the first of which may carry
// two foreign keys (only in the first table); any one or none of the tables asked for; cycles and self references; Postgres
// (thorough: both databases); every order of map iteration.
func ZZS02_Closure() {
	zzsym.MapOrder(true)
	w := zzNewOn(!zzsym.Thorough() || zzsym.Choose("postgres", 2) == 1)
	n := 3
	if zzsym.Thorough() {
		n = 4
	}
	names := []string{"a", "b", "c", "d"}[:n]
	col := func(n string, o int64) zzCol { return zzCol{name: n, typ: "int", udt: "int", null: "NO", ord: o} }
	edge := map[string]map[string]bool{}
	refs := map[string][]zzFK{}
	for ti, t := range names {
		w.tabs = append(w.tabs, zzTab{schema: "s", name: t, typ: "T" + t, cols: []zzCol{col("id", 1), col("r", 2), col("q", 3)}, idx: []zzIdx{{name: "pk", pk: true, unique: true, cols: []string{"id"}}}})
		edge[t] = map[string]bool{}
		for ci, c := range []string{"r", "r", "q"} {
			if ci == 1 && ti != 0 || ci == 2 && ti != 0 && !zzsym.Thorough() {
				continue
			}
			k := zzsym.Choose("fk", n+1)
			if k == 0 {
				continue
			}
			f := zzFK{"f", "s", t, c, "s", names[k-1], "id"}
			if edge[t][f.rt] && ci == 1 {
				continue
			}
			w.fks = append(w.fks, f)
			refs[t+"."+c] = append(refs[t+"."+c], f)
			edge[t][f.rt] = true
		}
	}
	var filter []string
	in := map[string]bool{}
	if k := zzsym.Choose("filter", n+1); k > 0 {
		filter = []string{names[k-1]}
		in[names[k-1]] = true
	} else {
		for _, t := range names {
			in[t] = true
		}
	}
	for range names {
		for _, t := range names {
			for _, u := range names {
				if in[t] && edge[t][u] {
					in[u] = true
				}
			}
		}
	}
	tt, err := w.p.ListTables(w.ctx, []string{"S"}, filter, true)
	zzsym.Assert(err == nil, "listing succeeds")
	zzSorted(tt)
	zzsym.Assert(len(tt) == len(in), "exactly the closure, each table once")
	for _, t := range tt {
		zzsym.Assert(in[t.Name], "only tables of the closure")
		for _, x := range w.tabs {
			if x.name == t.Name {
				zzTable(t, x)
			}
		}
		for _, c := range t.Columns {
			fs := refs[t.Name+"."+c.Name]
			if len(fs) == 0 {
				zzsym.Assert(c.Ref == nil, "a column without foreign key has no reference")
				continue
			}
			zzsym.Assert(c.Ref != nil, "a referencing column carries its reference")
			ok := false
			for _, f := range fs {
				if *c.Ref == (ForeignKey{Name: f.name, Schema: f.s, Table: f.t, Column: f.c, RefSchema: f.rs, RefTable: f.rt, RefColumn: f.rc, SchemaName: f.s + "." + f.t + "." + f.name}) {
					ok = true
				}
			}
			zzsym.Assert(ok, "the reference is a foreign key of the column")
		}
	}
}

// A chain of foreign keys over two schemas with equal table names: tables x.t, y.t, x.u, y.u, every one referencing any one of them
// or none; any one asked for by schema and table; both databases.
func ZZS02_Schemas() {
	w := zzNew()
	type id struct{ s, t string }
	ids := []id{{"x", "t"}, {"y", "t"}, {"x", "u"}, {"y", "u"}}
	next := map[id]id{}
	for _, i := range ids {
		w.tabs = append(w.tabs, zzTab{schema: i.s, name: i.t, typ: "T" + i.s + i.t, cols: []zzCol{{name: "r", typ: "int", udt: "int", null: "YES", ord: 1}}})
		if k := zzsym.Choose("fk", 5); k > 0 {
			next[i] = ids[k-1]
			w.fks = append(w.fks, zzFK{"f", i.s, i.t, "r", ids[k-1].s, ids[k-1].t, "r"})
		}
	}
	at := ids[zzsym.Choose("from", 4)]
	deps := zzsym.Choose("deps", 2) == 1
	tt, err := w.p.ListTables(w.ctx, []string{at.s}, []string{at.t}, deps)
	zzsym.Assert(err == nil, "listing succeeds")
	zzSorted(tt)
	in := map[id]bool{}
	for !in[at] {
		in[at] = true
		if n, ok := next[at]; ok && deps {
			at = n
		}
	}
	zzsym.Assert(len(tt) == len(in), "exactly the closure")
	for _, t := range tt {
		i := id{t.Schema, t.Name}
		zzsym.Assert(in[i], "only tables of the closure")
		for _, x := range w.tabs {
			if x.schema == i.s && x.name == i.t {
				zzTable(t, x)
			}
		}
		n, ok := next[i]
		if deps {
			zzsym.Assert((t.Columns[0].Ref != nil) == ok, "a referencing column carries its reference")
			zzsym.Assert(!ok || t.Columns[0].Ref.RefSchema == n.s && t.Columns[0].Ref.RefTable == n.t, "a referencing column carries its reference")
		}
	}
}

// A chain of foreign keys over 8 (thorough: 14) tables, with one more foreign key from any one table to any one (or none); any one or two tables or all asked for.
func ZZS02_Chain() {
	w := zzNewOn(true)
	n := 8
	if zzsym.Thorough() {
		n = 14
	}
	name := func(i int) string { return string(rune('a' + i)) }
	next := make([][]int, n)
	for i := 0; i < n; i++ {
		w.tabs = append(w.tabs, zzTab{schema: "s", name: name(i), typ: "T" + name(i), cols: []zzCol{{name: "id", typ: "int", udt: "int", null: "NO", ord: 1}, {name: "r", typ: "int", udt: "int", null: "YES", ord: 2}}})
		if i > 0 {
			w.fks = append(w.fks, zzFK{"f", "s", name(i - 1), "r", "s", name(i), "id"})
			next[i-1] = append(next[i-1], i)
		}
	}
	if zzsym.Choose("more", 2) == 1 {
		i, j := zzsym.Choose("from", n), zzsym.Choose("to", n)
		w.fks = append(w.fks, zzFK{"g", "s", name(i), "id", "s", name(j), "id"})
		next[i] = append(next[i], j)
	}
	var filter []string
	var todo []int
	a := zzsym.Choose("asked", n+1)
	if a < n {
		filter, todo = append(filter, name(a)), append(todo, a)
		if b := zzsym.Choose("asked", 3); b > 0 {
			b = (a + 3*b) % n
			filter, todo = append(filter, name(b)), append(todo, b)
		}
	} else {
		for i := range w.tabs {
			todo = append(todo, i)
		}
	}
	in := make([]bool, n)
	k := 0
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		if !in[i] {
			in[i] = true
			k++
			todo = append(todo, next[i]...)
		}
	}
	tt, err := w.p.ListTables(w.ctx, nil, filter, true)
	zzsym.Assert(err == nil, "listing succeeds")
	zzSorted(tt)
	zzsym.Assert(len(tt) == k, "exactly the closure, each table once")
	for _, t := range tt {
		i := int(t.Name[0] - 'a')
		zzsym.Assert(in[i], "only tables of the closure")
		zzTable(t, w.tabs[i])
		zzsym.Assert((t.Columns[1].Ref != nil) == (i < n-1), "a referencing column carries its reference")
		zzsym.Assert(i == n-1 || t.Columns[1].Ref.RefTable == name(i+1), "a referencing column carries its reference")
	}
}

// A large database: 24 tables over 3 schemas, a chain of foreign keys over all of them and 57 more from one of them, one table or none asked for.
func ZZS02_Large() {
	w := zzNewOn(true)
	zzBigDB(w, true)
	var ts []string
	a := zzsym.Choose("asked", 25)
	if a > 0 {
		ts = []string{"T" + string(rune('a'+a-1))}
	}
	in := map[string]bool{}
	for _, t := range w.tabs {
		if zzMatch(t.schema, t.name, nil, ts) {
			in[t.name] = true
		}
	}
	for range w.tabs {
		for _, f := range w.fks {
			if in[f.t] {
				in[f.rt] = true
			}
		}
	}
	tt, err := w.p.ListTables(w.ctx, nil, ts, true)
	zzsym.Assert(err == nil && w.d.OpenRows == 0, "listing succeeds")
	zzSorted(tt)
	zzsym.Assert(len(tt) == len(in), "exactly the closure, each table once")
	for _, t := range tt {
		zzsym.Assert(in[t.Name], "only tables of the closure")
		for _, x := range w.tabs {
			if x.name == t.Name {
				zzTable(t, x)
			}
		}
		for _, c := range t.Columns {
			n, ok := 0, false
			for _, f := range w.fks {
				if f.t == t.Name && f.c == c.Name {
					n++
					ok = ok || c.Ref != nil && *c.Ref == ForeignKey{Name: f.name, Schema: f.s, Table: f.t, Column: f.c, RefSchema: f.rs, RefTable: f.rt, RefColumn: f.rc, SchemaName: f.s + "." + f.t + "." + f.name}
				}
			}
			zzsym.Assert(ok == (n > 0) && (n > 0 || c.Ref == nil), "exactly the referencing columns carry a reference, which is a foreign key of theirs")
		}
	}
}
