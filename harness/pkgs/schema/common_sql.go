package schema

import (
	"context"
	"database/sql/driver"
	"sort"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsql"
	"github.com/effective-security/xdb/internal/zzsym"
)

// A database as its owner sees it. Its system catalog is derived from it, and the text of the catalog queries is evaluated on that (zzsql).
type zzObj struct {
	schema, name string
	kind         string // table, foreign, part (partitioned), view, shipped (by the server)
	cols         []zzCol
	idx          []zzObjIdx
	fks          []zzObjFK
	props        []zzProp
}

type zzObjIdx struct {
	name       string
	pk, unique bool
	key        []int // columns in the order of the key
	incl       []int // further columns (SQL Server)
}

type zzObjFK struct {
	name    string
	cols    []int
	ref     *zzObj
	refcols []int
}

// zzProp is an extended property (SQL Server) of the object or of one of its columns (minor > 0).
type zzProp struct {
	class, name string
	minor       int64
}

type zzBase struct {
	pg       bool
	objs     []*zzObj
	backward bool // the relations have their rows in the opposite order
	cat      *zzsql.Catalog
	d        *zzdrv.DB
}

func (b *zzBase) rel(name string, cols ...string) *zzsql.Rel {
	r := &zzsql.Rel{Cols: cols}
	b.cat.Rels[name] = r
	return r
}

func (b *zzBase) put(r *zzsql.Rel, vals ...any) {
	if b.backward {
		r.Rows = append([][]any{vals}, r.Rows...)
	} else {
		r.Rows = append(r.Rows, vals)
	}
}

func (b *zzBase) provider() Provider {
	b.cat = &zzsql.Catalog{Rels: map[string]*zzsql.Rel{}}
	b.d = &zzdrv.DB{}
	if b.pg {
		b.postgres()
	} else {
		b.sqlserver()
	}
	b.d.Answer = func(q string, args []any) zzdrv.Table {
		m := map[string]any{}
		for i, a := range args {
			k := b.d.ArgNames[i]
			if k == "" {
				k = string(rune('1' + i))
				m["p"+k] = a
			}
			m[k] = a
		}
		r, e := b.cat.Query(q, m)
		if e != "" {
			zzsym.Unsupported("catalog query: " + e)
		}
		t := zzdrv.Table{Cols: r.Cols}
		for _, row := range r.Rows {
			var l []driver.Value
			for _, v := range row {
				l = append(l, v)
			}
			t.Rows = append(t.Rows, l)
		}
		return t
	}
	n := "sqlserver"
	if b.pg {
		n = "postgres"
	}
	return NewProvider(b.d.Open(), n)
}

func (b *zzBase) postgres() {
	tables := b.rel("information_schema.tables", "table_catalog", "table_schema", "table_name", "table_type")
	columns := b.rel("information_schema.columns", "table_catalog", "table_schema", "table_name", "column_name", "data_type", "udt_name", "is_nullable", "character_maximum_length", "ordinal_position")
	views := b.rel("information_schema.views", "table_catalog", "table_schema", "table_name")
	tc := b.rel("information_schema.table_constraints", "constraint_schema", "constraint_name", "table_schema", "table_name", "constraint_type")
	kcu := b.rel("information_schema.key_column_usage", "constraint_schema", "constraint_name", "table_schema", "table_name", "column_name", "ordinal_position", "position_in_unique_constraint")
	ccu := b.rel("information_schema.constraint_column_usage", "constraint_schema", "constraint_name", "table_schema", "table_name", "column_name")
	ns := b.rel("pg_namespace", "oid", "nspname")
	class := b.rel("pg_class", "oid", "relname", "relkind", "relnamespace")
	attr := b.rel("pg_attribute", "attrelid", "attname", "attnum", "attisdropped")
	index := b.rel("pg_index", "indexrelid", "indrelid", "indisprimary", "indisunique", "indkey")
	indexes := b.rel("pg_indexes", "schemaname", "tablename", "indexname")
	for _, n := range []string{"pg_namespace", "pg_class", "pg_attribute", "pg_index", "pg_indexes"} {
		b.cat.Rels["pg_catalog."+n] = b.cat.Rels[n]
	}
	oids := map[string]int64{}
	next := int64(11)
	oid := func() int64 { next++; return next }
	for _, s := range []string{"pg_catalog", "information_schema", "p", "q"} {
		oids[s] = oid()
		b.put(ns, oids[s], s)
	}
	// the server's own relations
	for _, s := range []struct{ s, n, t, k string }{{"pg_catalog", "pg_class", "BASE TABLE", "r"}, {"information_schema", "sql_parts", "BASE TABLE", "r"}, {"information_schema", "tables", "VIEW", "v"}} {
		o := oid()
		b.put(class, o, s.n, s.k, oids[s.s])
		b.put(attr, o, "oid", int64(1), false)
		b.put(tables, "db", s.s, s.n, s.t)
		b.put(columns, "db", s.s, s.n, "oid", "oid", "oid", "NO", nil, int64(1))
		if s.k == "v" {
			b.put(views, "db", s.s, s.n)
		} else {
			x := oid()
			b.put(class, x, s.n+"_idx", "i", oids[s.s])
			b.put(attr, x, "oid", int64(1), false)
			b.put(index, x, o, true, true, []any{int64(1)})
			b.put(indexes, s.s, s.n, s.n+"_idx")
		}
	}
	for _, o := range b.objs {
		typ := map[string]string{"table": "BASE TABLE", "part": "BASE TABLE", "foreign": "FOREIGN", "view": "VIEW", "shipped": "LOCAL TEMPORARY"}[o.kind]
		kind := map[string]string{"table": "r", "part": "p", "foreign": "f", "view": "v", "shipped": "r"}[o.kind]
		b.put(tables, "db", o.schema, o.name, typ)
		if o.kind == "view" {
			b.put(views, "db", o.schema, o.name)
		}
		t := oid()
		b.put(class, t, o.name, kind, oids[o.schema])
		b.put(attr, t, "tableoid", int64(-6), false)
		for _, c := range o.cols {
			b.put(attr, t, c.name, c.ord, false)
			b.put(columns, "db", o.schema, o.name, c.name, c.typ, c.udt, c.null, c.max, c.ord)
		}
		for _, x := range o.idx {
			i := oid()
			k := "i"
			if kind == "p" {
				k = "I"
			}
			b.put(class, i, x.name, k, oids[o.schema])
			var key []any
			for n, c := range x.key {
				b.put(attr, i, o.cols[c].name, int64(n+1), false)
				key = append(key, o.cols[c].ord)
			}
			b.put(index, i, t, x.pk, x.unique, key)
			b.put(indexes, o.schema, o.name, x.name)
			if x.pk {
				b.put(tc, o.schema, x.name, o.schema, o.name, "PRIMARY KEY")
				for n, c := range x.key {
					b.put(kcu, o.schema, x.name, o.schema, o.name, o.cols[c].name, int64(n+1), nil)
					b.put(ccu, o.schema, x.name, o.schema, o.name, o.cols[c].name)
				}
			}
		}
		for _, f := range o.fks {
			b.put(tc, o.schema, f.name, o.schema, o.name, "FOREIGN KEY")
			for n, c := range f.cols {
				b.put(kcu, o.schema, f.name, o.schema, o.name, o.cols[c].name, int64(n+1), int64(n+1))
				b.put(ccu, o.schema, f.name, f.ref.schema, f.ref.name, f.ref.cols[f.refcols[n]].name)
			}
		}
	}
	b.cat.Func = func(name string, args []any) (any, bool) { return nil, false }
}

func (b *zzBase) sqlserver() {
	schemas := b.rel("sys.schemas", "schema_id", "name")
	objects := b.rel("sys.objects", "object_id", "schema_id", "name", "type", "type_desc", "is_ms_shipped")
	tables := b.rel("sys.tables", "object_id", "schema_id", "name", "type", "type_desc", "is_ms_shipped")
	views := b.rel("sys.views", "object_id", "schema_id", "name", "type", "type_desc", "is_ms_shipped")
	cols := b.rel("sys.columns", "object_id", "column_id", "name")
	indexes := b.rel("sys.indexes", "object_id", "index_id", "name", "is_primary_key", "is_unique", "type_desc")
	icols := b.rel("sys.index_columns", "object_id", "index_id", "index_column_id", "column_id", "key_ordinal", "is_included_column")
	props := b.rel("sys.extended_properties", "class", "class_desc", "major_id", "minor_id", "name")
	fks := b.rel("sys.foreign_keys", "object_id", "schema_id", "name", "parent_object_id", "referenced_object_id")
	fkc := b.rel("sys.foreign_key_columns", "constraint_object_id", "constraint_column_id", "parent_object_id", "parent_column_id", "referenced_object_id", "referenced_column_id")
	icolumns := b.rel("information_schema.columns", "table_catalog", "table_schema", "table_name", "column_name", "data_type", "is_nullable", "character_maximum_length", "ordinal_position")
	itables := b.rel("information_schema.tables", "table_catalog", "table_schema", "table_name", "table_type")
	iviews := b.rel("information_schema.views", "table_catalog", "table_schema", "table_name")
	ids := map[string]int64{"sys": 4, "p": 5, "q": 6}
	for _, s := range []string{"sys", "p", "q"} {
		b.put(schemas, ids[s], s)
	}
	of := map[*zzObj]int64{}
	for n, o := range b.objs {
		of[o] = int64(100 + n)
	}
	next := int64(1000)
	for _, o := range b.objs {
		id := of[o]
		shipped := o.kind == "shipped"
		if o.kind == "view" {
			b.put(objects, id, ids[o.schema], o.name, "V", "VIEW", false)
			b.put(views, id, ids[o.schema], o.name, "V", "VIEW", false)
			b.put(itables, "db", o.schema, o.name, "VIEW")
			b.put(iviews, "db", o.schema, o.name)
		} else {
			b.put(objects, id, ids[o.schema], o.name, "U", "USER_TABLE", shipped)
			b.put(tables, id, ids[o.schema], o.name, "U", "USER_TABLE", shipped)
			b.put(itables, "db", o.schema, o.name, "BASE TABLE")
		}
		for _, c := range o.cols {
			b.put(cols, id, c.ord, c.name)
			b.put(icolumns, "db", o.schema, o.name, c.name, c.typ, c.null, c.max, c.ord)
		}
		for _, p := range o.props {
			b.put(props, int64(1), p.class, id, p.minor, p.name)
		}
		if o.kind != "view" {
			b.put(indexes, id, int64(0), nil, false, false, "HEAP")
		}
		for k, x := range o.idx {
			b.put(indexes, id, int64(k+2), x.name, x.pk, x.unique, "NONCLUSTERED")
			n := int64(0)
			for _, c := range x.key {
				n++
				b.put(icols, id, int64(k+2), n, o.cols[c].ord, n, false)
			}
			for _, c := range x.incl {
				n++
				b.put(icols, id, int64(k+2), n, o.cols[c].ord, int64(0), true)
			}
			if x.pk {
				next++
				b.put(objects, next, ids[o.schema], x.name, "PK", "PRIMARY_KEY_CONSTRAINT", false)
			}
		}
		for _, f := range o.fks {
			next++
			b.put(objects, next, ids[o.schema], f.name, "F", "FOREIGN_KEY_CONSTRAINT", false)
			b.put(fks, next, ids[o.schema], f.name, id, of[f.ref])
			for n, c := range f.cols {
				b.put(fkc, next, int64(n+1), id, o.cols[c].ord, of[f.ref], f.ref.cols[f.refcols[n]].ord)
			}
		}
	}
	b.cat.Func = func(name string, args []any) (any, bool) {
		switch {
		case name == "schema_name" && len(args) == 1:
			for k, v := range ids {
				if v == args[0] {
					return k, true
				}
			}
			return nil, true
		case name == "schema_id" && len(args) == 1:
			s, _ := args[0].(string)
			if id, ok := ids[s]; ok {
				return id, true
			}
			return nil, true
		case (name == "object_schema_name" || name == "object_name") && len(args) == 1:
			for _, o := range b.objs {
				if of[o] == args[0] {
					if name == "object_name" {
						return o.name, true
					}
					return o.schema, true
				}
			}
			return nil, true
		}
		return nil, false
	}
}

// zzListed checks that the listed tables are those of the database that are of the kinds, with their columns and indexes.
func (b *zzBase) listed(tt Tables, view bool) {
	zzSorted(tt)
	n := 0
	for _, o := range b.objs {
		if (o.kind == "view") != view || o.kind == "shipped" {
			continue
		}
		n++
		var t *Table
		for _, x := range tt {
			if x.Schema == o.schema && x.Name == o.name {
				t = x
			}
		}
		zzsym.Assert(t != nil, "every table and view of the database is listed")
		zzsym.Assert(t.IsView == view, "as a table or as a view")
		want := append([]zzCol{}, o.cols...)
		for i := range want {
			if !b.pg {
				want[i].udt = want[i].typ
			}
		}
		zzColumns(t.SchemaName, t.Columns, want)
		zzsym.Assert(len(t.Indexes) == len(o.idx), "every index once")
		pk := ""
		for _, e := range o.idx {
			found := false
			for _, g := range t.Indexes {
				if g.Name != e.name {
					continue
				}
				found = true
				zzsym.Assert(zzsym.And(g.IsPrimary == e.pk, g.IsUnique == e.unique), "an index has its flags")
				zzsym.Assert(len(g.ColumnNames) == len(e.key), "an index has the columns of its key, and no other")
				for k, c := range e.key {
					zzsym.Assert(g.ColumnNames[k] == o.cols[c].name, "in the order of the key")
				}
			}
			zzsym.Assert(found, "every index is listed")
			if e.pk && len(e.key) == 1 {
				pk = o.cols[e.key[0]].name
			}
		}
		zzsym.Assert(t.PrimaryKeyName() == pk, "the primary key")
	}
	zzsym.Assert(len(tt) == n, "and nothing else")
}

// keys checks the listed foreign keys.
func (b *zzBase) keys(kk ForeignKeys) {
	n := 0
	for _, o := range b.objs {
		for _, f := range o.fks {
			for i, c := range f.cols {
				n++
				found := false
				for _, k := range kk {
					found = zzsym.Or(found, zzsym.And(k.Schema == o.schema, k.Table == o.name, k.Column == o.cols[c].name, k.Name == f.name,
						k.RefSchema == f.ref.schema, k.RefTable == f.ref.name, k.RefColumn == f.ref.cols[f.refcols[i]].name))
				}
				zzsym.Assert(found, "every reference of every foreign key is listed")
			}
		}
	}
	if len(kk) == n || !b.pg {
		zzsym.Assert(len(kk) == n, "every reference once, and nothing else")
		return
	}
	// Known: information_schema.constraint_column_usage does not tell which column of a key refers to which.
	seen := map[ForeignKey]bool{}
	id := ""
	for _, k := range kk {
		again, ok := seen[*k], false
		seen[*k] = true
		for _, o := range b.objs {
			for _, f := range o.fks {
				if !zzsym.And(o.schema == k.Schema, o.name == k.Table, f.name == k.Name) {
					continue
				}
				for _, p := range b.objs {
					for _, g := range p.fks {
						if !zzsym.And(p.schema == o.schema, g.name == f.name) {
							continue
						}
						for i, c := range f.cols {
							for j, rc := range g.refcols {
								if !zzsym.And(o.cols[c].name == k.Column, g.ref.schema == k.RefSchema, g.ref.name == k.RefTable, g.ref.cols[rc].name == k.RefColumn) {
									continue
								}
								ok = true
								if o != p {
									again = false
									id = "postgres-shared-constraint-names"
								} else if i != j && id == "" {
									id = "postgres-composite-foreign-keys"
								}
							}
						}
					}
				}
			}
		}
		zzsym.Assert(!again, "every reference once")
		zzsym.Assert(ok, "no reference to other columns")
	}
	zzsym.Assert(id != "", "every reference once, and nothing else")
	zzsym.Finding(id, false, "every reference once, and nothing else")
}

func zzIntCol(name string, ord int64) zzCol {
	return zzCol{name: name, typ: "int", udt: "int4", null: "NO", ord: ord}
}

// distinct assumes that the names differ.
func zzDistinct(l ...string) {
	for i := range l {
		for j := range l[:i] {
			zzsym.Assume(l[i] != l[j])
		}
	}
}

func zzLetter(l string) string {
	s := zzAscii(l, 1)
	zzsym.Assume(s != ".")
	return s
}

// zzUserTables: two tables in the same or in two schemas and a view, all names (1 byte) and so all coincidences of the names of tables, columns and
// indexes that the server allows; two columns in either order, with any nullability; up to two indexes (primary or not, unique or not, one or two
// columns in either order; SQL Server: with a further column); kinds of tables, extended properties, the server's own tables.
func zzUserTables() {
	b := &zzBase{pg: zzsym.Bool("postgres"), backward: zzsym.Bool("backward")}
	t := &zzObj{schema: "p", name: zzLetter("t"), kind: "table"}
	u := &zzObj{schema: []string{"q", "p"}[zzsym.Choose("schema", 2)], name: zzLetter("u"), kind: "table"}
	v := &zzObj{schema: "q", name: zzLetter("v"), kind: "view", cols: []zzCol{zzIntCol("a", 1)}}
	t.cols = []zzCol{zzIntCol("a", 1), zzIntCol("b", 2)}
	if zzsym.Bool("dropped") {
		// the column between them was dropped
		t.cols[1].ord = 3
	}
	u.cols = []zzCol{zzIntCol("c", 1), zzIntCol("a", 2)}
	t.cols[0].null = []string{"NO", "YES"}[zzsym.Choose("null", 2)]
	x := zzObjIdx{name: zzLetter("x"), pk: zzsym.Bool("pk"), unique: zzsym.Bool("unique"), key: [][]int{{0}, {1}, {0, 1}, {1, 0}}[zzsym.Choose("key", 4)]}
	y := zzObjIdx{name: zzLetter("y"), key: []int{1}}
	if !b.pg && len(x.key) == 1 && !x.pk && zzsym.Bool("included") {
		x.incl = []int{1 - x.key[0]}
	}
	t.idx = []zzObjIdx{x}
	switch zzsym.Choose("second", 3) {
	case 0:
		u.idx = []zzObjIdx{y}
	case 1:
		t.idx = append(t.idx, y)
		zzsym.Assume(x.name != y.name)
	default:
		y.name = ""
	}
	zzsym.Assume(zzsym.Or(t.schema != u.schema, t.name != u.name))
	zzsym.Assume(zzsym.Or(v.schema != u.schema, v.name != u.name))
	if b.pg {
		// indexes share the names of tables
		for _, o := range []*zzObj{t, u} {
			for _, i := range o.idx {
				for _, p := range []*zzObj{t, u, v} {
					zzsym.Assume(zzsym.Or(o.schema != p.schema, p.name != i.name))
					for _, j := range p.idx {
						if o != p {
							zzsym.Assume(zzsym.Or(o.schema != p.schema, i.name != j.name))
						}
					}
				}
			}
		}
		u.kind = []string{"table", "part", "foreign", "shipped"}[zzsym.Choose("kind", 4)]
		if u.kind == "foreign" || u.kind == "shipped" {
			u.idx = nil
		}
	} else {
		if zzsym.Bool("shipped") {
			u.kind = "shipped"
		}
		if zzsym.Bool("described") {
			t.props = []zzProp{{"OBJECT_OR_COLUMN", "MS_Description", 0}, {"OBJECT_OR_COLUMN", "MS_Description", 1}, {"INDEX", "MS_Description", 2}}
		}
	}
	b.objs = []*zzObj{t, u, v}
	p := b.provider()
	tt, err := p.ListTables(context.Background(), nil, nil, false)
	zzsym.Assert(err == nil, "listing succeeds")
	b.listed(tt, false)
	zzsym.Reached("end")
}

// zzUserViews: two views and a table, in two schemas, with any names (1 byte) the server allows, two columns in any order.
func zzUserViews() {
	b := &zzBase{pg: zzsym.Bool("postgres"), backward: zzsym.Bool("backward")}
	schema := func(l string) string { return []string{"p", "q"}[zzsym.Choose(l, 2)] }
	v := &zzObj{schema: "p", name: zzLetter("v"), kind: "view", cols: []zzCol{zzIntCol("a", 1), zzIntCol("b", 2)}}
	w := &zzObj{schema: schema("w"), name: zzLetter("w"), kind: "view", cols: []zzCol{zzIntCol("b", 1), zzIntCol("c", 2)}}
	t := &zzObj{schema: schema("t"), name: zzLetter("t"), kind: "table", cols: []zzCol{zzIntCol("a", 1), zzIntCol("d", 2)}}
	v.cols[0].null = []string{"NO", "YES"}[zzsym.Choose("null", 2)]
	b.objs = []*zzObj{v, w, t}
	for i, o := range b.objs {
		for _, p := range b.objs[:i] {
			zzsym.Assume(zzsym.Or(o.schema != p.schema, o.name != p.name))
		}
	}
	p := b.provider()
	tt, err := p.ListViews(context.Background(), nil, nil)
	zzsym.Assert(err == nil, "listing succeeds")
	b.listed(tt, true)
	zzsym.Reached("end")
}

// zzUserKeys: foreign keys of two tables in two schemas or one, of one or two columns, with any names (1 byte) the server allows, to primary keys.
func zzUserKeys() {
	b := &zzBase{pg: zzsym.Bool("postgres"), backward: zzsym.Bool("backward")}
	r := &zzObj{schema: "p", name: zzLetter("r"), kind: "table", cols: []zzCol{zzIntCol("a", 1), zzIntCol("b", 2)}, idx: []zzObjIdx{{name: zzLetter("x"), pk: true, unique: true, key: []int{0}}}}
	t := &zzObj{schema: "p", name: zzLetter("t"), kind: "table", cols: []zzCol{zzIntCol("c", 1), zzIntCol("d", 2)}}
	u := &zzObj{schema: []string{"q", "p"}[zzsym.Choose("schema", 2)], name: zzLetter("u"), kind: "table", cols: []zzCol{zzIntCol("c", 1), zzIntCol("a", 2)}}
	b.objs = []*zzObj{r, t, u}
	for i, o := range b.objs {
		for _, p := range b.objs[:i] {
			zzsym.Assume(zzsym.Or(o.schema != p.schema, o.name != p.name))
		}
	}
	two := zzsym.Bool("two columns")
	f := zzObjFK{name: zzLetter("f"), cols: []int{0}, ref: r, refcols: []int{0}}
	if two {
		f.cols, f.refcols = []int{0, 1}, []int{1, 0}
	}
	g := zzObjFK{name: zzLetter("g"), cols: []int{1}, ref: []*zzObj{r, t, u}[zzsym.Choose("ref", 3)], refcols: []int{0}}
	t.fks = []zzObjFK{f}
	same := false
	if zzsym.Bool("second on the same table") {
		t.fks = append(t.fks, g)
		zzsym.Assume(f.name != g.name)
	} else {
		u.fks = []zzObjFK{g}
		same = zzsym.And(u.schema == t.schema, f.name == g.name)
	}
	if b.pg {
		zzsym.Assume(zzsym.And(f.name != r.idx[0].name, zzsym.Or(g.name != r.idx[0].name)))
	} else {
		// constraints are objects of the schema
		zzDistinct(f.name, t.name, r.name, r.idx[0].name)
		zzsym.Assume(!same)
		zzsym.Assume(zzsym.Or(u.schema != "p", zzsym.And(u.name != f.name, u.name != r.idx[0].name)))
		for _, o := range b.objs {
			for _, k := range o.fks {
				if k.name != f.name {
					zzsym.Assume(k.name != o.name)
				}
			}
		}
	}
	p := b.provider()
	kk, err := p.ListForeignKeys(context.Background(), nil, nil)
	zzsym.Assert(err == nil, "listing succeeds")
	b.keys(kk)
	zzsym.Reached("end")
}

var _ = sort.Strings
