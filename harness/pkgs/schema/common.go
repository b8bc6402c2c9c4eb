package schema

import (
	"context"
	"database/sql/driver"
	"sort"
	"strings"

	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
)

// The catalog of a fake server.
type zzCol struct {
	name, typ, udt string
	null           string
	max            any // nil or int64
	ord            int64
}

type zzIdx struct {
	name       string
	pk, unique bool
	cols       []string
}

type zzTab struct {
	schema, name, typ string
	cols              []zzCol
	idx               []zzIdx
}

type zzFK struct{ name, s, t, c, rs, rt, rc string }

type zzCat struct {
	d     *zzdrv.DB
	pg    bool
	tabs  []zzTab
	views []zzTab
	fks   []zzFK
	ctx   context.Context
	p     Provider
	// mangle may change the answer of the n-th query.
	mangle func(kind string, t *zzdrv.Table)
}

func zzNew() *zzCat { return zzNewOn(zzsym.Choose("postgres", 2) == 1) }

func zzNewOn(pg bool) *zzCat {
	w := &zzCat{d: &zzdrv.DB{}, ctx: context.Background(), pg: pg}
	w.d.Answer = w.answer
	w.p = w.provider()
	return w
}

// provider is a new provider on the same server.
func (w *zzCat) provider() Provider {
	n := "sqlserver"
	if w.pg {
		n = "postgres"
	}
	return NewProvider(w.d.Open(), n)
}

// zzKind is the kind of a catalog query.
func zzKind(q string) string {
	q = strings.ToLower(q)
	switch {
	case strings.Contains(q, "foreign_key") || strings.Contains(q, "foreign key"):
		return "fks"
	case strings.Contains(q, "pg_index") || strings.Contains(q, "sys.index"):
		return "indexes"
	case strings.Contains(q, "view"):
		return "views"
	case strings.Contains(q, "ordinal_position"):
		return "columns"
	}
	return "tables"
}

// zzItems returns the output name of every item of the select list.
func zzItems(query string) []string {
	q := strings.ToLower(query)
	i := strings.Index(q, "select")
	if i < 0 {
		zzsym.Unsupported("catalog query without select")
	}
	q = q[i+len("select"):]
	var items []string
	depth, start := 0, 0
	for j := 0; j < len(q); j++ {
		switch q[j] {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				items = append(items, q[start:j])
				start = j + 1
			}
		}
		if depth == 0 && strings.HasPrefix(q[j:], "from") && j > 0 && q[j-1] <= ' ' && q[j+4] <= ' ' {
			items = append(items, q[start:j])
			break
		}
	}
	for k, s := range items {
		f := strings.Fields(s)
		s = f[len(f)-1]
		if !strings.Contains(s, "(") {
			s = s[strings.LastIndex(s, ".")+1:]
		}
		items[k] = strings.Trim(s, "[]\"")
	}
	return items
}

// zzField names the catalog field an output name stands for.
func zzField(kind, it string) string {
	has := func(s string) bool { return strings.Contains(it, s) }
	f := ""
	switch kind {
	case "tables":
		switch {
		case has("schema"):
			f = "schema"
		case has("type"):
			f = "type"
		case has("name"):
			f = "table"
		}
	case "columns", "views":
		switch {
		case has("schema"):
			f = "schema"
		case has("table"):
			f = "table"
		case has("column_name"):
			f = "column"
		case has("data_type"):
			f = "type"
		case has("udt"):
			f = "udt"
		case has("nullable"):
			f = "null"
		case has("length"):
			f = "max"
		case has("ordinal"):
			f = "ord"
		}
	case "indexes":
		switch {
		case has("primary") || has("pk"):
			f = "pk"
		case has("unique"):
			f = "unique"
		case has("column"):
			f = "columns"
		case has("name"):
			f = "index"
		}
	case "fks":
		ref := ""
		if has("foreign") || has("referenced") {
			ref = "ref"
		}
		switch {
		case has("schema"):
			f = ref + "schema"
		case has("column"):
			f = ref + "column"
		case has("table"):
			f = ref + "table"
		case has("name"):
			f = "fk"
		}
	}
	if f == "" {
		zzsym.Unsupported("catalog field " + it)
	}
	return f
}

// zzWhere finds the values the query compares schema and table with: a placeholder or a literal.
func zzWhere(query string, args []any, names []string) (schema, table string) {
	q := strings.ToLower(query)
	w := strings.LastIndex(q, "where")
	if w < 0 {
		zzsym.Unsupported("catalog query without where")
	}
	var haveS, haveT bool
	start := w + 5
	pred := func(p string, v string) {
		if strings.Contains(p, "schema") || strings.Contains(p, "nspname") {
			schema, haveS = v, true
		} else if strings.Contains(p, "table") || strings.Contains(p, "relname") || strings.Contains(p, ".name") || strings.Contains(p, "[name]") {
			table, haveT = v, true
		}
	}
	str := func(v any) string {
		s, ok := v.(string)
		if !ok {
			zzsym.Unsupported("catalog argument that is no string")
		}
		return s
	}
	for j := start; j < len(q); j++ {
		switch {
		case strings.HasPrefix(q[j:], "and") && q[j-1] <= ' ' && q[j+3] <= ' ':
			start = j + 3
		case q[j] == '\'':
			k := j + 1
			for k < len(q) && q[k] != '\'' {
				k++
			}
			pred(q[start:j], query[j+1:k])
			j = k
		case q[j] == '$' || q[j] == '@':
			k := j + 1
			for k < len(q) && (q[k] >= 'a' && q[k] <= 'z' || q[k] >= '0' && q[k] <= '9' || q[k] == '_') {
				k++
			}
			id := q[j+1 : k]
			v, found := "", false
			for n := range args {
				if names[n] != "" {
					if strings.ToLower(names[n]) == id && q[j] == '@' {
						v, found = str(args[n]), true
					}
				} else if no := string(rune('1' + n)); q[j] == '$' && id == no || q[j] == '@' && id == "p"+no {
					v, found = str(args[n]), true
				}
			}
			zzsym.Assert(found, "every placeholder of a catalog query has an argument")
			pred(q[start:j], v)
			j = k - 1
		}
	}
	if !haveS || !haveT {
		zzsym.Unsupported("catalog query without schema and table")
	}
	return
}

func (w *zzCat) answer(query string, args []any) zzdrv.Table {
	kind := zzKind(query)
	items := zzItems(query)
	var recs []map[string]any
	names := w.d.ArgNames
	switch kind {
	case "tables":
		for _, t := range w.tabs {
			recs = append(recs, map[string]any{"schema": t.schema, "table": t.name, "type": t.typ})
		}
	case "columns":
		s, n := zzWhere(query, args, names)
		for _, t := range w.tabs {
			if t.schema == s && t.name == n {
				for _, c := range t.cols {
					recs = append(recs, map[string]any{"schema": s, "table": n, "column": c.name, "type": c.typ, "udt": c.udt, "null": c.null, "max": c.max, "ord": c.ord})
				}
			}
		}
	case "indexes":
		s, n := zzWhere(query, args, names)
		for _, t := range w.tabs {
			if t.schema == s && t.name == n {
				for _, x := range t.idx {
					recs = append(recs, map[string]any{"index": x.name, "pk": x.pk, "unique": x.unique, "columns": strings.Join(x.cols, ",")})
				}
			}
		}
	case "fks":
		for _, k := range w.fks {
			recs = append(recs, map[string]any{"fk": k.name, "schema": k.s, "table": k.t, "column": k.c, "refschema": k.rs, "reftable": k.rt, "refcolumn": k.rc})
		}
	case "views":
		// one row per view and column, column by column, so that the rows of the views alternate
		top := 1
		for _, t := range w.views {
			top = max(top, len(t.cols))
		}
		for n := 0; n < top; n++ {
			for _, t := range w.views {
				if n < len(t.cols) {
					c := t.cols[n]
					recs = append(recs, map[string]any{"schema": t.schema, "table": t.name, "column": c.name, "type": c.typ, "udt": c.udt, "null": c.null, "max": c.max, "ord": c.ord})
				} else if n == 0 && w.pg {
					recs = append(recs, map[string]any{"schema": t.schema, "table": t.name, "column": nil, "type": nil, "udt": nil, "null": nil, "max": nil, "ord": nil})
				}
			}
		}
	}
	out := zzdrv.Table{Cols: items}
	for _, r := range recs {
		row := make([]driver.Value, len(items))
		for i, it := range items {
			row[i] = r[zzField(kind, it)]
		}
		out.Rows = append(out.Rows, row)
	}
	if w.mangle != nil {
		w.mangle(kind, &out)
	}
	return out
}

// zzFold compares ASCII texts without regard to case.
func zzFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	low := func(c byte) byte { return c | 0x20&-zzBit(c-'A' < 26) }
	for i := 0; i < len(a); i++ {
		eq = zzsym.And(eq, low(a[i]) == low(b[i]))
	}
	return eq
}

func zzBit(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// zzMatch tells whether the filters select schema.name.
func zzMatch(s, t string, schemas, tables []string) bool {
	in := func(l []string, x string) bool {
		m := len(l) == 0
		for _, f := range l {
			m = zzsym.Or(m, zzFold(f, x))
		}
		return m
	}
	return in(schemas, s) && in(tables, t)
}

// zzSorted checks that the tables are sorted by full name, each once.
func zzSorted(tt Tables) {
	for i, t := range tt {
		zzsym.Assert(t.SchemaName == t.Schema+"."+t.Name, "the full name of a table is schema.name")
		if i > 0 {
			zzsym.Assert(tt[i-1].SchemaName < t.SchemaName, "tables are sorted by full name, each once")
		}
	}
}

func zzNullable(s string) bool { return strings.ToUpper(s) == "YES" }

// zzColumns checks that the listed columns are those of the catalog, in ordinal order.
func zzColumns(full string, got Columns, want []zzCol) {
	want = append([]zzCol{}, want...)
	sort.Slice(want, func(i, j int) bool { return want[i].ord < want[j].ord })
	zzsym.Assert(len(got) == len(want), "every column once")
	for i, c := range got {
		x := want[i]
		zzsym.Assert(zzsym.And(c.Name == x.name, c.Type == x.typ, c.UdtType == x.udt, c.Nullable == zzNullable(x.null)), "a column has its name, type and nullability, in ordinal order")
		zzsym.Assert(int64(c.Position) == x.ord, "and its position")
		if x.max == nil {
			zzsym.Assert(c.MaxLength == 0, "no length limit")
		} else {
			// SQL Server gives -1 for a type without limit
			max := x.max.(int64)
			zzsym.Assert(zzsym.Or(int64(c.MaxLength) == max, max < 0 && c.MaxLength == 0), "and its length")
		}
		zzsym.Assert(c.SchemaName == full+"."+x.name, "and its full name")
	}
}

// zzTable checks one listed table against the catalog.
func zzTable(t *Table, x zzTab) {
	zzsym.Assert(t.Schema == x.schema && t.Name == x.name, "the table's name")
	zzsym.Assert(t.Type == x.typ && !t.IsView, "the table's type")
	zzColumns(t.SchemaName, t.Columns, x.cols)
	zzsym.Assert(len(t.Indexes) == len(x.idx), "every index once")
	pk := ""
	of := map[string][]string{}
	for i, g := range t.Indexes {
		e := x.idx[i]
		zzsym.Assert(g.Name == e.name && g.IsPrimary == e.pk && g.IsUnique == e.unique && g.SchemaName == t.SchemaName+"."+e.name, "an index has its name and flags")
		zzsym.Assert(len(g.ColumnNames) == len(e.cols), "an index has all its columns")
		for k, n := range e.cols {
			zzsym.Assert(g.ColumnNames[k] == n, "an index has its columns in order")
			of[n] = append(of[n], e.name)
		}
		if e.pk && len(e.cols) == 1 {
			pk = e.cols[0]
		}
	}
	for _, c := range t.Columns {
		zzsym.Assert(len(c.Indexes) == len(of[c.Name]), "a column knows the indexes it is part of")
		for k, g := range c.Indexes {
			zzsym.Assert(g.Name == of[c.Name][k], "a column knows the indexes it is part of")
		}
		if c.Name == pk {
			zzsym.Assert(t.PrimaryKey == c, "the primary key is the column of the single-column primary index")
			pk = ""
		} else if t.PrimaryKey != nil {
			zzsym.Assert(t.PrimaryKey != c, "no other column is the primary key")
		}
	}
	if pk != "" {
		zzsym.Assert(t.PrimaryKey == nil, "no primary key")
	}
}

func zzCtx() context.Context { return context.Background() }

// answerAny is the answer of a server on which every table has the same content.
func (w *zzCat) answerAny(query string, args []any) zzdrv.Table {
	kind := zzKind(query)
	rec := map[string]any{}
	switch kind {
	case "tables", "fks":
		return w.answer(query, args)
	case "columns":
		rec = map[string]any{"column": "c", "type": "int", "udt": "int", "null": "NO", "max": nil, "ord": int64(1)}
	case "indexes":
		rec = map[string]any{"index": "i", "pk": true, "unique": true, "columns": "c"}
	}
	out := zzdrv.Table{Cols: zzItems(query)}
	row := make([]driver.Value, len(out.Cols))
	for i, it := range out.Cols {
		row[i] = rec[zzField(kind, it)]
	}
	out.Rows = [][]driver.Value{row}
	return out
}

func zzAscii(l string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(zzsym.IntRange(l, 1, 127))
	}
	return string(b)
}

func zzStrs(l string, max, n int) []string {
	var r []string
	for i := zzsym.Choose("n"+l, max+1); i > 0; i-- {
		r = append(r, zzAscii(l, n))
	}
	return r
}

// zzContent is a table with up to nc columns in any row order with any distinct ordinals, types, nullability, lengths (or none, -1), and up to
// two indexes on any of the columns and a column the user may not see.
func zzContent(schema, name string, nc int) zzTab {
	t := zzTab{schema: schema, name: name, typ: "BASE TABLE"}
	n := zzsym.Choose("ncols", nc+1)
	for i := 0; i < n; i++ {
		c := zzCol{name: string(rune('a' + i)), typ: zzAscii("type", 1), udt: zzAscii("udt", 1)}
		c.null = []string{"NO", "YES"}[zzsym.Choose("null", 2)]
		if i == 0 && zzsym.Choose("max", 2) == 1 {
			c.max = int64(zzsym.IntRange("maxlen", -1, 1<<32-1))
		}
		c.ord = int64(zzsym.IntRange("ord", 1, 1600))
		for _, o := range t.cols {
			zzsym.Assume(o.ord != c.ord)
		}
		t.cols = append(t.cols, c)
	}
	return t
}

// zzBig is a table of n columns listed in a scrambled order, one of them with any type, nullability and length.
func zzBig(schema, name string, n int, any bool) zzTab {
	t := zzTab{schema: schema, name: name, typ: "BASE TABLE"}
	for i := 0; i < n; i++ {
		ord := i*7%n + 1
		c := zzCol{name: "c" + string(rune('a'+ord%26)) + string(rune('a'+ord/26)), typ: "int", udt: "int", null: "NO", ord: int64(ord)}
		if any && i == n/2 {
			c.typ = zzAscii("type", 1)
			c.udt = c.typ
			c.null = []string{"NO", "YES"}[zzsym.Choose("null", 2)]
			c.max = int64(zzsym.IntRange("maxlen", -1, 1<<32-1))
		}
		t.cols = append(t.cols, c)
	}
	return t
}

// zzBigDB is a database of 24 tables and views over 3 schemas in a scrambled order, one of them with 60 columns, 14 indexes and a key of 12 columns, and of
// 80 foreign keys, many of which have one table in common. A chain of them leads over 24 tables.
func zzBigDB(w *zzCat, any bool) {
	full := func(i int) (string, string) { return string(rune('r' + i%3)), "t" + string(rune('a'+i)) }
	for k := 0; k < 24; k++ {
		i := k * 5 % 24
		s, n := full(i)
		nc := 5
		if i == 4 {
			nc = 60
		}
		t := zzBig(s, n, nc, any && i == 4)
		w.views = append(w.views, t)
		t.idx = []zzIdx{{name: "pk", pk: true, unique: true, cols: []string{t.cols[2].name}}}
		if i == 4 {
			var key []string
			for j := 0; j < 12; j++ {
				key = append(key, t.cols[59-4*j].name)
			}
			t.idx = append(t.idx, zzIdx{name: "key", unique: true, cols: key})
			for j := 0; j < 12; j++ {
				t.idx = append(t.idx, zzIdx{name: "i" + string(rune('a'+j)), cols: []string{t.cols[j].name, t.cols[0].name}})
			}
		}
		w.tabs = append(w.tabs, t)
	}
	for i := 0; i < 23; i++ {
		s, n := full(i)
		rs, rn := full(i + 1)
		w.fks = append(w.fks, zzFK{"f" + n, s, n, "cba", rs, rn, "cca"})
	}
	for i := 0; i < 57; i++ {
		rs, rn := full(i % 3)
		s, n := full(4)
		w.fks = append(w.fks, zzFK{"g" + string(rune('a'+i%26)) + string(rune('a'+i/26)), s, n, "c" + string(rune('a'+(i+3)%26)) + string(rune('a'+(i+3)/26)), rs, rn, "cca"})
	}
}

// zzBigFilter: no filter, or one of 12 names in other spellings, some of nothing, some repeated.
func zzBigFilter() []string {
	switch zzsym.Choose("filter", 3) {
	case 1:
		return []string{"TA", "tx", "zz", "te", "Tb", "tb", "ta", "y", "TW", "td", "x", "tk"}
	case 2:
		return []string{"Te"}
	}
	return nil
}

func zzListed(tt Tables, from []zzTab, ss, ts []string) []zzTab {
	var want []zzTab
	for _, x := range from {
		if zzMatch(x.schema, x.name, ss, ts) {
			want = append(want, x)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i].schema+"."+want[i].name < want[j].schema+"."+want[j].name })
	zzSorted(tt)
	zzsym.Assert(len(tt) == len(want), "exactly the matching ones")
	return want
}
