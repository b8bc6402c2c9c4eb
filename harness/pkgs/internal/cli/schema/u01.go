package schema

import (
	"strconv"

	zos "github.com/effective-security/xdb/internal/zzos"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/effective-security/xdb/schema"
)

// One table with a column of any lower-case name and any attributes.
func ZZU01_Column() {
	c := &schema.Column{Name: "c" + zzLetters("name", 2), Type: "text", UdtType: "varchar", Nullable: zzsym.Bool("null")}
	if zzsym.Bool("len") {
		c.MaxLength = zzsym.U32("max")
	}
	t := zzTable("public", "orgs", &schema.Column{Name: "id", Type: "bigint", UdtType: "int8"}, c)
	m, s := zzOne(&zzProv{tables: schema.Tables{t}}, &GenerateCmd{DB: "db", PkgModel: "model", PkgSchema: "schema"})
	zzsym.Assert(len(m.models) == 1 && len(s.infos) == 1 && len(s.tables) == 1, "one model")
	zzAgree(m.models[0], s.infos[0], s.defs[m.models[0].name], t, t.Columns, false)
	zzsym.Reached("end")
	_ = zos.Data
}

func zzCol(name, typ, udt string) *schema.Column {
	return &schema.Column{Name: name, Type: typ, UdtType: udt}
}

// zzPick makes a table of up to three columns, with or without primary key and indexes.
func zzPick(label, schemaName, name string) *schema.Table {
	all := []*schema.Column{zzCol("id", "bigint", "int8"), zzCol("_name", "text", "varchar"), zzCol("user_id", "int", "int4"), zzCol("created_at", "timestamp", "timestamptz")}
	first := zzsym.Choose(label+".first", 3)
	n := 1 + zzsym.Choose(label+".columns", 3)
	var cols []*schema.Column
	for i := 0; i < n; i++ {
		cols = append(cols, all[(first+i*3)%4])
	}
	t := zzTable(schemaName, name, cols...)
	if zzsym.Bool(label + ".pk") {
		ix := &schema.Index{Name: "pk_" + name, IsPrimary: true, IsUnique: true, ColumnNames: []string{cols[0].Name}}
		t.PrimaryKey = cols[0]
		t.Indexes = schema.Indexes{ix}
		cols[0].Indexes = t.Indexes
		if n > 1 {
			t.Indexes = append(t.Indexes, &schema.Index{Name: "ix_" + name, ColumnNames: []string{cols[1].Name}})
			cols[1].Ref = &schema.ForeignKey{Name: "fk", RefSchema: "s", RefTable: "t", RefColumn: "c"}
		}
	}
	return t
}

// zzWhole asserts that model and schema declare the tables, each once, and agree.
func zzWhole(m, s *zzSource, tables schema.Tables, dropped, cached map[string]bool) {
	zzsym.Assert(len(m.models) == len(tables), "one model per table")
	zzsym.Assert(len(s.infos) == len(tables), "one metadata per table")
	zzsym.Assert(len(s.defs) == len(tables), "one definition per table")
	zzsym.Assert(len(s.tables) == len(tables), "one entry in the map per table")
	for i, t := range tables {
		md := m.models[i]
		var ti *zzInfo
		for _, x := range s.infos {
			if zzUnquote(x.vals["SchemaName"]) == t.SchemaName {
				zzsym.Assert(ti == nil, "metadata declared twice")
				ti = x
			}
		}
		zzsym.Assert(ti != nil, "metadata of the table")
		var kept schema.Columns
		for _, c := range t.Columns {
			if !dropped[c.Name] {
				kept = append(kept, c)
			}
		}
		defs, ok := s.defs[md.name]
		zzsym.Assert(ok, "definition of the table")
		zzAgree(md, ti, defs, t, kept, cached[t.SchemaName])
		want := "&" + ti.name
		if m.pkg != s.pkg {
			want = "&" + s.pkg + "." + ti.name
		}
		zzsym.Assert(md.info == want, "metadata of the model")
		n := 0
		for _, e := range s.tables {
			if e[0] == t.Name && e[1] == "&"+ti.name {
				n++
			}
		}
		zzsym.Assert(n == 1, "entry of the table in the map")
	}
}

func zzOnce(lists ...[]string) {
	seen := map[string]bool{}
	for _, l := range lists {
		for _, d := range l {
			zzsym.Assert(!seen[d], "declared twice: "+d)
			seen[d] = true
		}
	}
}

// Two tables of one schema, and a view, with the generator's options.
func ZZU01_Tables() {
	p := &zzProv{}
	p.tables = schema.Tables{zzPick("a", "public", "orgs")}
	if zzsym.Bool("two") {
		p.tables = append(p.tables, zzTable("public", "user_roles", zzCol("id", "bigint", "int8"), zzCol("tags", "ARRAY", "_text")))
	}
	all := append(schema.Tables{}, p.tables...)
	cmd := &GenerateCmd{DB: "my_db", OutModel: "out/model", OutSchema: "out/schema"}
	opt := zzsym.Choose("option", 8)
	cmd.UseSchema = opt == 1
	if opt == 2 {
		v := zzTable("public", "all_orgs", zzCol("name", "text", "text"))
		v.IsView = true
		p.views = schema.Tables{v}
		cmd.View = []string{"all_orgs"}
		all = append(all, v)
	}
	if opt == 3 {
		cmd.StructSuffix = "model"
	}
	if opt == 4 {
		cmd.PkgModel, cmd.PkgSchema = "mm", "ss"
	}
	dialect, pm, ps := "xsql.Postgres", "model", "schema"
	switch opt {
	case 4:
		pm, ps = "mm", "ss"
	case 5:
		cmd.PkgModel, pm = "mm", "mm"
		p.name, dialect = "sqlserver", "xsql.SQLServer"
	case 6:
		cmd.PkgSchema, ps = "ss", "ss"
		p.name, dialect = "other", "xsql.NoDialect"
	case 7:
		cmd.Schema, cmd.Table, cmd.View, cmd.Dependencies = []string{"a"}, []string{"b", "c"}, []string{"d"}, zzsym.Bool("deps")
	}
	_, err := zzRun(p, cmd)
	zzsym.Assert(err == nil, "generation fails")
	zzsym.Assert(zzSame(p.schemas, cmd.Schema) && zzSame(p.names, cmd.Table) && p.deps == cmd.Dependencies, "filters of the tables")
	zzsym.Assert(cmd.View == nil || zzSame(p.vschemas, cmd.Schema) && zzSame(p.vnames, cmd.View), "filters of the views")
	zzsym.Assert(len(zos.Names) == 2 && zos.Opened == 0, "one file of each kind, closed")
	m, s := zzParse(string(zos.Data["out/model/model.gen.go"])), zzParse(string(zos.Data["out/schema/schema.gen.go"]))
	zzsym.Assert(m.pkg == pm && s.pkg == ps, "package names")
	zzsym.Assert(s.dialect == dialect && m.dialect == dialect, "dialect")
	for _, x := range s.infos {
		zzsym.Assert(x.vals["Dialect"] == dialect, "dialect of the table")
	}
	zzWhole(m, s, all, nil, nil)
	zzOnce(m.decls)
	zzOnce(s.decls)
	if opt != 0 || len(p.tables) == 1 {
		zzsym.Reached("end")
		return
	}
	// the same again
	model, sch := string(zos.Data["out/model/model.gen.go"]), string(zos.Data["out/schema/schema.gen.go"])
	_, err = zzRun(p, cmd)
	zzsym.Assert(err == nil && model == string(zos.Data["out/model/model.gen.go"]) && sch == string(zos.Data["out/schema/schema.gen.go"]), "the second run generates something else")
	zzsym.Reached("twice")
}

// Overrides from the types definition file.
func ZZU01_Overrides() {
	y := ""
	p := &zzProv{tables: schema.Tables{
		zzTable("public", "orgs", zzCol("id", "bigint", "int8"), zzCol("name", "text", "varchar"), zzCol("x_count", "int", "int4"), zzCol("meta", "jsonb", "jsonb")),
		zzTable("public", "users", zzCol("id", "bigint", "int8"), zzCol("name", "text", "varchar"), zzCol("meta", "jsonb", "jsonb")),
	}}
	orgs, users := p.tables[0], p.tables[1]
	dropped, cached := map[string]bool{}, map[string]bool{}
	tables, fields, typ := zzsym.Bool("tables"), zzsym.Bool("fields"), zzsym.Choose("types", 4)
	if tables {
		y += "tables:\n  public.orgs: Company\n"
	}
	if fields {
		y += "fields:\n  public.users.name: FullName\n"
	}
	switch typ {
	case 1:
		y += "types:\n  public.orgs.meta: xdb.Metadata\n"
	case 2:
		y += "types:\n  meta: xdb.Metadata\n"
	case 3:
		y += "types:\n  _count: uint32\n"
	}
	if zzsym.Bool("cache") {
		y += "with_cached_props:\n  - public.users\n"
		cached["public.users"] = true
	}
	if zzsym.Bool("drop") {
		y += "drop_columns:\n  - name\n"
		dropped["name"] = true
	}
	cmd := &GenerateCmd{DB: "db", OutModel: "m", OutSchema: "s"}
	if y != "" {
		cmd.TypesDef = zzDefs(y)
	}
	_, err := zzRun(p, cmd)
	zzsym.Assert(err == nil, "generation fails")
	m, s := zzParse(string(zos.Data["m/model.gen.go"])), zzParse(string(zos.Data["s/schema.gen.go"]))
	zzWhole(m, s, p.tables, dropped, cached)
	zzOnce(m.decls)
	zzOnce(s.decls)
	name := "Org"
	if tables {
		name = "Company"
	}
	zzsym.Assert(m.models[0].name == name && m.models[1].name == "User", "names of the models")
	want := map[string]string{"public.orgs.meta": "xdb.NULLString", "public.users.meta": "xdb.NULLString", "x_count": "int32"}
	if typ == 1 || typ == 2 {
		want["public.orgs.meta"] = "xdb.Metadata"
	}
	if typ == 2 {
		want["public.users.meta"] = "xdb.Metadata"
	}
	if typ == 3 {
		want["x_count"] = "uint32"
	}
	at := func(md *zzModel, col string) zzField {
		for _, f := range md.fields {
			p := `db:"` + col + ","
			if len(f.tag) > len(p) && f.tag[:len(p)] == p {
				return f
			}
		}
		zzsym.Assert(false, "column "+col+" is missing")
		return zzField{}
	}
	zzsym.Assert(at(m.models[0], "meta").typ == want["public.orgs.meta"], "type of orgs.meta")
	zzsym.Assert(at(m.models[1], "meta").typ == want["public.users.meta"], "type of users.meta")
	zzsym.Assert(at(m.models[0], "x_count").typ == want["x_count"], "type of x_count")
	if !dropped["name"] {
		full := "Name"
		if fields {
			full = "FullName"
		}
		zzsym.Assert(at(m.models[0], "name").name == "Name" && at(m.models[1], "name").name == full, "names of the fields")
	}
	_, _ = orgs, users
	zzsym.Reached("end")
}

// Names in mixed case, a single schema other than the default one, a view with cached properties, dropped columns,
// folders that already have longer files.
func ZZU01_Names() {
	schemaName := []string{"sales", "dbo", "Main"}[zzsym.Choose("schema", 3)]
	t := zzTable(schemaName, "Orders", zzCol("OrderID", "bigint", "bigint"), zzCol("name", "text", "varchar"), zzCol("Name2", "text", "varchar"), zzCol("_Count", "int", "int"))
	if zzsym.Bool("pk") {
		t.PrimaryKey = t.Columns[0]
	}
	if zzsym.Bool("indexes") {
		t.Indexes = schema.Indexes{&schema.Index{Name: "PK_Orders", IsPrimary: true, IsUnique: true, ColumnNames: []string{"OrderID"}}, &schema.Index{Name: "IX_Orders", ColumnNames: []string{"Name2"}}}
		t.Columns[0].Indexes = t.Indexes[:1]
	}
	v := zzTable(schemaName, "AllOrders", zzCol("OrderID", "bigint", "bigint"), zzCol("Name2", "text", "varchar"))
	v.IsView = true
	p := &zzProv{tables: schema.Tables{t}, views: schema.Tables{v}}
	cmd := &GenerateCmd{DB: "db", OutModel: "m", OutSchema: "s", View: []string{"AllOrders"}, UseSchema: zzsym.Bool("useschema")}
	y := ""
	dropped, cached := map[string]bool{}, map[string]bool{}
	if zzsym.Bool("drop") {
		y += "drop_columns:\n  - Name2\n"
		dropped["Name2"] = true
	}
	if zzsym.Bool("cache") {
		y += "with_cached_props:\n  - " + v.SchemaName + "\n"
		cached[v.SchemaName] = true
	}
	if y != "" {
		cmd.TypesDef = zzDefs(y)
	}
	zzKeep = nil
	if zzsym.Bool("old") {
		zzKeep = make([]byte, 40000)
		for i := range zzKeep {
			zzKeep[i] = '}'
		}
	}
	_, err := zzRun(p, cmd)
	zzKeep = nil
	zzsym.Assert(err == nil, "generation fails")
	m, s := zzParse(string(zos.Data["m/model.gen.go"])), zzParse(string(zos.Data["s/schema.gen.go"]))
	zzWhole(m, s, schema.Tables{t, v}, dropped, cached)
	zzOnce(m.decls)
	zzOnce(s.decls)
	prefix := ""
	if cmd.UseSchema && schemaName != "dbo" {
		prefix = goName(schemaName)
	}
	zzsym.Assert(m.models[0].name == prefix+"Order" && m.models[1].name == prefix+"AllOrder", "names of the models")
	zzsym.Reached("end")
}

// Tables of several schemas: every file has the tables of its schema.
func ZZU01_Schemas() {
	a, b := zzTable("public", "orgs", zzCol("id", "bigint", "int8")), zzTable("sales", "users", zzCol("id", "bigint", "int8"), zzCol("name", "text", "text"))
	c := zzTable("sales", "roles", zzCol("name", "text", "text"))
	p := &zzProv{tables: schema.Tables{a, b, c}}
	if zzsym.Bool("mixed") {
		p.tables = schema.Tables{b, a, c}
	}
	cmd := &GenerateCmd{DB: "db", OutModel: "m", OutSchema: "s", UseSchema: zzsym.Bool("useschema")}
	_, err := zzRun(p, cmd)
	zzsym.Assert(err == nil, "generation fails")
	zzsym.Assert(len(zos.Names) == 4 && zos.Opened == 0, "one file of each kind for each schema, closed")
	var ms, ss [2]*zzSource
	for i, n := range []string{"public", "sales"} {
		ms[i], ss[i] = zzParse(string(zos.Data["m/"+n+"_model.gen.go"])), zzParse(string(zos.Data["s/"+n+"_schema.gen.go"]))
	}
	zzWhole(ms[0], ss[0], schema.Tables{a}, nil, nil)
	zzWhole(ms[1], ss[1], schema.Tables{b, c}, nil, nil)
	without := func(l []string) []string {
		var r []string
		for _, d := range l {
			if d != "Dialect" && d != "DbTables" && d != "DBTables" {
				r = append(r, d)
			}
		}
		return r
	}
	zzOnce(without(ms[0].decls), without(ms[1].decls))
	zzOnce(without(ss[0].decls), without(ss[1].decls))
	zzsym.Finding("schemas-share-package-variables", len(ss[0].decls) == len(without(ss[0].decls)) || len(ss[1].decls) == len(without(ss[1].decls)), "Dialect and the tables map are declared once per schema in the same package")
	zzsym.Reached("end")
}

// A large schema: a table of 40 columns of every type with 12 indexes, among 12 small tables and a view, with long
// names: everything is generated.
func ZZU01_Large() {
	types := [][2]string{{"bigint", "int8"}, {"text", "varchar"}, {"int", "int4"}, {"timestamp", "timestamptz"}, {"jsonb", "jsonb"}, {"boolean", "bool"}, {"ARRAY", "_text"}, {"ARRAY", "_int8"}, {"decimal", "numeric"}, {"smallint", "int2"}}
	var cols []*schema.Column
	for i := 0; i < 40; i++ {
		ty := types[i%len(types)]
		c := zzCol("col_"+strconv.Itoa(i), ty[0], ty[1])
		c.Nullable = i%3 == 0
		c.MaxLength = uint32(i % 5)
		cols = append(cols, c)
	}
	cols[30].Name = "a_very_long_column_name_of_more_than_sixty_characters_in_total_here"
	wide := zzTable("public", "wide_things", cols...)
	for i := 0; i < 12; i++ {
		wide.Indexes = append(wide.Indexes, &schema.Index{Name: "ix_" + strconv.Itoa(i), IsPrimary: i == 0, IsUnique: i%2 == 0, ColumnNames: []string{cols[i].Name, cols[i+1].Name}})
		cols[i].Indexes = append(cols[i].Indexes, wide.Indexes[i])
	}
	if zzsym.Bool("pk") {
		wide.PrimaryKey = cols[0]
	}
	p := &zzProv{}
	at := []int{0, 6, 12}[zzsym.Choose("at", 3)]
	for i := 0; i <= 12; i++ {
		if i == at {
			p.tables = append(p.tables, wide)
			continue
		}
		p.tables = append(p.tables, zzTable("public", "kind"+string(rune('a'+i)), zzCol("id", "bigint", "int8"), zzCol("tags", "ARRAY", "_text")))
	}
	v := zzTable("public", "all_of_the_things_that_have_a_long_name", zzCol("name", "text", "text"))
	v.IsView = true
	p.views = schema.Tables{v}
	cmd := &GenerateCmd{DB: "db", OutModel: "m", OutSchema: "s", View: []string{v.Name}}
	dropped := map[string]bool{}
	if zzsym.Bool("drop") {
		y := "drop_columns:\n"
		for i := 20; i < 29; i++ {
			y += "  - col_" + strconv.Itoa(i) + "\n"
			dropped["col_"+strconv.Itoa(i)] = true
		}
		cmd.TypesDef = zzDefs(y)
	}
	_, err := zzRun(p, cmd)
	zzsym.Assert(err == nil, "generation fails")
	m, s := zzParse(string(zos.Data["m/model.gen.go"])), zzParse(string(zos.Data["s/schema.gen.go"]))
	zzWhole(m, s, append(append(schema.Tables{}, p.tables...), v), dropped, nil)
	zzOnce(m.decls)
	zzOnce(s.decls)
	zzsym.Reached("end")
}

// A failing operation is reported, and no file stays open.
func ZZU01_Failures() {
	p := &zzProv{tables: schema.Tables{zzTable("public", "orgs", zzCol("id", "bigint", "int8"))}, fail: []string{"", "tables", "views"}[zzsym.Choose("fail", 3)]}
	if zzsym.Bool("schemas") {
		p.tables = append(p.tables, zzTable("sales", "users", zzCol("id", "bigint", "int8")))
	}
	cmd := &GenerateCmd{DB: "db", OutModel: "m", OutSchema: "s"}
	if zzsym.Bool("views") {
		cmd.View = []string{"v"}
	}
	if zzsym.Bool("nodefs") {
		cmd.TypesDef = "missing.yaml"
	}
	k := 0
	at := zzsym.Choose("at", 14)
	zos.Fault = func(op, name string) error {
		if op == "close" {
			return nil
		}
		k++
		if k == at {
			return zos.ErrFault
		}
		return nil
	}
	_, err := zzRun(p, cmd)
	failed := p.fail == "tables" || p.fail == "views" && cmd.View != nil || cmd.TypesDef != "" || at > 0 && at <= k
	zzsym.Assert((err != nil) == failed, "a failure is not reported")
	zzsym.Assert(zos.Opened == 0, "a file stays open")
	zzsym.Reached("end")
}
