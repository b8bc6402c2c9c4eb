package schema

import (
	"bytes"
	"encoding/json"
	"strconv"

	"github.com/effective-security/xdb/internal/cli"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

func zzTables(label string) schema.Tables {
	var res schema.Tables
	for k := zzsym.Choose(label, 3); k > 0; k-- {
		res = append(res, &schema.Table{Schema: "s" + []string{"a", "b"}[k%2], Name: label + string(rune('0'+k)), Columns: schema.Columns{{Name: "c", Type: "int"}}})
	}
	return res
}

// The listing commands print what the schema provider lists, once, and report its failures.
func ZZU02_Commands() {
	p := &zzProv{tables: zzTables("t"), views: zzTables("v")}
	p.fail = []string{"", "tables", "views", "keys"}[zzsym.Choose("fail", 4)]
	for k := zzsym.Choose("keys", 3); k > 0; k-- {
		p.keys = append(p.keys, &schema.ForeignKey{Name: "fk" + string(rune('0'+k))})
	}
	format := []string{"json", "yaml", "table"}[zzsym.Choose("format", 3)]
	views := zzsym.Bool("views")
	schemas, names := [][]string{nil, {"sa"}}[zzsym.Choose("schemas", 2)], [][]string{nil, {"x", "sa.y"}}[zzsym.Choose("names", 2)]
	out := &bytes.Buffer{}
	c := (&cli.Cli{O: format}).WithWriter(out)
	c.WithSchemaProvider(p)
	var err error
	var want schema.Tables
	cmd := zzsym.Choose("command", 4)
	failed := false
	switch cmd {
	case 0: // columns
		if format == "table" {
			return // in pkg/print
		}
		deps := zzsym.Bool("deps")
		err = (&PrintColumnsCmd{DB: "d", Schema: schemas, Table: names, Views: views, Dependencies: deps}).Run(c)
		zzsym.Assert(p.deps == deps, "dependencies")
		want = p.tables
		if views && len(p.views) > 0 {
			// two documents: tables, then views
			if p.fail == "" {
				a := zzDecode(format, out, len(p.tables), len(p.views))
				zzEqual(a, append(append(schema.Tables{}, p.tables...), p.views...))
				zzsym.Assert(err == nil, "a listing fails")
				zzsym.Reached("columns with views")
			}
			want = nil
		}
		failed = p.fail == "tables" || views && p.fail == "views"
	case 1: // tables
		err = (&PrintTablesCmd{DB: "d", Schema: schemas, Table: names, Views: views}).Run(c)
		zzsym.Assert(p.deps, "tables are listed with dependencies")
		want = append(schema.Tables{}, p.tables...)
		if views {
			want = append(want, p.views...)
		}
		failed = p.fail == "tables" || views && p.fail == "views"
	case 2: // views
		err = (&PrintViewsCmd{DB: "d", Schema: schemas, View: names}).Run(c)
		want = p.views
		failed = p.fail == "views"
		p.schemas, p.names = p.vschemas, p.vnames
	case 3:
		if format == "table" {
			return
		}
		err = (&PrintFKCmd{DB: "d", Schema: schemas, Table: names}).Run(c)
		failed = p.fail == "keys"
		if !failed {
			var got schema.ForeignKeys
			if format == "json" {
				zzsym.Assert(json.Unmarshal(out.Bytes(), &got) == nil, "decode")
			} else {
				zzsym.Assert(yaml.Unmarshal(out.Bytes(), &got) == nil, "decode")
			}
			zzsym.Assert(len(got) == len(p.keys), "number of foreign keys")
			for i := range got {
				zzsym.Assert(*got[i] == *p.keys[i], "foreign key")
			}
		}
	}
	zzsym.Assert((err != nil) == failed, "a failure to list is not reported")
	zzsym.Assert(zzSame(p.schemas, schemas) && zzSame(p.names, names), "filters")
	if views && cmd < 2 && p.fail != "tables" {
		zzsym.Assert(zzSame(p.vschemas, schemas) && zzSame(p.vnames, names), "filters of the views")
	}
	if failed || cmd == 3 || want == nil {
		zzsym.Reached("end")
		return
	}
	if format == "table" {
		s := ""
		for _, t := range want {
			s += t.Schema + "." + t.Name + "\n"
		}
		zzsym.Assert(out.String() == s, "the listing does not list the tables")
	} else {
		zzEqual(zzDecode(format, out, len(want)), want)
	}
	zzsym.Reached("end")
}

// Large databases: 60 tables and 40 views or 60 foreign keys, in every format.
func ZZU02_LargeCommands() {
	p := &zzProv{}
	for i := 0; i < 60; i++ {
		n := strconv.Itoa(i)
		p.tables = append(p.tables, &schema.Table{Schema: "s" + strconv.Itoa(i%7), Name: "table_" + n, Columns: schema.Columns{{Name: "c", Type: "int"}}})
		if i < 40 {
			p.views = append(p.views, &schema.Table{Schema: "v" + strconv.Itoa(i%7), Name: "view_" + n, IsView: true, Columns: schema.Columns{{Name: "c", Type: "int"}}})
		}
		p.keys = append(p.keys, &schema.ForeignKey{Name: "fk" + n, Schema: "s", Table: "table_" + n, Column: "c", RefSchema: "s", RefTable: "table_0", RefColumn: "c"})
	}
	format := []string{"json", "yaml", "table"}[zzsym.Choose("format", 3)]
	out := &bytes.Buffer{}
	c := (&cli.Cli{O: format}).WithWriter(out)
	c.WithSchemaProvider(p)
	var err error
	var want schema.Tables
	switch zzsym.Choose("command", 3) {
	case 0:
		views := zzsym.Bool("views")
		err = (&PrintTablesCmd{DB: "d", Views: views}).Run(c)
		want = append(want, p.tables...)
		if views {
			want = append(want, p.views...)
		}
	case 1:
		err = (&PrintViewsCmd{DB: "d"}).Run(c)
		want = p.views
	case 2:
		if format == "table" {
			return
		}
		err = (&PrintFKCmd{DB: "d"}).Run(c)
		var got schema.ForeignKeys
		if format == "json" {
			zzsym.Assert(json.Unmarshal(out.Bytes(), &got) == nil, "decode")
		} else {
			zzsym.Assert(yaml.Unmarshal(out.Bytes(), &got) == nil, "decode")
		}
		zzsym.Assert(err == nil && len(got) == 60, "number of foreign keys")
		for i := range got {
			zzsym.Assert(*got[i] == *p.keys[i], "foreign key")
		}
		return
	}
	zzsym.Assert(err == nil, "a listing fails")
	if format == "table" {
		s := ""
		for _, t := range want {
			s += t.Schema + "." + t.Name + "\n"
		}
		zzsym.Assert(out.String() == s, "the listing does not list the tables")
	} else {
		zzEqual(zzDecode(format, out, len(want)), want)
	}
	zzsym.Reached("end")
}

// zzDecode decodes the lists one after the other.
func zzDecode(format string, out *bytes.Buffer, sizes ...int) schema.Tables {
	var res schema.Tables
	b := out.Bytes()
	if format == "yaml" {
		// lists printed one after the other make one list, unless the first is empty
		if sizes[0] == 0 && len(sizes) > 1 {
			zzsym.Assert(bytes.HasPrefix(b, []byte("[]\n")), "an empty list")
			b = b[3:]
		}
		zzsym.Assert(yaml.Unmarshal(b, &res) == nil, "decode")
		return res
	}
	for range sizes {
		// a document ends with a line that closes it
		end := 0
		for end < len(b) && !((end == 0 || b[end-1] == '\n') && (b[end] == ']' || b[end] == 'n' || b[end] == '[' && b[end+1] == ']')) {
			end++
		}
		for end < len(b) && b[end] != '\n' {
			end++
		}
		var part schema.Tables
		zzsym.Assert(json.Unmarshal(b[:end], &part) == nil, "decode")
		res = append(res, part...)
		b = b[min(end+1, len(b)):]
	}
	zzsym.Assert(len(b) == 0, "more is printed")
	return res
}

func zzEqual(got, want schema.Tables) {
	zzsym.Assert(len(got) == len(want), "number of tables")
	for i, t := range want {
		zzsym.Assert(got[i].Schema == t.Schema && got[i].Name == t.Name && len(got[i].Columns) == 1, "table")
	}
}
