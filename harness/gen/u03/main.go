// Command zzgenmain runs the repository's generator on two fixed databases and writes the generated packages to the
// folder that is its argument.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/effective-security/xdb/internal/cli"
	cmd "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/schema"
)

type prov struct {
	name          string
	tables, views schema.Tables
}

func (p *prov) Name() string { return p.name }
func (p *prov) ListTables(context.Context, []string, []string, bool) (schema.Tables, error) {
	return p.tables, nil
}
func (p *prov) ListViews(context.Context, []string, []string) (schema.Tables, error) {
	return p.views, nil
}
func (p *prov) ListForeignKeys(context.Context, []string, []string) (schema.ForeignKeys, error) {
	return nil, nil
}

func col(name, typ, udt string, null bool) *schema.Column {
	return &schema.Column{Name: name, Type: typ, UdtType: udt, Nullable: null}
}

func table(sch, name string, cols ...*schema.Column) *schema.Table {
	t := &schema.Table{Schema: sch, Name: name, SchemaName: sch + "." + name, Columns: cols}
	for i, c := range cols {
		c.Position = uint32(i + 1)
		c.SchemaName = t.SchemaName + "." + c.Name
	}
	return t
}

func pk(t *schema.Table) *schema.Table {
	t.PrimaryKey = t.Columns[0]
	t.Indexes = schema.Indexes{{Name: "pk_" + t.Name, IsPrimary: true, IsUnique: true, ColumnNames: []string{t.Columns[0].Name}}}
	t.Columns[0].Indexes = t.Indexes
	return t
}

// kinds is a table with two columns of every type, one of them nullable.
func kinds(sch string, types []string) *schema.Table {
	var l []*schema.Column
	for _, t := range types {
		name, typ, udt := "x_"+strings.TrimPrefix(t, "_"), t, t
		switch {
		case sch == "dbo":
			udt = ""
		case t[0] == '_':
			name, typ = "x_list"+t, "ARRAY"
		case strings.HasPrefix(t, "id "):
			name, typ, udt = "some_id", t[3:], t[3:]
		}
		l = append(l, col(name, typ, udt, false), col("n"+name, typ, udt, true))
	}
	return table(sch, "kinds", l...)
}

func main() {
	out := os.Args[1]
	pg := &prov{name: "postgres",
		tables: schema.Tables{
			pk(table("public", "orgs",
				col("id", "bigint", "int8", false),
				col("parent_id", "bigint", "int8", true),
				col("name", "character varying", "varchar", false),
				col("email", "character varying", "varchar", true),
				col("seats", "integer", "int4", false),
				col("quota", "integer", "int4", true),
				col("total", "bigint", "int8", false),
				col("active", "boolean", "bool", false),
				col("hidden", "boolean", "bool", true),
				col("score", "double precision", "float8", false),
				col("rate", "numeric", "numeric", true),
				col("created_at", "timestamp with time zone", "timestamptz", false),
				col("updated_at", "timestamp with time zone", "timestamptz", true),
				col("ref", "uuid", "uuid", true),
				col("data", "bytea", "bytea", true),
				col("meta", "jsonb", "jsonb", true),
				col("tags", "ARRAY", "_text", true),
				col("member_ids", "ARRAY", "_int8", true),
			)),
			table("public", "roles", col("id", "bigint", "int8", false), col("name", "text", "text", false)),
		},
	}
	pg.tables = append(pg.tables, kinds("public", []string{"int2", "int4", "int8", "numeric", "float4", "float8", "bool", "jsonb", "bytea", "bpchar", "text", "varchar",
		"cidr", "inet", "ltree", "time", "date", "timestamp", "timestamptz", "uuid", "_int8", "_text", "_varchar", "id int4"}))
	v := table("public", "org_names", col("name", "text", "text", true), col("org_id", "bigint", "int8", true))
	v.IsView = true
	pg.views = schema.Tables{v}
	ms := &prov{name: "sqlserver",
		tables: schema.Tables{
			pk(table("dbo", "Orders",
				col("OrderID", "bigint", "", false),
				col("LineId", "int", "", true),
				col("Kind", "tinyint", "", false),
				col("Code", "smallint", "", true),
				col("Title", "nvarchar", "", true),
				col("Open", "bit", "", false),
				col("Price", "decimal", "", true),
				col("Key", "uniqueidentifier", "", false),
				col("Since", "datetime2", "", true),
			)),
		},
	}
	ms.tables = append(ms.tables, kinds("dbo", []string{"bigint", "int", "smallint", "tinyint", "decimal", "real", "bit", "nchar", "nvarchar", "char", "varchar", "date", "datetime", "datetime2", "uniqueidentifier"}))
	od := &prov{name: "postgres", tables: schema.Tables{
		pk(table("sales", "customers", col("id", "bigint", "int8", false), col("custom", "integer", "int4", false), col("junk", "text", "text", false), col("row_count", "integer", "int4", false),
			col("_since", "timestamp with time zone", "timestamptz", true), col("type", "text", "text", true))),
		table("sales", "addresses", col("org_id", "bigint", "int8", false), col("junk", "text", "text", true), col("city", "text", "text", true)),
	}}
	defs := filepath.Join(out, "defs.yaml")
	if err := os.WriteFile(defs, []byte("with_cached_props:\n  - public.roles\n"), 0o644); err != nil {
		panic(err)
	}
	const base = "github.com/effective-security/xdb/"
	for i, p := range []*prov{pg, ms, od} {
		n := []string{"zzpg", "zzms", "zzod"}[i]
		if p == od {
			const odDefs = "tables:\n  sales.customers: Client\nfields:\n  sales.customers.custom: Special\ntypes:\n  custom: xdb.Int64\n  sales.addresses.city: \"*string\"\n  _count: uint32\nwith_cached_props: [sales.addresses]\ndrop_columns: [junk]\n"
			if err := os.WriteFile(defs, []byte(odDefs), 0o644); err != nil {
				panic(err)
			}
		}
		g := &cmd.GenerateCmd{DB: "my_db", View: []string{"v"},
			OutModel: filepath.Join(out, n+"model"), OutSchema: filepath.Join(out, n+"schema"),
			Imports:  []string{base + "internal/" + n + "schema", base + "xsql"},
			TypesDef: defs}
		if p == od {
			g.UseSchema, g.StructSuffix, g.PkgModel = true, "row", "rows"
		}
		c := &cli.Cli{}
		c.WithSchemaProvider(p)
		if err := g.Run(c); err != nil {
			fmt.Fprintln(os.Stderr, "generator:", err)
			os.Exit(3)
		}
	}
}
