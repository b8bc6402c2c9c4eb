package schema

import (
	"context"
	"database/sql/driver"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/zzdrv"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/effective-security/xdb/schema"
	"github.com/lib/pq"
)

// what a column type holds
const (
	zzInt = iota
	zzFloat
	zzBool
	zzText
	zzBytes
	zzTime
	zzUUID
)

type zzType struct {
	name   string
	kind   int
	lo, hi int64 // zzInt
	single bool  // zzFloat
}

var zzTypes = []zzType{
	{name: "bigint", kind: zzInt, lo: -1 << 63, hi: 1<<63 - 1},
	{name: "int8", kind: zzInt, lo: -1 << 63, hi: 1<<63 - 1},
	{name: "int", kind: zzInt, lo: -1 << 31, hi: 1<<31 - 1},
	{name: "int4", kind: zzInt, lo: -1 << 31, hi: 1<<31 - 1},
	{name: "smallint", kind: zzInt, lo: -1 << 15, hi: 1<<15 - 1},
	{name: "int2", kind: zzInt, lo: -1 << 15, hi: 1<<15 - 1},
	{name: "tinyint", kind: zzInt, lo: 0, hi: 255}, // SQL Server
	{name: "decimal", kind: zzFloat},
	{name: "numeric", kind: zzFloat},
	{name: "float8", kind: zzFloat},
	{name: "real", kind: zzFloat, single: true},
	{name: "float4", kind: zzFloat, single: true},
	{name: "bool", kind: zzBool},
	{name: "boolean", kind: zzBool},
	{name: "bit", kind: zzBool}, // SQL Server
	{name: "jsonb", kind: zzText},
	{name: "nchar", kind: zzText},
	{name: "nvarchar", kind: zzText},
	{name: "char", kind: zzText},
	{name: "varchar", kind: zzText},
	{name: "bpchar", kind: zzText},
	{name: "text", kind: zzText},
	{name: "cidr", kind: zzText},
	{name: "inet", kind: zzText},
	{name: "ltree", kind: zzText},
	{name: "bytea", kind: zzBytes},
	{name: "time", kind: zzTime},
	{name: "date", kind: zzTime},
	{name: "datetime", kind: zzTime},
	{name: "datetime2", kind: zzTime},
	{name: "timestamp", kind: zzTime},
	{name: "timestamptz", kind: zzTime},
	{name: "uniqueidentifier", kind: zzUUID},
	{name: "uuid", kind: zzUUID},
}

func zzGoType(c *schema.Column) (res string, refused bool) {
	defer func() {
		if r := recover(); r != nil {
			refused = true
		}
	}()
	return toGoType(c), false
}

// zzScan reads one value from a query the way generated code does.
func zzScan(v driver.Value, dst any) error {
	d := &zzdrv.DB{Answer: func(string, []any) zzdrv.Table {
		return zzdrv.Table{Cols: []string{"c"}, Rows: [][]driver.Value{{v}}}
	}}
	db := d.Open()
	defer db.Close()
	return db.QueryRowContext(context.Background(), "SELECT").Scan(dst)
}

func zzIsID(name string) bool {
	n := len(name)
	return n >= 2 && (name[n-2] == 'i' || name[n-2] == 'I') && (name[n-1] == 'd' || name[n-1] == 'D')
}

// zzHolds scans every value of the column type (or NULL) into a field of the generated type.
func zzHolds(goType string, t zzType, null, id bool) {
	fail := func(err error) { zzsym.Assert(err == nil, "a value of "+t.name+" does not fit "+goType) }
	if t.kind == zzInt {
		lo := t.lo
		if id && lo < 0 {
			lo = 0 // identifiers are not negative
		}
		var v int64
		var in driver.Value
		if !null {
			v = zzsym.I64("v")
			zzsym.Assume(zzsym.And(v >= lo, v <= t.hi))
			in = v
		}
		var got int64
		switch goType {
		case "int64":
			var x int64
			fail(zzScan(in, &x))
			got = x
		case "int32":
			var x int32
			fail(zzScan(in, &x))
			got = int64(x)
		case "int16":
			var x int16
			fail(zzScan(in, &x))
			got = int64(x)
		case "int8":
			var x int8
			fail(zzScan(in, &x))
			got = int64(x)
		case "uint8":
			var x uint8
			fail(zzScan(in, &x))
			got = int64(x)
		case "uint16":
			var x uint16
			fail(zzScan(in, &x))
			got = int64(x)
		case "uint32":
			var x uint32
			fail(zzScan(in, &x))
			got = int64(x)
		case "int":
			var x int
			fail(zzScan(in, &x))
			got = int64(x)
		case "xdb.Int64":
			var x xdb.Int64
			fail(zzScan(in, &x))
			got = int64(x)
		case "xdb.Int32":
			var x xdb.Int32
			fail(zzScan(in, &x))
			got = int64(x)
		case "xdb.ID":
			var x xdb.ID
			fail(zzScan(in, &x))
			got = int64(x.UInt64())
		case "xdb.ID32":
			var x xdb.ID32
			fail(zzScan(in, &x))
			got = int64(uint32(x))
		default:
			zzOther(goType, t)
		}
		zzsym.Assert(got == v, "a value of "+t.name+" changes in "+goType)
		return
	}
	switch t.kind {
	case zzFloat:
		vals := []float64{0, -1.5, 3.25, 16777217, 1e300, -9007199254740991}
		if t.single {
			vals = []float64{0, -1.5, 3.25, 16777216, 1 << 100}
		}
		var v float64
		var in driver.Value
		if !null {
			v = vals[zzsym.Choose("v", len(vals))]
			in = v
		}
		var got float64
		switch goType {
		case "float64":
			var x float64
			fail(zzScan(in, &x))
			got = x
		case "float32":
			var x float32
			fail(zzScan(in, &x))
			got = float64(x)
		case "xdb.Float":
			var x xdb.Float
			fail(zzScan(in, &x))
			got = float64(x)
		default:
			zzOther(goType, t)
		}
		zzsym.Assert(got == v, "a value of "+t.name+" changes in "+goType)
	case zzBool:
		var v bool
		var in driver.Value
		if !null {
			v = zzsym.Bool("v")
			in = v
		}
		var got bool
		switch goType {
		case "bool":
			fail(zzScan(in, &got))
		case "xdb.Bool":
			var x xdb.Bool
			fail(zzScan(in, &x))
			got = bool(x)
		default:
			zzOther(goType, t)
		}
		zzsym.Assert(got == v, "a value of "+t.name+" changes in "+goType)
	case zzText, zzBytes:
		var v string
		var in driver.Value
		if !null {
			v = zzsym.Str("v", zzsym.Choose("len", 3))
			if t.kind == zzBytes || zzsym.Bool("raw") {
				in = []byte(v)
			} else {
				in = v
			}
		}
		var got string
		switch goType {
		case "string":
			fail(zzScan(in, &got))
		case "xdb.NULLString":
			var x xdb.NULLString
			fail(zzScan(in, &x))
			got = string(x)
		case "[]byte":
			var x []byte
			fail(zzScan(in, &x))
			got = string(x)
		default:
			zzOther(goType, t)
		}
		zzsym.Assert(got == v, "a value of "+t.name+" changes in "+goType)
	case zzTime:
		var v time.Time
		var in driver.Value
		if !null {
			v = time.Unix(int64(zzsym.IntRange("sec", -(1<<36), 1<<36)), 0).UTC()
			in = v
		}
		switch goType {
		case "xdb.Time":
			var x xdb.Time
			fail(zzScan(in, &x))
			zzsym.Assert(time.Time(x).Equal(v), "a value of "+t.name+" changes in "+goType)
		case "time.Time":
			var x time.Time
			fail(zzScan(in, &x))
			zzsym.Assert(x.Equal(v), "a value of "+t.name+" changes in "+goType)
		default:
			zzOther(goType, t)
		}
	case zzUUID:
		var want string
		var in driver.Value
		if !null {
			if t.name == "uuid" { // Postgres delivers text
				want = "30313233-3435-3637-3839-616263646566"
				in = []byte(want)
			} else {
				in, want = []byte("0123456789abcdef"), "33323130-3534-3736-3839-616263646566"
			}
		}
		switch goType {
		case "xdb.UUID":
			var x xdb.UUID
			fail(zzScan(in, &x))
			zzsym.Assert(string(x) == want, "a value of "+t.name+" changes in "+goType)
		default:
			zzOther(goType, t)
		}
	}
}

func zzOther(goType string, t zzType) {
	switch goType {
	case "string", "xdb.NULLString", "[]byte", "xdb.UUID", "xdb.Time", "bool", "xdb.Bool", "float32", "float64", "xdb.Float",
		"int8", "int16", "int32", "int64", "xdb.Int32", "xdb.Int64", "xdb.ID", "xdb.ID32", "xdb.IDArray", "pq.Int64Array", "pq.StringArray":
		zzsym.Assert(false, goType+" is not of the kind of "+t.name)
	}
	zzsym.Unsupported("field type " + goType)
}

// Every type name, nullability and (short) column name: the field holds every value of the column.
func ZZG01_Fields() {
	t := zzTypes[zzsym.Choose("type", len(zzTypes))]
	c := &schema.Column{Nullable: zzsym.Bool("nullable"), Position: zzsym.U32("pos"), MaxLength: zzsym.U32("max")}
	switch zzsym.Choose("name", 6) {
	case 0:
		c.Name = zzsym.Str("n", zzsym.Choose("nlen", 4))
	case 1:
		c.Name = "id"
	case 2:
		c.Name = zzsym.Str("n", 1) + "_id"
	case 3:
		c.Name = zzsym.Str("n", 1) + "Id"
	case 4:
		c.Name = zzsym.Str("n", 1) + "ID"
	case 5:
		c.Name = zzsym.Str("n", 1) + "_count"
	}
	if zzsym.Bool("udt") {
		c.UdtType = t.name
		c.Type = "something else"
	} else {
		c.Type = t.name
	}
	if zzsym.Bool("owner") {
		c.SchemaName = "s.t." + c.Name
	}
	got, refused := zzGoType(c)
	zzsym.Assert(!refused, t.name+" is refused")
	cc := *c
	again, _ := zzGoType(&cc)
	zzsym.Assert(again == got, "the choice is not determined by the column")
	id := got == "xdb.ID" || got == "xdb.ID32"
	if id {
		zzsym.Assert(zzIsID(c.Name), "a column that is no identifier gets an identifier type")
	}
	if k := zzsym.Choose("null", 2); k == 1 {
		zzsym.Assume(c.Nullable)
		zzHolds(got, t, true, id)
	} else {
		zzHolds(got, t, false, id)
	}
	zzsym.Reached("end")
}

// Identifier columns.
func ZZG01_Identifiers() {
	name := []string{"id", "ID", "Id", "user_id", "userId", "userID", "_id"}[zzsym.Choose("name", 7)]
	wide := zzsym.Bool("wide")
	typ := []string{"int", "int4"}[zzsym.Choose("typ", 2)]
	want := "xdb.ID32"
	if wide {
		typ = []string{"bigint", "int8"}[zzsym.Choose("typ", 2)]
		want = "xdb.ID"
	}
	c := &schema.Column{Name: name, Nullable: zzsym.Bool("nullable"), MaxLength: zzsym.U32("max")}
	if zzsym.Bool("udt") {
		c.UdtType = typ
	} else {
		c.Type = typ
	}
	got, refused := zzGoType(c)
	zzsym.Assert(!refused && got == want, "identifier of "+typ)
	zzsym.Reached("end")
}

// Array columns: integers and texts; anything else is refused.
func ZZG01_Arrays() {
	c := &schema.Column{Type: "ARRAY", Nullable: zzsym.Bool("nullable")}
	c.Name = zzsym.Str("n", 1) + []string{"", "_id", "_ids", "ids", "_idss"}[zzsym.Choose("name", 5)]
	null := c.Nullable && zzsym.Choose("null", 2) == 1
	switch zzsym.Choose("type", 3) {
	case 0:
		c.UdtType = "_int8"
		got, refused := zzGoType(c)
		zzsym.Assert(!refused, "_int8 is refused")
		var in driver.Value
		want := []int64{}
		if !null {
			in, want = []byte("{1,922337203685477580,37}"), []int64{1, 922337203685477580, 37}
		}
		var x []int64
		switch got {
		case "pq.Int64Array":
			var a pq.Int64Array
			zzsym.Assert(zzScan(in, &a) == nil, "array of numbers")
			x = a
		case "xdb.IDArray":
			var a xdb.IDArray
			zzsym.Assert(zzScan(in, &a) == nil, "array of identifiers")
			for _, v := range a {
				x = append(x, int64(v.UInt64()))
			}
			zzsym.Assert(zzIsID(c.Name) || len(c.Name) > 2 && c.Name[len(c.Name)-1] == 's' && zzIsID(c.Name[:len(c.Name)-1]), "a column of numbers gets an identifier type")
		default:
			zzOther(got, zzType{name: "_int8"})
		}
		zzsym.Assert(len(x) == len(want), "length of the array")
		for i := range want {
			zzsym.Assert(x[i] == want[i], "element of the array")
		}
	case 1:
		c.UdtType = []string{"_text", "_varchar"}[zzsym.Choose("text", 2)]
		got, refused := zzGoType(c)
		zzsym.Assert(!refused, c.UdtType+" is refused")
		var in driver.Value
		want := []string{}
		if !null {
			in, want = []byte(`{a,"b c",""}`), []string{"a", "b c", ""}
		}
		if got != "pq.StringArray" {
			zzOther(got, zzType{name: c.UdtType})
		}
		var a pq.StringArray
		zzsym.Assert(zzScan(in, &a) == nil, "array of texts")
		zzsym.Assert(len(a) == len(want), "length of the array")
		for i := range want {
			zzsym.Assert(a[i] == want[i], "element of the array")
		}
	default:
		c.UdtType = []string{"", "_int4", "_bool", "_numeric", "_uuid", "_bytea", "_timestamptz", "int8", "text"}[zzsym.Choose("other", 9)]
		got, refused := zzGoType(c)
		// an element type may become supported, but not as something else
		zzsym.Assert(refused || got != "pq.Int64Array" && got != "pq.StringArray" && got != "xdb.IDArray" && got != "[]", "an array of "+c.UdtType+" becomes "+got)
	}
	zzsym.Reached("end")
}

var zzReal = []string{"json", "xml", "oid", "name", "money", "_int8"}

// A type that does not exist is refused, whatever the column is called.
func ZZG01_Unknown() {
	n := 1 + zzsym.Choose("len", 4)
	typ := zzsym.Str("type", n)
	for _, t := range zzTypes {
		if len(t.name) == n {
			zzsym.Assume(typ != t.name)
		}
	}
	for _, t := range zzReal {
		if len(t) == n {
			zzsym.Assume(typ != t)
		}
	}
	c := &schema.Column{Name: []string{"", "a", "id", "x_id", "x_count", "x_ids"}[zzsym.Choose("name", 6)], Nullable: zzsym.Bool("nullable")}
	switch zzsym.Choose("where", 3) {
	case 0:
		c.Type = typ
	case 1:
		c.UdtType = typ
	default:
		c.Type, c.UdtType = "bigint", typ
	}
	_, refused := zzGoType(c)
	zzsym.Assert(refused, "a type that does not exist is not refused")
	zzsym.Reached("end")
}

// Overrides by column name, by qualified name and for counters apply to exactly those columns.
func ZZG01_Overrides() {
	cols := schema.Columns{
		{Name: "meta", Type: "jsonb", UdtType: "jsonb"},
		{Name: "x_count", Type: "integer", UdtType: "int4", Nullable: zzsym.Bool("nullcount")},
		{Name: "y_count", Type: "bigint", UdtType: "int8"},
		{Name: "z_counter", Type: "integer", UdtType: "int4"},
		{Name: "m" + zzLetters("name", 1), Type: "text", UdtType: "text"},
	}
	a := zzTable("public", "orgs", cols...)
	b := zzTable("public", "users", &schema.Column{Name: "meta", Type: "jsonb", UdtType: "jsonb"}, &schema.Column{Name: "id", Type: "bigint", UdtType: "int8"})
	y := "types:\n"
	over := map[string]string{}
	switch zzsym.Choose("meta", 3) {
	case 1:
		y += "  meta: xdb.Metadata\n"
		over["public.orgs.meta"], over["public.users.meta"] = "xdb.Metadata", "xdb.Metadata"
	case 2:
		y += "  public.users.meta: xdb.Metadata\n"
		over["public.users.meta"] = "xdb.Metadata"
	}
	if zzsym.Bool("counters") {
		y += "  _count: uint32\n"
		if !cols[1].Nullable {
			over["public.orgs.x_count"] = "uint32"
		}
	}
	if zzsym.Bool("id") {
		y += "  public.users.id: xdb.Int64\n"
		over["public.users.id"] = "xdb.Int64"
	}
	cmd := &GenerateCmd{DB: "db", PkgModel: "m", PkgSchema: "s", TypesDef: zzDefs(y)}
	if len(over) == 0 && zzsym.Bool("nofile") {
		cmd.TypesDef = ""
	}
	m, _ := zzOne(&zzProv{tables: schema.Tables{a, b}}, cmd)
	def := []string{"xdb.NULLString", "int32", "int64", "int32", "string", "xdb.NULLString", "xdb.ID"}
	if cols[1].Nullable {
		def[1] = "xdb.Int32"
	}
	zzsym.Assert(len(m.models) == 2 && len(m.models[0].fields) == 5 && len(m.models[1].fields) == 2, "models")
	for i, c := range append(append(schema.Columns{}, a.Columns...), b.Columns...) {
		md := m.models[0]
		k := i
		if i >= 5 {
			md, k = m.models[1], i-5
		}
		want := def[i]
		if o := over[c.SchemaName]; i != 4 && o != "" {
			want = o
		}
		zzsym.Assert(md.fields[k].typ == want, "type of a column")
	}
	zzsym.Reached("end")
}
