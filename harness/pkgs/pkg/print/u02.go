package print

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"

	"github.com/effective-security/xdb/internal/zzsym"
	tablewriter "github.com/effective-security/xdb/internal/zztable"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

func zzMax() int {
	if zzsym.Thorough() {
		return 3
	}
	return 2
}

func zzText(label string, lo, hi int) string {
	return zzsym.Str(label, lo+zzsym.Choose(label+".len", hi-lo+1))
}

func zzRow(got []string, want ...string) {
	zzsym.Assert(len(got) == len(want), "number of cells")
	for i := range want {
		zzsym.Assert(got[i] == want[i], "cell "+strconv.Itoa(i))
	}
}

func zzYes(b bool) string {
	if b {
		return "YES"
	}
	return ""
}

// the rendered tables of one printing, in order, all to the same writer
func zzPrint(format string, v any) (string, []*tablewriter.Table) {
	tablewriter.Rendered = nil
	w := &bytes.Buffer{}
	zzsym.Assert(Object(w, format, v) == nil, "printing fails")
	return w.String(), tablewriter.Rendered
}

func zzIndex() *schema.Index {
	ix := &schema.Index{Name: zzText("ixname", 0, 1), IsPrimary: zzsym.Bool("primary"), IsUnique: zzsym.Bool("unique")}
	for n := zzsym.Choose("ixcols", zzMax()+1); n > 0; n-- {
		ix.ColumnNames = append(ix.ColumnNames, zzText("ixcol", 1, 1))
	}
	return ix
}

func zzIndexRow(got []string, ix *schema.Index) {
	cols := ""
	for i, c := range ix.ColumnNames {
		if i > 0 {
			cols += ", "
		}
		cols += c
	}
	zzRow(got, ix.Name, zzYes(ix.IsPrimary), zzYes(ix.IsUnique), cols)
}

func zzColumn() *schema.Column {
	c := &schema.Column{
		Name: zzText("name", 0, 2), Type: zzText("type", 0, 1), UdtType: zzText("udt", 0, 1),
		Nullable: zzsym.Bool("null"), MaxLength: zzsym.U32("max"), Position: zzsym.U32("pos"),
	}
	if zzsym.Bool("indexed") {
		c.Indexes = schema.Indexes{{Name: "i"}}
	}
	if zzsym.Bool("fk") {
		c.Ref = &schema.ForeignKey{Name: "f", Schema: "s", Table: "t", Column: "c", RefSchema: zzText("rs", 1, 1), RefTable: zzText("rt", 1, 1), RefColumn: zzText("rc", 1, 1)}
	}
	return c
}

func zzColumnRow(got []string, c *schema.Column) {
	max, ref := "", ""
	if c.MaxLength > 0 {
		max = strconv.FormatUint(uint64(c.MaxLength), 10)
	}
	if c.Ref != nil {
		ref = c.Ref.RefSchema + "." + c.Ref.RefTable + "." + c.Ref.RefColumn
	}
	zzRow(got, strconv.FormatUint(uint64(c.Position), 10), c.Name, c.Type, c.UdtType, zzYes(c.Nullable), max, zzYes(len(c.Indexes) > 0), ref)
}

// One column, every attribute: the row shows it all.
func ZZU02_Column() {
	c := zzColumn()
	t := &schema.Table{Schema: "s", Name: "t", Columns: schema.Columns{c}}
	_, r := zzPrint("table", t)
	zzsym.Assert(len(r) == 1 && len(r[0].Rows) == 1, "one row")
	zzRow(r[0].Head, "Ord", "Name", "Type", "UDT", "NULL", "Max", "Index", "Ref")
	zzColumnRow(r[0].Rows[0], c)
	zzsym.Reached("end")
}

// One index, every attribute.
func ZZU02_Index() {
	ix := zzIndex()
	out, r := zzPrint("", schema.Indexes{ix})
	zzsym.Assert(len(r) == 1 && len(r[0].Rows) == 1, "one row")
	zzRow(r[0].Head, "Name", "Primary", "Unique", "Columns")
	zzIndexRow(r[0].Rows[0], ix)
	zzShown(out, 0, r[0])
	zzsym.Reached("end")
}

// Several tables with several columns and indexes: everything is there once, in order.
func ZZU02_Tables() {
	var list schema.Tables
	n := zzsym.Choose("tables", zzMax()+1)
	for i := 0; i < n; i++ {
		t := &schema.Table{Schema: zzText("schema", 1, 1), Name: zzText("tname", 1, 1), IsView: zzsym.Bool("view")}
		for k := zzsym.Choose("columns", zzMax()+1); k > 0; k-- {
			t.Columns = append(t.Columns, &schema.Column{Name: zzsym.Str("name", 1), Type: zzsym.Str("type", 1), UdtType: zzsym.Str("udt", 1), Position: uint32(zzsym.Choose("pos", 2)), Nullable: zzsym.Bool("null")})
		}
		for k := zzsym.Choose("indexes", zzMax()+1); k > 0; k-- {
			t.Indexes = append(t.Indexes, &schema.Index{Name: zzsym.Str("ixname", 1), ColumnNames: []string{zzsym.Str("ixcol", 1)}})
		}
		list = append(list, t)
	}
	var v any = list
	if n == 1 && zzsym.Bool("single") {
		v = list[0]
	}
	out, r := zzPrint("table", v)
	zzListed(list, out, r)
	zzsym.Reached("end")
}

// zzListed asserts that the listing shows exactly the tables.
func zzListed(list schema.Tables, out string, r []*tablewriter.Table) {
	k, pos := 0, 0
	for _, t := range list {
		head := "Schema: " + t.Schema + "\nTable: " + t.Name + "\n"
		zzsym.Assert(len(out) >= pos+len(head) && out[pos:pos+len(head)] == head, "heading of the table")
		zzsym.Assert(k < len(r) && len(r[k].Rows) == len(t.Columns), "one row per column")
		for i, c := range t.Columns {
			zzColumnRow(r[k].Rows[i], c)
		}
		k++
		pos += len(head)
		pos = zzShown(out, pos+1, r[k-1]) // an empty line below the heading
		if len(t.Indexes) > 0 {
			zzsym.Assert(k < len(r) && len(r[k].Rows) == len(t.Indexes), "one row per index")
			for i, ix := range t.Indexes {
				zzIndexRow(r[k].Rows[i], ix)
			}
			pos += len("\nIndexes:\n")
			pos = zzShown(out, pos, r[k])
			k++
		}
		pos++
	}
	zzsym.Assert(k == len(r), "more tables than there are")
	zzsym.Assert(pos == len(out), "length of the listing")
}

// zzLarge makes a text of up to 110 bytes that ends with two of any value.
func zzLarge(label string) string {
	return strings.Repeat("abcdefghij", zzsym.Choose(label+".len", 2)*11) + zzsym.Str(label, 2)
}

// A large listing: a table of 60 columns and 12 indexes of 20 columns each among 20 small ones, with long names, and
// 60 foreign keys: every row is printed in full, in order.
func ZZU02_Large() {
	if zzsym.Bool("keys") {
		var list schema.ForeignKeys
		long := zzLarge("x")
		for i := 0; i < 60; i++ {
			k := &schema.ForeignKey{Name: zzsym.Str("n", 1), Schema: "s", Table: long, Column: zzsym.Str("c", 1), RefSchema: long, RefTable: zzsym.Str("rt", 1), RefColumn: long}
			list = append(list, k)
		}
		out, r := zzPrint("table", list)
		zzsym.Assert(len(r) == 1 && len(r[0].Rows) == 60, "one row per foreign key")
		for i, k := range list {
			zzRow(r[0].Rows[i], k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn)
		}
		zzShown(out, 0, r[0])
		return
	}
	at := []int{0, 10, 20}[zzsym.Choose("at", 3)]
	long := zzLarge("x")
	var list schema.Tables
	for i := 0; i <= 20; i++ {
		t := &schema.Table{Schema: "s", Name: "t" + strconv.Itoa(i), Columns: schema.Columns{{Name: "id", Type: "int", Position: 1}}}
		if i == at {
			t.Schema, t.Name, t.Columns = long, "wide"+long, nil
			for k := 0; k < 60; k++ {
				t.Columns = append(t.Columns, &schema.Column{Name: zzsym.Str("name", 1) + long, Type: long, UdtType: "u" + long, Position: uint32(k), Nullable: k%3 == 0, MaxLength: uint32(k * 1000)})
			}
			t.Columns[40].Ref = &schema.ForeignKey{Name: "f", RefSchema: long, RefTable: long + "t", RefColumn: long + "c"}
			for k := 0; k < 12; k++ {
				ix := &schema.Index{Name: zzsym.Str("ixname", 1) + long}
				for l := 0; l < 20; l++ {
					ix.ColumnNames = append(ix.ColumnNames, "c"+strconv.Itoa(l)+long)
				}
				t.Indexes = append(t.Indexes, ix)
				t.Columns[k*4].Indexes = append(t.Columns[k*4].Indexes, ix)
			}
		}
		list = append(list, t)
	}
	out, r := zzPrint("table", list)
	zzListed(list, out, r)
	zzsym.Reached("end")
}

// zzShown asserts that the table is printed at that position.
func zzShown(out string, pos int, t *tablewriter.Table) int {
	for _, row := range append([][]string{t.Head}, t.Rows...) {
		s := zzLine(row)
		zzsym.Assert(len(out) >= pos+len(s) && out[pos:pos+len(s)] == s, "the table is not printed")
		pos += len(s)
	}
	return pos
}

func zzLine(l []string) string {
	s := "|"
	for _, c := range l {
		s += c + "|"
	}
	return s + "\n"
}

// Foreign keys.
func ZZU02_ForeignKeys() {
	var list schema.ForeignKeys
	for k := zzsym.Choose("keys", zzMax()+1); k > 0; k-- {
		list = append(list, &schema.ForeignKey{Name: zzsym.Str("n", 1), Schema: zzsym.Str("s", 1), Table: zzText("t", 0, 1), Column: zzsym.Str("c", 1), RefSchema: zzsym.Str("rs", 1), RefTable: zzText("rt", 0, 1), RefColumn: zzsym.Str("rc", 1)})
	}
	out, r := zzPrint("table", list)
	zzsym.Assert(len(r) == 1 && len(r[0].Rows) == len(list), "one row per foreign key")
	zzRow(r[0].Head, "Name", "Schema", "Table", "Column", "FK Schema", "FK Table", "FK Column")
	zzShown(out, 0, r[0])
	for i, k := range list {
		zzRow(r[0].Rows[i], k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn)
	}
	zzsym.Reached("end")
}

var zzNames = []string{"a", "_b c", "<é\"", "", "yes", "1"}

func zzName(label string) string { return zzNames[zzsym.Choose(label, len(zzNames))] }

// Listings as JSON and YAML: decoding them gives every item with its attributes.
func ZZU02_Decoded() {
	format := []string{"json", "yaml"}[zzsym.Choose("format", 2)]
	dec := func(s string, v any) {
		var err error
		if format == "json" {
			err = json.Unmarshal([]byte(s), v)
		} else {
			err = yaml.Unmarshal([]byte(s), v)
		}
		zzsym.Assert(err == nil, "the listing does not decode")
	}
	name := zzName("name")
	if zzsym.Bool("foreign") {
		var list, got schema.ForeignKeys
		for k := zzsym.Choose("keys", zzMax()+1); k > 0; k-- {
			list = append(list, &schema.ForeignKey{Name: name, Schema: "s", Table: "t", Column: "c", RefSchema: "rs", RefTable: "rt", RefColumn: name + "r"})
		}
		out, _ := zzPrint(format, list)
		dec(out, &got)
		zzsym.Assert(len(got) == len(list), "number of foreign keys")
		for i := range list {
			zzsym.Assert(*got[i] == *list[i], "foreign key")
		}
		zzsym.Reached("keys")
		return
	}
	var list, got schema.Tables
	for k := zzsym.Choose("tables", 2+1); k > 0; k-- {
		t := &schema.Table{Schema: "s", Name: name, Type: "r", IsView: k == 2}
		if k == 1 {
			c := &schema.Column{Name: name, Type: "int", UdtType: "int4", Nullable: zzsym.Bool("null"), MaxLength: uint32(zzsym.Choose("max", 2) * 4294967295), Position: 2}
			t.Columns = schema.Columns{{Name: "x", Type: "y", Position: 1}, c}
			t.Indexes = schema.Indexes{{Name: name, IsPrimary: zzsym.Bool("primary"), IsUnique: true, ColumnNames: []string{"x", c.Name}}}
			if zzsym.Bool("pk") {
				t.PrimaryKey = c
			}
		}
		list = append(list, t)
	}
	out, _ := zzPrint(format, list)
	dec(out, &got)
	zzsym.Assert(len(got) == len(list), "number of tables")
	for i, t := range list {
		g := got[i]
		zzsym.Assert(g.Schema == t.Schema && g.Name == t.Name && g.Type == t.Type && g.IsView == t.IsView, "table")
		zzsym.Assert(len(g.Columns) == len(t.Columns) && len(g.Indexes) == len(t.Indexes), "columns and indexes")
		for j, c := range t.Columns {
			d := g.Columns[j]
			zzsym.Assert(d.Name == c.Name && d.Type == c.Type && d.UdtType == c.UdtType && d.Nullable == c.Nullable && d.MaxLength == c.MaxLength && d.Position == c.Position, "column")
		}
		for j, c := range t.Indexes {
			d := g.Indexes[j]
			zzsym.Assert(d.Name == c.Name && d.IsPrimary == c.IsPrimary && d.IsUnique == c.IsUnique && len(d.ColumnNames) == len(c.ColumnNames), "index")
			for l := range c.ColumnNames {
				zzsym.Assert(d.ColumnNames[l] == c.ColumnNames[l], "column of the index")
			}
		}
		zzsym.Assert((g.PrimaryKey == nil) == (t.PrimaryKey == nil) && (g.PrimaryKey == nil || g.PrimaryKey.Name == t.PrimaryKey.Name), "primary key")
	}
	zzsym.Reached("tables")
}

// A large listing as JSON or YAML: 40 tables, one of them with 60 columns and 12 indexes of 20 columns, or 60 foreign
// keys; nothing is lost.
func ZZU02_DecodedLarge() {
	format := []string{"json", "yaml"}[zzsym.Choose("format", 2)]
	dec := func(s string, v any) {
		var err error
		if format == "json" {
			err = json.Unmarshal([]byte(s), v)
		} else {
			err = yaml.Unmarshal([]byte(s), v)
		}
		zzsym.Assert(err == nil, "the listing does not decode")
	}
	long := strings.Repeat("Long_name ", 12*zzsym.Choose("long", 2)) + "x"
	if zzsym.Bool("foreign") {
		var list, got schema.ForeignKeys
		for k := 0; k < 60; k++ {
			list = append(list, &schema.ForeignKey{Name: "k" + strconv.Itoa(k), Schema: "s", Table: long, Column: "c" + strconv.Itoa(k), RefSchema: "rs", RefTable: "rt", RefColumn: long + "r"})
		}
		out, _ := zzPrint(format, list)
		dec(out, &got)
		zzsym.Assert(len(got) == len(list), "number of foreign keys")
		for i := range list {
			zzsym.Assert(*got[i] == *list[i], "foreign key")
		}
		return
	}
	var list, got schema.Tables
	for i := 0; i < 40; i++ {
		t := &schema.Table{Schema: "s", Name: "t" + strconv.Itoa(i), Columns: schema.Columns{{Name: "id", Type: "int", Position: 1}}}
		if i == 30 {
			t.Name, t.Columns = long, nil
			for k := 0; k < 60; k++ {
				t.Columns = append(t.Columns, &schema.Column{Name: "c" + strconv.Itoa(k), Type: long, UdtType: "u", Position: uint32(k + 1), MaxLength: uint32(k)})
			}
			for k := 0; k < 12; k++ {
				ix := &schema.Index{Name: "i" + strconv.Itoa(k)}
				for l := 0; l < 20; l++ {
					ix.ColumnNames = append(ix.ColumnNames, "c"+strconv.Itoa(l))
				}
				t.Indexes = append(t.Indexes, ix)
			}
		}
		list = append(list, t)
	}
	out, _ := zzPrint(format, list)
	dec(out, &got)
	zzsym.Assert(len(got) == 40, "number of tables")
	for i, t := range list {
		g := got[i]
		zzsym.Assert(g.Name == t.Name && len(g.Columns) == len(t.Columns) && len(g.Indexes) == len(t.Indexes), "table")
		for j, c := range t.Columns {
			zzsym.Assert(g.Columns[j].Name == c.Name && g.Columns[j].Type == c.Type && g.Columns[j].Position == c.Position && g.Columns[j].MaxLength == c.MaxLength, "column")
		}
		for j, c := range t.Indexes {
			zzsym.Assert(g.Indexes[j].Name == c.Name && zzEqualTexts(g.Indexes[j].ColumnNames, c.ColumnNames), "index")
		}
	}
}

func zzEqualTexts(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type zzBad struct{}

func (zzBad) MarshalJSON() ([]byte, error) { return nil, errBad }
func (zzBad) MarshalYAML() (any, error)    { return nil, errBad }

type zzErr struct{}

func (zzErr) Error() string { return "bad" }

var errBad error = zzErr{}

// A value that cannot be encoded is reported, and nothing is printed.
func ZZU02_Errors() {
	w := &bytes.Buffer{}
	err := Object(w, []string{"json", "yaml"}[zzsym.Choose("format", 2)], zzBad{})
	zzsym.Assert(err != nil && w.Len() == 0, "an encoding failure is not reported")
	zzsym.Reached("end")
}
