package schema

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"

	"github.com/effective-security/xdb/internal/cli"
	conf "github.com/effective-security/xdb/internal/zzconf"
	zos "github.com/effective-security/xdb/internal/zzos"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/effective-security/xdb/schema"
)

// zzField is a field of a generated struct.
type zzField struct{ name, typ, tag string }

// zzModel is a generated model: the struct and the order in which ScanRow reads its fields.
type zzModel struct {
	name   string
	fields []zzField
	scan   []string
	info   string // what GetTableInfo returns
}

// zzColDef is the definition of a column in the generated schema.
type zzColDef struct {
	field string
	vals  map[string]string
}

// zzInfo is the generated metadata of a table.
type zzInfo struct {
	name          string
	vals          map[string]string
	cols, indexes []string
}

// zzSource is what a generated file declares.
type zzSource struct {
	pkg     string
	imports []string
	decls   []string // package level names, methods excluded
	models  []*zzModel
	infos   []*zzInfo
	defs    map[string][]zzColDef
	tables  [][2]string // the map of the tables
	dialect string
}

func zzExpr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return zzExpr(x.X) + "." + x.Sel.Name
	case *ast.StarExpr:
		return "*" + zzExpr(x.X)
	case *ast.UnaryExpr:
		return x.Op.String() + zzExpr(x.X)
	case *ast.ArrayType:
		return "[]" + zzExpr(x.Elt)
	case *ast.BasicLit:
		return x.Value
	case *ast.MapType:
		return "map[" + zzExpr(x.Key) + "]" + zzExpr(x.Value)
	}
	return "?"
}

func zzUnquote(s string) string {
	r, err := strconv.Unquote(s)
	zzsym.Assert(err == nil, "not a text")
	return r
}

func zzKeyed(l *ast.CompositeLit, f func(key string, v ast.Expr)) {
	for _, e := range l.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		zzsym.Assert(ok, "not keyed")
		f(zzExpr(kv.Key), kv.Value)
	}
}

func zzTexts(e ast.Expr) []string {
	l, ok := e.(*ast.CompositeLit)
	zzsym.Assert(ok, "not a list")
	var res []string
	for _, x := range l.Elts {
		res = append(res, zzUnquote(zzExpr(x)))
	}
	return res
}

// zzParse reads a generated file.
func zzParse(text string) *zzSource {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", text, parser.SkipObjectResolution)
	zzsym.Assert(err == nil, "the generated source does not parse")
	s := &zzSource{pkg: f.Name.Name, defs: map[string][]zzColDef{}}
	byName := map[string]*zzModel{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				s.decls = append(s.decls, d.Name.Name)
				continue
			}
			recv := zzExpr(d.Recv.List[0].Type)
			if recv[0] == '*' {
				recv = recv[1:]
			}
			switch d.Name.Name {
			case "ScanRow":
				m := byName[recv]
				zzsym.Assert(m != nil && m.scan == nil, "one scan function per model")
				m.scan = []string{}
				ast.Inspect(d.Body, func(n ast.Node) bool {
					c, ok := n.(*ast.CallExpr)
					if !ok || zzExpr(c.Fun) != d.Type.Params.List[0].Names[0].Name+".Scan" {
						return true
					}
					for _, a := range c.Args {
						x := zzExpr(a)
						p := "&" + d.Recv.List[0].Names[0].Name + "."
						zzsym.Assert(len(x) > len(p) && x[:len(p)] == p, "the row is scanned into something else")
						m.scan = append(m.scan, x[len(p):])
					}
					return true
				})
			case "GetTableInfo":
				ast.Inspect(d.Body, func(n ast.Node) bool {
					if r, ok := n.(*ast.ReturnStmt); ok {
						for _, m := range byName {
							if m.name+"Result" == recv {
								m.info = zzExpr(r.Results[0])
							}
						}
					}
					return true
				})
			}
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.ImportSpec:
					s.imports = append(s.imports, zzUnquote(sp.Path.Value))
				case *ast.TypeSpec:
					s.decls = append(s.decls, sp.Name.Name)
					st, ok := sp.Type.(*ast.StructType)
					n := len(sp.Name.Name)
					if !ok || n > 6 && sp.Name.Name[n-6:] == "Result" {
						continue
					}
					m := &zzModel{name: sp.Name.Name}
					for _, fl := range st.Fields.List {
						fd := zzField{typ: zzExpr(fl.Type)}
						if fl.Tag != nil {
							fd.tag = zzUnquote(fl.Tag.Value)
						}
						for _, id := range fl.Names {
							fd.name = id.Name
							m.fields = append(m.fields, fd)
						}
					}
					s.models = append(s.models, m)
					byName[m.name] = m
				case *ast.ValueSpec:
					zzsym.Assert(len(sp.Names) == 1 && len(sp.Values) == 1, "one variable")
					name := sp.Names[0].Name
					s.decls = append(s.decls, name)
					l, ok := sp.Values[0].(*ast.CompositeLit)
					if !ok {
						if name == "Dialect" {
							s.dialect = zzExpr(sp.Values[0])
						}
						continue
					}
					switch l.Type.(type) {
					case *ast.MapType:
						zzKeyed(l, func(k string, v ast.Expr) { s.tables = append(s.tables, [2]string{zzUnquote(k), zzExpr(v)}) })
					case *ast.StructType:
						var defs []zzColDef
						zzKeyed(l, func(k string, v ast.Expr) {
							c := zzColDef{field: k, vals: map[string]string{}}
							if cl, ok := v.(*ast.CompositeLit); ok {
								zzKeyed(cl, func(k string, v ast.Expr) { c.vals[k] = zzExpr(v) })
							} else {
								c.vals["="] = zzExpr(v)
							}
							defs = append(defs, c)
						})
						s.defs[name] = defs
					default:
						ti := &zzInfo{name: name, vals: map[string]string{}}
						zzKeyed(l, func(k string, v ast.Expr) {
							switch k {
							case "Columns":
								ti.cols = zzTexts(v)
							case "Indexes":
								ti.indexes = zzTexts(v)
							default:
								ti.vals[k] = zzExpr(v)
							}
						})
						s.infos = append(s.infos, ti)
					}
				}
			}
		}
	}
	return s
}

// zzKeep is what the files have before the generator runs.
var zzKeep []byte

// zzRun runs the generator on the provider and returns its error and the text on its output.
func zzRun(p *zzProv, cmd *GenerateCmd) (string, error) {
	out := &bytes.Buffer{}
	c := (&cli.Cli{}).WithWriter(out)
	c.WithSchemaProvider(p)
	zos.Data, zos.Dirs, zos.Names, zos.Opened = map[string][]byte{}, map[string]bool{}, nil, 0
	if zzKeep != nil {
		for _, n := range []string{"m/model.gen.go", "s/schema.gen.go"} {
			zos.Data[n] = append([]byte(nil), zzKeep...)
			zos.Names = append(zos.Names, n)
		}
		zos.Dirs["m"], zos.Dirs["s"] = true, true
	}
	err := cmd.Run(c)
	return out.String(), err
}

// zzDefs makes a types definition file.
func zzDefs(text string) string {
	conf.Files["types.yaml"] = text
	return "types.yaml"
}

// zzSplit separates model and schema source printed to the same output.
func zzSplit(out string) (string, string) {
	const mark = "// DO NOT EDIT!"
	for i := 1; i+len(mark) <= len(out); i++ {
		if out[i:i+len(mark)] == mark {
			return out[:i], out[i:]
		}
	}
	zzsym.Assert(false, "two sources")
	return "", ""
}

func zzTable(schemaName, name string, cols ...*schema.Column) *schema.Table {
	t := &schema.Table{Schema: schemaName, Name: name, SchemaName: schemaName + "." + name, Columns: cols}
	for i, c := range cols {
		c.Position = uint32(i + 1)
		c.SchemaName = t.SchemaName + "." + c.Name
	}
	return t
}

// zzAgree asserts that model and schema of a table agree with the table and each other. cols are the kept columns.
func zzAgree(m *zzModel, ti *zzInfo, defs []zzColDef, t *schema.Table, cols schema.Columns, cached bool) {
	n := len(cols)
	nf := len(m.fields)
	if cached {
		nf--
		zzsym.Assert(nf >= 0 && m.fields[nf].name == "cachedProps", "cached properties")
	}
	zzsym.Assert(nf == n, "one field per column")
	zzsym.Assert(len(m.scan) == n, "one scanned field per column")
	zzsym.Assert(len(ti.cols) == n, "one column in the metadata per column")
	zzsym.Assert(len(defs) == n+1 && defs[0].field == "Table" && defs[0].vals["="] == "&"+ti.name, "one definition per column")
	for i, c := range cols {
		f := m.fields[i]
		p := `db:"` + c.Name + ","
		zzsym.Assert(len(f.tag) > len(p) && f.tag[:len(p)] == p, "tag of the column")
		zzsym.Assert(f.typ == toGoType(c), "type of the column")
		zzsym.Assert(m.scan[i] == f.name, "scan order")
		zzsym.Assert(ti.cols[i] == c.Name, "metadata order")
		d := defs[i+1]
		zzsym.Assert(d.field == f.name, "definition order")
		zzsym.Assert(zzUnquote(d.vals["Name"]) == c.Name && zzUnquote(d.vals["Type"]) == c.Type && zzUnquote(d.vals["UdtType"]) == c.UdtType, "definition of the column")
		zzsym.Assert(d.vals["Position"] == strconv.Itoa(int(c.Position)) && d.vals["Nullable"] == strconv.FormatBool(c.Nullable), "definition of the column")
		if c.MaxLength > 0 {
			zzsym.Assert(d.vals["MaxLength"] == strconv.FormatUint(uint64(c.MaxLength), 10), "length of the column")
		} else {
			zzsym.Assert(d.vals["MaxLength"] == "" || d.vals["MaxLength"] == "0", "length of the column")
		}
		for _, g := range m.fields[:i] {
			zzsym.Assert(g.name != f.name, "field declared twice")
		}
	}
	zzsym.Assert(zzUnquote(ti.vals["SchemaName"]) == t.SchemaName && zzUnquote(ti.vals["Schema"]) == t.Schema && zzUnquote(ti.vals["Name"]) == t.Name, "name of the table")
	zzsym.Assert(zzUnquote(ti.vals["PrimaryKey"]) == t.PrimaryKeyName(), "primary key")
	zzsym.Assert(len(ti.indexes) == len(t.Indexes), "indexes")
	for i, ix := range t.Indexes {
		zzsym.Assert(ti.indexes[i] == ix.Name, "index")
	}
}

func zzLetters(label string, n int) string {
	s := zzsym.Str(label, n)
	for i := 0; i < n; i++ {
		zzsym.Assume(zzsym.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return s
}

func zzOne(p *zzProv, cmd *GenerateCmd) (*zzSource, *zzSource) {
	out, err := zzRun(p, cmd)
	zzsym.Assert(err == nil, "generation fails")
	m, s := zzSplit(out)
	return zzParse(m), zzParse(s)
}
