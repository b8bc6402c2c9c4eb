// Package zzsql evaluates SELECT statements on relations: select-project-join, subqueries, EXISTS, IN, LEFT JOIN, CROSS APPLY, DISTINCT,
// GROUP BY with the aggregates of the catalog queries, FOR XML PATH(”). Text it does not know is reported by Err.
package zzsql

import (
	"sort"
	"strings"
)

// Rel is a relation. Values: nil (NULL), string, int64, bool, []any (array).
type Rel struct {
	Cols []string
	Rows [][]any
}

// Catalog has the relations by lower case name: "schema.name" or "name".
type Catalog struct {
	Rels map[string]*Rel
	Func func(name string, args []any) (any, bool)
}

// Err is the panic of Query on text it does not know.
type Err struct{ Msg string }

func bad(s string) { panic(Err{s}) }

type tok struct {
	k byte // i identifier, s string, n number, p parameter, o operator, e end
	s string
}

func ident(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func lex(q string) []tok {
	var l []tok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c <= ' ':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			k := strings.Index(q[i:], "*/")
			if k < 0 {
				bad("comment")
			}
			i += k + 2
		case c == '\'' || (c == 'N' || c == 'n') && i+1 < len(q) && q[i+1] == '\'':
			if c != '\'' {
				i++
			}
			i++
			var b []byte
			for {
				if i >= len(q) {
					bad("text without end")
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						i++
					} else {
						break
					}
				}
				b = append(b, q[i])
				i++
			}
			i++
			l = append(l, tok{'s', string(b)})
		case c == '[' || c == '"':
			e := byte(']')
			if c == '"' {
				e = '"'
			}
			k := strings.IndexByte(q[i+1:], e)
			if k < 0 {
				bad("name without end")
			}
			l = append(l, tok{'q', strings.ToLower(q[i+1 : i+1+k])})
			i += k + 2
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			l = append(l, tok{'n', q[i:j]})
			i = j
		case c == '$' || c == '@':
			j := i + 1
			for j < len(q) && ident(q[j]) {
				j++
			}
			l = append(l, tok{'p', strings.ToLower(q[i+1 : j])})
			i = j
		case ident(c):
			j := i
			for j < len(q) && ident(q[j]) {
				j++
			}
			l = append(l, tok{'i', strings.ToLower(q[i:j])})
			i = j
		default:
			n := 1
			for _, o := range []string{"<>", "!=", "<=", ">=", "||", "::"} {
				if strings.HasPrefix(q[i:], o) {
					n = 2
				}
			}
			l = append(l, tok{'o', q[i : i+n]})
			i += n
		}
	}
	return append(l, tok{k: 'e'})
}

// Expressions.
type expr struct {
	op   string // lit param col and or not is isnot in = ... like func agg sub exists any
	s    string // name
	q    string // qualifier
	v    any
	a    []*expr
	sel  *sel
	ord  []order
	refs []string // qualifiers used, "?" for an unqualified column or a subquery
}

type order struct {
	e    *expr
	desc bool
}

type item struct {
	e    *expr
	name string
	star bool
	q    string
}

type from struct {
	kind  string // , inner left cross apply
	rel   string
	sub   *sel
	alias string
	cols  []string
	on    []*expr
}

type sel struct {
	distinct bool
	items    []item
	from     []from
	where    []*expr
	group    []*expr
	order    []order
	xml      bool
}

type parser struct {
	t []tok
	i int
}

func (p *parser) is(s string) bool {
	t := p.t[p.i]
	return (t.k == 'i' || t.k == 'o') && t.s == s
}
func (p *parser) acc(s ...string) bool {
	i := p.i
	for _, x := range s {
		if !p.is(x) {
			p.i = i
			return false
		}
		p.i++
	}
	return true
}
func (p *parser) need(s ...string) {
	if !p.acc(s...) {
		bad("expected " + strings.Join(s, " ") + " at " + p.t[p.i].s)
	}
}

var reserved = map[string]bool{"select": true, "from": true, "where": true, "join": true, "inner": true, "left": true, "cross": true, "outer": true, "on": true, "group": true,
	"order": true, "and": true, "or": true, "not": true, "as": true, "for": true, "union": true, "having": true, "limit": true, "is": true, "in": true, "asc": true, "desc": true,
	"right": true, "full": true, "natural": true, "with": true, "offset": true, "fetch": true, "between": true, "like": true, "case": true, "when": true, "then": true, "else": true, "end": true}

func (p *parser) name() string {
	t := p.t[p.i]
	if t.k == 'q' || t.k == 'i' && !reserved[t.s] {
		p.i++
		return t.s
	}
	bad("expected a name at " + t.s)
	return ""
}

func (p *parser) aliasOpt() string {
	if p.acc("as") {
		return p.name()
	}
	if t := p.t[p.i]; t.k == 'q' || t.k == 'i' && !reserved[t.s] {
		return p.name()
	}
	return ""
}

func (p *parser) sel() *sel {
	s := &sel{}
	p.need("select")
	s.distinct = p.acc("distinct")
	for {
		it := item{}
		if p.acc("*") {
			it.star = true
		} else {
			it.e = p.expr()
			it.name = p.aliasOpt()
			if it.name == "" && it.e.op == "col" {
				it.name = it.e.s
			}
		}
		s.items = append(s.items, it)
		if !p.acc(",") {
			break
		}
	}
	if p.acc("from") {
		s.from = append(s.from, p.item(","))
		for {
			kind := ""
			switch {
			case p.acc(","):
				kind = ","
			case p.acc("cross", "apply"):
				kind = "apply"
			case p.acc("cross", "join"):
				kind = ","
			case p.acc("left", "outer", "join"), p.acc("left", "join"):
				kind = "left"
			case p.acc("inner", "join"), p.acc("join"):
				kind = "inner"
			}
			if kind == "" {
				break
			}
			f := p.item(kind)
			if kind == "left" || kind == "inner" {
				p.need("on")
				f.on = conj(p.expr())
			}
			s.from = append(s.from, f)
		}
	}
	if p.acc("where") {
		s.where = conj(p.expr())
	}
	if p.acc("group", "by") {
		for {
			s.group = append(s.group, p.expr())
			if !p.acc(",") {
				break
			}
		}
	}
	s.order = p.orderOpt()
	if p.acc("for", "xml", "path", "(") {
		if p.t[p.i].k != 's' || p.t[p.i].s != "" {
			bad("for xml path")
		}
		p.i++
		p.need(")")
		s.xml = true
	}
	return s
}

func (p *parser) orderOpt() (l []order) {
	if !p.acc("order", "by") {
		return nil
	}
	for {
		o := order{e: p.expr()}
		if p.acc("desc") {
			o.desc = true
		} else {
			p.acc("asc")
		}
		l = append(l, o)
		if !p.acc(",") {
			return
		}
	}
}

func (p *parser) item(kind string) from {
	f := from{kind: kind}
	if kind == "apply" || p.is("(") {
		p.need("(")
		f.sub = p.sel()
		p.need(")")
	} else {
		f.rel = p.name()
		for p.acc(".") {
			f.rel += "." + p.name()
		}
	}
	f.alias = p.aliasOpt()
	if f.sub != nil && p.acc("(") {
		for {
			f.cols = append(f.cols, p.name())
			if !p.acc(",") {
				break
			}
		}
		p.need(")")
	}
	if f.alias == "" {
		if f.sub != nil {
			bad("subquery without a name")
		}
		f.alias = f.rel[strings.LastIndexByte(f.rel, '.')+1:]
	}
	return f
}

func conj(e *expr) []*expr {
	if e.op == "and" {
		return append(conj(e.a[0]), conj(e.a[1])...)
	}
	return []*expr{e}
}

func mk(op string, a ...*expr) *expr {
	e := &expr{op: op, a: a}
	for _, x := range a {
		e.refs = append(e.refs, x.refs...)
	}
	return e
}

func (p *parser) expr() *expr {
	e := p.and()
	for p.acc("or") {
		e = mk("or", e, p.and())
	}
	return e
}
func (p *parser) and() *expr {
	e := p.not()
	for p.acc("and") {
		e = mk("and", e, p.not())
	}
	return e
}
func (p *parser) not() *expr {
	if p.acc("not") {
		return mk("not", p.not())
	}
	return p.cmp()
}
func (p *parser) cmp() *expr {
	e := p.add()
	for {
		neg := false
		switch {
		case p.acc("is"):
			neg = p.acc("not")
			switch {
			case p.acc("null"):
				e = mk("isnull", e)
			case p.acc("true"):
				e = mk("=", e, &expr{op: "lit", v: true})
			case p.acc("false"):
				e = mk("=", e, &expr{op: "lit", v: false})
			default:
				bad("is")
			}
			if neg {
				e = mk("not", e)
			}
			continue
		case p.acc("not", "like"), p.acc("like"):
			neg = p.t[p.i-2].s == "not"
			e = mk("like", e, p.add())
			if neg {
				e = mk("not", e)
			}
			continue
		case p.acc("not", "in"):
			neg = true
			p.i--
			fallthrough
		case p.is("in"):
			p.need("in")
			p.need("(")
			if p.is("select") {
				s := p.sel()
				e = mk("insel", e)
				e.sel, e.refs = s, append(e.refs, "?")
			} else {
				e = mk("in", e)
				for {
					x := p.expr()
					e.a = append(e.a, x)
					e.refs = append(e.refs, x.refs...)
					if !p.acc(",") {
						break
					}
				}
			}
			p.need(")")
			if neg {
				e = mk("not", e)
			}
			continue
		}
		op := ""
		for _, o := range []string{"=", "<>", "!=", "<=", ">=", "<", ">"} {
			if p.is(o) {
				op = o
			}
		}
		if op == "" {
			return e
		}
		p.i++
		if op == "!=" {
			op = "<>"
		}
		if p.acc("any", "(") {
			x := p.expr()
			p.need(")")
			if op != "=" {
				bad("any")
			}
			e = mk("any", e, x)
			continue
		}
		e = mk(op, e, p.add())
	}
}
func (p *parser) add() *expr {
	e := p.prim()
	for p.is("+") || p.is("-") || p.is("||") {
		op := p.t[p.i].s
		p.i++
		e = mk(op, e, p.prim())
	}
	return e
}
func (p *parser) prim() *expr {
	e := p.atom()
	for p.acc("::") { // a cast
		p.name()
		if p.t[p.i].k == 'q' && p.t[p.i].s == "" {
			p.i++ // []
		}
		if p.acc("(") {
			p.i++
			p.need(")")
		}
	}
	return e
}

var aggs = map[string]bool{"array_agg": true, "string_agg": true, "count": true, "min": true, "max": true, "bool_or": true, "bool_and": true}

func (p *parser) atom() *expr {
	t := p.t[p.i]
	switch {
	case t.k == 's':
		p.i++
		return &expr{op: "lit", v: t.s}
	case t.k == 'n':
		p.i++
		n := int64(0)
		for i := 0; i < len(t.s); i++ {
			n = n*10 + int64(t.s[i]-'0')
		}
		return &expr{op: "lit", v: n}
	case t.k == 'p':
		p.i++
		return &expr{op: "param", s: t.s}
	case p.acc("("):
		if p.is("select") {
			s := p.sel()
			p.need(")")
			return &expr{op: "sub", sel: s, refs: []string{"?"}}
		}
		e := p.expr()
		p.need(")")
		return e
	case p.acc("exists", "("):
		s := p.sel()
		p.need(")")
		return &expr{op: "exists", sel: s, refs: []string{"?"}}
	case p.acc("null"):
		return &expr{op: "lit"}
	case p.acc("true"):
		return &expr{op: "lit", v: true}
	case p.acc("false"):
		return &expr{op: "lit", v: false}
	case p.acc("-"):
		return mk("-", &expr{op: "lit", v: int64(0)}, p.atom())
	}
	if t.k == 'i' && t.s == "left" && p.t[p.i+1].s == "(" {
		t.k = 'q'
		p.t[p.i] = t
	}
	n := p.name()
	if p.acc("(") {
		e := &expr{op: "func", s: n}
		if aggs[n] {
			e.op = "agg"
		}
		if n == "cast" {
			x := p.expr()
			p.need("as")
			p.name()
			if p.acc("(") {
				p.i++
				p.need(")")
			}
			p.need(")")
			return x
		}
		if p.acc("distinct") {
			e.q = "distinct"
		}
		if p.acc("*") {
			p.need(")")
			return e
		}
		for !p.acc(")") {
			x := p.expr()
			e.a = append(e.a, x)
			e.refs = append(e.refs, x.refs...)
			e.ord = p.orderOpt()
			if !p.acc(",") {
				p.need(")")
				break
			}
		}
		return e
	}
	e := &expr{op: "col", s: n}
	for p.acc(".") {
		if e.q != "" {
			e.q += "."
		}
		e.q += e.s
		e.s = p.name()
	}
	if k := strings.LastIndexByte(e.q, '.'); k >= 0 {
		e.q = e.q[k+1:]
	}
	e.refs = []string{e.q}
	if e.q == "" {
		e.refs = []string{"?"}
	}
	return e
}

// Evaluation.
type bind struct {
	alias string
	cols  []string
	row   []any
}

type env struct {
	c     *Catalog
	args  map[string]any
	b     []bind
	up    *env
	group []*env // rows of a group
	out   map[string]any
}

func (n *env) lookup(q, s string) (any, bool) {
	found := false
	var v any
	for i := range n.b {
		if q != "" && n.b[i].alias != q {
			continue
		}
		for k, c := range n.b[i].cols {
			if c == s {
				if found {
					bad("ambiguous column " + s)
				}
				found, v = true, n.b[i].row[k]
			}
		}
	}
	if !found && n.up != nil {
		return n.up.lookup(q, s)
	}
	return v, found
}

// truth values: 0 false, 1 true, 2 unknown
func tr(b bool) int {
	if b {
		return 1
	}
	return 0
}

func eq(a, b any) int {
	if a == nil || b == nil {
		return 2
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return tr(x == y)
		}
	case int64:
		switch y := b.(type) {
		case int64:
			return tr(x == y)
		case bool:
			if y {
				return tr(x != 0)
			}
			return tr(x == 0)
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return tr(x == y)
		case int64:
			return eq(b, a)
		}
	}
	bad("comparison of values of different types")
	return 2
}

func less(a, b any) int {
	if a == nil || b == nil {
		return 2
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return tr(x < y)
		}
	case int64:
		if y, ok := b.(int64); ok {
			return tr(x < y)
		}
	case bool:
		if y, ok := b.(bool); ok {
			return tr(!x && y)
		}
	}
	bad("comparison of values of different types")
	return 2
}

func (n *env) cond(e *expr) int {
	switch e.op {
	case "and":
		x := n.cond(e.a[0])
		if x == 0 {
			return 0
		}
		y := n.cond(e.a[1])
		if y == 0 {
			return 0
		}
		if x == 2 || y == 2 {
			return 2
		}
		return 1
	case "or":
		x := n.cond(e.a[0])
		if x == 1 {
			return 1
		}
		y := n.cond(e.a[1])
		if y == 1 {
			return 1
		}
		if x == 2 || y == 2 {
			return 2
		}
		return 0
	case "not":
		switch n.cond(e.a[0]) {
		case 0:
			return 1
		case 1:
			return 0
		}
		return 2
	case "isnull":
		return tr(n.val(e.a[0]) == nil)
	case "=":
		return eq(n.val(e.a[0]), n.val(e.a[1]))
	case "<>":
		switch eq(n.val(e.a[0]), n.val(e.a[1])) {
		case 0:
			return 1
		case 1:
			return 0
		}
		return 2
	case "<":
		return less(n.val(e.a[0]), n.val(e.a[1]))
	case ">":
		return less(n.val(e.a[1]), n.val(e.a[0]))
	case "<=", ">=":
		a, b := n.val(e.a[0]), n.val(e.a[1])
		if e.op == "<=" {
			a, b = b, a
		}
		switch less(a, b) {
		case 0:
			return 1
		case 1:
			return 0
		}
		return 2
	case "like":
		x, y := n.val(e.a[0]), n.val(e.a[1])
		if x == nil || y == nil {
			return 2
		}
		return tr(like(str(x), str(y)))
	case "in", "insel", "any":
		x := n.val(e.a[0])
		var l []any
		switch e.op {
		case "in":
			for _, y := range e.a[1:] {
				l = append(l, n.val(y))
			}
		case "any":
			v := n.val(e.a[1])
			if v == nil {
				return 2
			}
			a, ok := v.([]any)
			if !ok {
				bad("any of a value that is no array")
			}
			l = a
		default:
			r := n.run(e.sel)
			for _, w := range r.Rows {
				l = append(l, w[0])
			}
		}
		res := 0
		for _, y := range l {
			switch eq(x, y) {
			case 1:
				return 1
			case 2:
				res = 2
			}
		}
		return res
	case "exists":
		return tr(len(n.run(e.sel).Rows) > 0)
	}
	switch v := n.val(e).(type) {
	case nil:
		return 2
	case bool:
		return tr(v)
	}
	bad("condition " + e.op)
	return 2
}

// like tells whether a text matches a LIKE pattern: % stands for any text and
// _ for any one character (a byte here).
func like(x, pat string) bool {
	if pat == "" {
		return x == ""
	}
	switch pat[0] {
	case '%':
		for i := 0; i <= len(x); i++ {
			if like(x[i:], pat[1:]) {
				return true
			}
		}
		return false
	case '_':
		return x != "" && like(x[1:], pat[1:])
	}
	return x != "" && x[0] == pat[0] && like(x[1:], pat[1:])
}

func str(v any) string {
	s, ok := v.(string)
	if !ok {
		bad("a value that is no text")
	}
	return s
}

func num(v any) int64 {
	s, ok := v.(int64)
	if !ok {
		bad("a value that is no number")
	}
	return s
}

func (n *env) val(e *expr) any {
	switch e.op {
	case "lit":
		return e.v
	case "param":
		v, ok := n.args[e.s]
		if !ok {
			bad("parameter " + e.s)
		}
		return v
	case "col":
		if e.q == "" && n.out != nil {
			if v, ok := n.out[e.s]; ok {
				return v
			}
		}
		v, ok := n.lookup(e.q, e.s)
		if !ok {
			bad("column " + e.q + "." + e.s)
		}
		return v
	case "+", "||", "-":
		a, b := n.val(e.a[0]), n.val(e.a[1])
		if a == nil || b == nil {
			return nil
		}
		if x, ok := a.(string); ok && e.op != "-" {
			return x + str(b)
		}
		if e.op == "+" {
			return num(a) + num(b)
		}
		if e.op == "-" {
			return num(a) - num(b)
		}
	case "sub":
		r := n.run(e.sel)
		switch len(r.Rows) {
		case 0:
			return nil
		case 1:
			return r.Rows[0][0]
		}
		bad("a subquery with several rows")
	case "agg":
		return n.agg(e)
	case "func":
		return n.call(e)
	case "and", "or", "not", "isnull", "=", "<>", "<", ">", "<=", ">=", "in", "like", "insel", "any", "exists":
		switch n.cond(e) {
		case 0:
			return false
		case 1:
			return true
		}
		return nil
	}
	bad("expression " + e.op)
	return nil
}

func (n *env) agg(e *expr) any {
	g := append([]*env{}, n.group...)
	sortEnvs(g, e.ord)
	if len(e.a) == 0 {
		return int64(len(g))
	}
	var l []any
	for _, m := range g {
		v := m.val(e.a[0])
		if v == nil && e.s != "array_agg" {
			continue
		}
		if e.q == "distinct" {
			dup := false
			for _, x := range l {
				dup = dup || eq(x, v) == 1
			}
			if dup {
				continue
			}
		}
		l = append(l, v)
	}
	switch e.s {
	case "array_agg":
		if len(l) == 0 {
			return nil
		}
		return l
	case "count":
		return int64(len(l))
	case "string_agg":
		if len(l) == 0 {
			return nil
		}
		sep := str(n.val(e.a[1]))
		s := ""
		for i, x := range l {
			if i > 0 {
				s += sep
			}
			s += str(x)
		}
		return s
	case "min", "max":
		var r any
		for _, x := range l {
			if r == nil || e.s == "min" && less(x, r) == 1 || e.s == "max" && less(r, x) == 1 {
				r = x
			}
		}
		return r
	}
	bad(e.s)
	return nil
}

func (n *env) call(e *expr) any {
	var a []any
	for _, x := range e.a {
		a = append(a, n.val(x))
	}
	if e.s == "coalesce" || e.s == "isnull" {
		for _, x := range a {
			if x != nil {
				return x
			}
		}
		return nil
	}
	if v, ok := n.c.Func(e.s, a); ok {
		return v
	}
	for _, x := range a {
		if x == nil {
			return nil
		}
	}
	switch {
	case e.s == "lower" && len(a) == 1:
		return strings.ToLower(str(a[0]))
	case e.s == "upper" && len(a) == 1:
		return strings.ToUpper(str(a[0]))
	case e.s == "len" || e.s == "length" || e.s == "char_length":
		return int64(len(str(a[0])))
	case (e.s == "substring" || e.s == "substr") && len(a) == 3:
		s, i, k := str(a[0]), num(a[1]), num(a[2])
		r := ""
		for j := 0; j < len(s); j++ {
			if p := int64(j) + 1; p >= i && p < i+k {
				r += s[j : j+1]
			}
		}
		return r
	case e.s == "left" && len(a) == 2:
		s, k := str(a[0]), num(a[1])
		if k >= 0 && k < int64(len(s)) {
			s = s[:k]
		}
		return s
	case e.s == "stuff" && len(a) == 4:
		s, i, k := str(a[0]), num(a[1]), num(a[2])
		if i >= 1 && i-1+k <= int64(len(s)) {
			return s[:i-1] + str(a[3]) + s[i-1+k:]
		}
	case e.s == "array_to_string" && len(a) == 2:
		l, ok := a[0].([]any)
		if !ok {
			bad("array_to_string")
		}
		s, first := "", true
		for _, x := range l {
			if x == nil {
				continue
			}
			if !first {
				s += str(a[1])
			}
			first = false
			s += str(x)
		}
		return s
	case e.s == "array_position" && len(a) == 2:
		l, ok := a[0].([]any)
		if !ok {
			bad("array_position")
		}
		for i, x := range l {
			if eq(x, a[1]) == 1 {
				return int64(i + 1)
			}
		}
		return nil
	}
	bad("function " + e.s)
	return nil
}

func sortEnvs(g []*env, ord []order) {
	if len(ord) == 0 {
		return
	}
	keys := map[*env][]any{}
	for _, m := range g {
		for _, o := range ord {
			keys[m] = append(keys[m], m.val(o.e))
		}
	}
	sort.SliceStable(g, func(i, j int) bool {
		for k, o := range ord {
			a, b := keys[g[i]][k], keys[g[j]][k]
			if o.desc {
				a, b = b, a
			}
			if less(a, b) == 1 {
				return true
			}
			if less(b, a) == 1 {
				return false
			}
		}
		return false
	})
}

// step extends every row with one relation.
func (n *env) step(rows []*env, f from, ready []*expr) []*env {
	var out []*env
	for _, r := range rows {
		var rel *Rel
		if f.sub != nil {
			up := n
			if f.kind == "apply" {
				up = r
			}
			rel = up.run(f.sub)
		} else {
			rel = n.c.Rels[f.rel]
			if rel == nil {
				bad("relation " + f.rel)
			}
		}
		cols := rel.Cols
		if f.cols != nil {
			if len(f.cols) != len(cols) {
				bad("names of columns")
			}
			cols = f.cols
		}
		matched := false
	next:
		for _, row := range rel.Rows {
			m := &env{c: n.c, args: n.args, up: n.up, b: append(append([]bind{}, r.b...), bind{f.alias, cols, row})}
			for _, e := range f.on {
				if m.cond(e) != 1 {
					continue next
				}
			}
			matched = true
			for _, e := range ready {
				if m.cond(e) != 1 {
					continue next
				}
			}
			out = append(out, m)
		}
		if f.kind == "left" && !matched {
			m := &env{c: n.c, args: n.args, up: n.up, b: append(append([]bind{}, r.b...), bind{f.alias, cols, make([]any, len(cols))})}
			ok := true
			for _, e := range ready {
				ok = ok && m.cond(e) == 1
			}
			if ok {
				out = append(out, m)
			}
		}
	}
	return out
}

func hasAgg(e *expr) bool {
	if e == nil {
		return false
	}
	if e.op == "agg" {
		return true
	}
	for _, x := range e.a {
		if hasAgg(x) {
			return true
		}
	}
	return false
}

func (up *env) run(s *sel) *Rel {
	n := &env{c: up.c, args: up.args, up: up}
	rows := []*env{n}
	done := make([]bool, len(s.where))
	have := map[string]bool{}
	own := map[string]bool{}
	for _, f := range s.from {
		if own[f.alias] {
			bad("two relations with the name " + f.alias)
		}
		own[f.alias] = true
	}
	for i, f := range s.from {
		have[f.alias] = true
		var ready []*expr
		for k, e := range s.where {
			ok := !done[k]
			for _, r := range e.refs {
				if own[r] && !have[r] || r == "?" && i < len(s.from)-1 {
					ok = false
				}
			}
			if ok {
				done[k] = true
				ready = append(ready, e)
			}
		}
		rows = n.step(rows, f, ready)
	}
	for k, e := range s.where {
		if !done[k] {
			var l []*env
			for _, r := range rows {
				if r.cond(e) == 1 {
					l = append(l, r)
				}
			}
			rows = l
		}
	}
	grouped := len(s.group) > 0
	for _, it := range s.items {
		grouped = grouped || hasAgg(it.e)
	}
	if grouped {
		names := map[string]*expr{}
		for _, it := range s.items {
			if it.e != nil && it.name != "" {
				names[it.name] = it.e
			}
		}
		var groups []*env
		var keys [][]any
		for _, r := range rows {
			var key []any
			for _, e := range s.group {
				if e.op == "col" && e.q == "" {
					if _, ok := r.lookup("", e.s); !ok && names[e.s] != nil {
						e = names[e.s]
					}
				}
				key = append(key, r.val(e))
			}
			at := -1
			for i, k := range keys {
				same := true
				for j := range k {
					if !same {
						break
					}
					same = k[j] == nil && key[j] == nil || k[j] != nil && key[j] != nil && eq(k[j], key[j]) == 1
				}
				if same {
					at = i
					break
				}
			}
			if at < 0 {
				keys = append(keys, key)
				groups = append(groups, &env{c: r.c, args: r.args, up: r.up, b: r.b})
				at = len(groups) - 1
			}
			groups[at].group = append(groups[at].group, r)
		}
		if len(s.group) == 0 && len(groups) == 0 {
			groups = append(groups, &env{c: n.c, args: n.args, up: n.up})
		}
		rows = groups
	}
	// the items
	res := &Rel{}
	for _, it := range s.items {
		if it.star {
			for _, f := range s.from {
				if f.sub != nil || n.c.Rels[f.rel] == nil {
					bad("*")
				}
				res.Cols = append(res.Cols, n.c.Rels[f.rel].Cols...)
			}
		} else {
			res.Cols = append(res.Cols, it.name)
		}
	}
	vals := map[*env][]any{}
	for _, r := range rows {
		var row []any
		out := map[string]any{}
		for _, it := range s.items {
			if it.star {
				for _, b := range r.b {
					row = append(row, b.row...)
				}
				continue
			}
			v := r.val(it.e)
			row = append(row, v)
			if it.name != "" {
				out[it.name] = v
			}
		}
		vals[r] = row
		r.out = out
	}
	sortEnvs(rows, s.order)
	for _, r := range rows {
		row := vals[r]
		if s.distinct {
			dup := false
			for _, w := range res.Rows {
				same := true
				for k := range w {
					same = same && (w[k] == nil && row[k] == nil || w[k] != nil && row[k] != nil && eq(w[k], row[k]) == 1)
				}
				dup = dup || same
			}
			if dup {
				continue
			}
		}
		res.Rows = append(res.Rows, row)
	}
	if s.xml {
		if len(res.Rows) == 0 {
			return &Rel{Cols: res.Cols}
		}
		t := ""
		for _, r := range res.Rows {
			if r[0] != nil {
				t += str(r[0])
			}
		}
		return &Rel{Cols: res.Cols, Rows: [][]any{{t}}}
	}
	return res
}

// Query evaluates a statement with the arguments by name: "1", "2" for $1 and @p1, or the name.
func (c *Catalog) Query(q string, args map[string]any) (rel *Rel, err string) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(Err)
			if !ok {
				panic(r)
			}
			rel, err = nil, e.Msg
		}
	}()
	p := &parser{t: lex(q)}
	s := p.sel()
	p.acc(";")
	if p.t[p.i].k != 'e' {
		bad("unexpected " + p.t[p.i].s)
	}
	return (&env{c: c, args: args}).run(s), ""
}
