package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value kinds:
//
//	bool | *Term(bool)                     booleans
//	uint64 | *Term(bv)                     integers (canonical: truncated to width)
//	float64 | *Term(fp)                    floats
//	string | *SymStr | *ViewStr            strings
//	*Value                                 pointer (nil = (*Value)(nil)); *SymPtr symbolic element pointer
//	Struct, Array                          aggregates ([]Value)
//	Slice                                  slices
//	*Map, *Chan, Iface, *Func, *ssa.Builtin, Tuple, UPtr, *Native
type Value any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type // canonical, nil for nil interface
	v Value
}

type Func struct {
	fn     *ssa.Function
	env    []Value
	native func(m *M, g *G, args []Value) Value // model closures
	name   string
}

type UPtr struct{ p Value }

// Native is an opaque engine object (reflect.Type etc.)
type Native struct {
	kind string
	v    any
}

// SymStr is a string with at least one symbolic byte (concrete length).
type SymStr struct{ b []Value }

// ViewStr aliases the bytes of a slice (unsafe conversion).
type ViewStr struct{ s Slice }

// SymPtr is &elems[idx] with symbolic idx (already bounds-checked).
type SymPtr struct {
	elems []Value
	idx   *Term
}

type mapEnt struct {
	k, v Value
	del  bool
}
type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // concrete keys
	nsym int                // live entries with symbolic keys
	n    int
	kt   types.Type
}

type pathAbort struct {
	kind string // unsupported | bound | killed | assume | end | infeasible
	msg  string
}
type targetPanic struct {
	v Value // Iface
}

func unsupported(format string, a ...any) {
	panic(pathAbort{"unsupported", fmt.Sprintf(format, a...)})
}

// ---------------------------------------------------------------- canonical types

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonPtr sync.Map
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonPtr.Load(t); ok {
		return c.(types.Type)
	}
	u := types.Unalias(t)
	canonMu.Lock()
	defer canonMu.Unlock()
	var c types.Type
	if v := canonMap.At(u); v != nil {
		c = v.(types.Type)
	} else {
		canonMap.Set(u, u)
		c = u
	}
	canonPtr.Store(t, c)
	return c
}

func under(t types.Type) types.Type { return t.Underlying() }

func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func floatInfo(t types.Type) (w uint8, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return UPtr{}
		case t.Kind() == types.UntypedNil:
			return Iface{}
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Func)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		tu := make(Tuple, t.Len())
		for i := range tu {
			tu[i] = zero(t.At(i).Type())
		}
		return tu
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.TypeParam:
		unsupported("zero of type parameter %s", t)
	}
	panic(fmt.Sprintf("zero: %T %s", t, t))
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

// ---------------------------------------------------------------- strings

func mkStr(b []Value) Value {
	conc := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		s := make([]byte, len(b))
		for i, x := range b {
			s[i] = byte(x.(uint64))
		}
		return string(s)
	}
	return &SymStr{b}
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	case *ViewStr:
		return len(v.s)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// strBytes returns the byte values (do not modify).
func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case *SymStr:
		return v.b
	case *ViewStr:
		r := make([]Value, len(v.s))
		copy(r, v.s)
		return r
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *SymStr:
		return v.b[i]
	case *ViewStr:
		return v.s[i]
	}
	panic("strAt")
}

func normStr(v Value) Value {
	if w, ok := v.(*ViewStr); ok {
		return mkStr(strBytes(w))
	}
	return v
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

func strSub(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi])
	case *ViewStr:
		return &ViewStr{v.s[lo:hi]}
	}
	panic("strSub")
}

func concStr(v Value) (string, bool) {
	v = normStr(v)
	s, ok := v.(string)
	return s, ok
}

func mustStr(v Value) string {
	s, ok := concStr(v)
	if !ok {
		unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

// ---------------------------------------------------------------- scalars <-> terms

func (m *M) term(v Value, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return m.c.Bool(v)
	case uint64:
		w, _, ok := intInfo(t)
		if !ok {
			panic(fmt.Sprintf("term: int value for type %s", t))
		}
		return m.c.Const(w, v)
	case float64:
		w, _ := floatInfo(t)
		return m.c.FConst(w, v)
	}
	panic(fmt.Sprintf("term: %T for %s", v, t))
}

// byteTerm for byte values
func (m *M) byteTerm(v Value) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return m.c.Const(8, v.(uint64))
}

// fromTerm folds constants back to concrete values.
func fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.fp {
			return f64(t)
		}
		if t.w == 0 {
			return t.k == 1
		}
		return t.k
	}
	return t
}

// ---------------------------------------------------------------- equality

// eqVal returns bool or *Term.
func (m *M) eqVal(t types.Type, x, y Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return m.eqStr(x, y)
		case u.Info()&types.IsFloat != 0:
			xf, ok1 := x.(float64)
			yf, ok2 := y.(float64)
			if ok1 && ok2 {
				return xf == yf
			}
			return fromTerm(m.c.FCmp(OFEq, m.term(x, t), m.term(y, t)))
		case u.Info()&types.IsBoolean != 0:
			xb, ok1 := x.(bool)
			yb, ok2 := y.(bool)
			if ok1 && ok2 {
				return xb == yb
			}
			return fromTerm(m.c.Eq(m.term(x, t), m.term(y, t)))
		case u.Kind() == types.UnsafePointer:
			return x.(UPtr).p == y.(UPtr).p
		case u.Info()&types.IsComplex != 0:
			return x == y
		default:
			xi, ok1 := x.(uint64)
			yi, ok2 := y.(uint64)
			if ok1 && ok2 {
				return xi == yi
			}
			return fromTerm(m.c.Eq(m.term(x, t), m.term(y, t)))
		}
	case *types.Pointer:
		xs, ok1 := x.(*SymPtr)
		ys, ok2 := y.(*SymPtr)
		if ok1 || ok2 {
			if ok1 && ok2 && &xs.elems[0] == &ys.elems[0] {
				return fromTerm(m.c.Eq(xs.idx, ys.idx))
			}
			unsupported("comparison of symbolic pointers")
		}
		return x == y
	case *types.Chan:
		return x == y
	case *types.Map:
		return x.(*Map) == y.(*Map)
	case *types.Slice:
		return (x.(Slice) == nil) == (y.(Slice) == nil)
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	case *types.Interface:
		return m.eqIface(x.(Iface), y.(Iface))
	case *types.Struct:
		xs, ok1 := x.(Struct)
		ys, ok2 := y.(Struct)
		if !ok1 || !ok2 {
			if xn, ok := x.(*Native); ok {
				return xn == y.(*Native)
			}
		}
		var acc Value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			acc = m.andV(acc, m.eqVal(u.Field(i).Type(), xs[i], ys[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case *types.Array:
		xs, ys := x.(Array), y.(Array)
		var acc Value = true
		for i := range xs {
			acc = m.andV(acc, m.eqVal(u.Elem(), xs[i], ys[i]))
			if acc == false {
				return false
			}
		}
		return acc
	}
	panic(fmt.Sprintf("eqVal %s", t))
}

func isNilFunc(v Value) bool {
	switch v := v.(type) {
	case *Func:
		return v == nil
	case *ssa.Builtin:
		return v == nil
	case nil:
		return true
	}
	return false
}

func (m *M) andV(x, y Value) Value {
	if b, ok := x.(bool); ok {
		if !b {
			return false
		}
		return y
	}
	if b, ok := y.(bool); ok {
		if !b {
			return false
		}
		return x
	}
	return fromTerm(m.c.BAnd(x.(*Term), y.(*Term)))
}
func (m *M) notV(x Value) Value {
	if b, ok := x.(bool); ok {
		return !b
	}
	return fromTerm(m.c.Not(x.(*Term)))
}

func (m *M) eqStr(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	if strLen(x) != strLen(y) {
		return false
	}
	n := strLen(x)
	acc := m.c.tru
	for i := 0; i < n; i++ {
		p, q := strAt(x, i), strAt(y, i)
		if pu, ok := p.(uint64); ok {
			if qu, ok := q.(uint64); ok {
				if pu != qu {
					return false
				}
				continue
			}
		}
		if p == q {
			continue
		}
		acc = m.c.BAnd(acc, m.c.Eq(m.byteTerm(p), m.byteTerm(q)))
		if acc == m.c.fls {
			return false
		}
	}
	return fromTerm(acc)
}

func (m *M) eqIface(x, y Iface) Value {
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if x.t != y.t {
		return false
	}
	if n, ok := x.v.(*Native); ok {
		n2, ok2 := y.v.(*Native)
		if !ok2 {
			return false
		}
		if n.kind == "rtype" && n2.kind == "rtype" {
			return n.v == n2.v
		}
		return n == n2
	}
	if !types.Comparable(x.t) {
		m.rtPanic("comparing uncomparable type " + x.t.String())
	}
	return m.eqVal(x.t, x.v, y.v)
}

// ---------------------------------------------------------------- map keys

// keyOf encodes a concrete value; ok=false if it contains symbolic parts.
func keyOf(t types.Type, v Value) (string, bool) {
	var sb strings.Builder
	ok := keyTo(&sb, t, v)
	return sb.String(), ok
}

func keyTo(sb *strings.Builder, t types.Type, v Value) bool {
	switch v := v.(type) {
	case bool:
		if v {
			sb.WriteByte('T')
		} else {
			sb.WriteByte('F')
		}
	case uint64:
		sb.WriteByte('i')
		sb.WriteString(strconv.FormatUint(v, 16))
	case float64:
		sb.WriteByte('f')
		if v == 0 {
			v = 0
		}
		sb.WriteString(strconv.FormatUint(math.Float64bits(v), 16))
	case string:
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(len(v)))
		sb.WriteByte(':')
		sb.WriteString(v)
	case *SymStr:
		return false
	case *ViewStr:
		return keyTo(sb, t, normStr(v))
	case *Term, *SymPtr:
		return false
	case *Value:
		fmt.Fprintf(sb, "p%p", v)
	case *Chan:
		fmt.Fprintf(sb, "c%p", v)
	case *Native:
		if v.kind == "rtype" {
			fmt.Fprintf(sb, "n%p", v.v)
		} else {
			fmt.Fprintf(sb, "n%p", v)
		}
	case UPtr:
		fmt.Fprintf(sb, "u%v", v.p)
	case Iface:
		if v.t == nil {
			sb.WriteByte('0')
			return true
		}
		fmt.Fprintf(sb, "I%p:", v.t)
		return keyTo(sb, v.t, v.v)
	case Struct:
		sb.WriteByte('{')
		st := t.Underlying().(*types.Struct)
		for i, x := range v {
			if !keyTo(sb, st.Field(i).Type(), x) {
				return false
			}
			sb.WriteByte(',')
		}
		sb.WriteByte('}')
	case Array:
		sb.WriteByte('[')
		at := t.Underlying().(*types.Array)
		for _, x := range v {
			if !keyTo(sb, at.Elem(), x) {
				return false
			}
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	default:
		panic(fmt.Sprintf("keyTo %T", v))
	}
	return true
}

func newMap(kt types.Type) *Map {
	return &Map{idx: map[string]*mapEnt{}, kt: kt}
}

// find looks a key up, forking on symbolic equality.
func (m *M) mapFind(mp *Map, k Value) *mapEnt {
	if mp == nil {
		return nil
	}
	k = normStrDeep(k)
	if ifc, ok := k.(Iface); ok && ifc.t != nil && !types.Comparable(ifc.t) {
		m.rtPanic("hash of unhashable type " + ifc.t.String())
	}
	key, conc := keyOf(mp.kt, k)
	if conc {
		if e := mp.idx[key]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.del {
			continue
		}
		if conc {
			if _, c2 := keyOf(mp.kt, e.k); c2 {
				continue
			}
		}
		if m.branch(m.eqVal(mp.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func normStrDeep(k Value) Value {
	switch v := k.(type) {
	case *ViewStr:
		return normStr(v)
	case Iface:
		if _, ok := v.v.(*ViewStr); ok {
			return Iface{v.t, normStr(v.v)}
		}
	}
	return k
}

func (m *M) mapSet(mp *Map, k, v Value) {
	e := m.mapFind(mp, k)
	if e != nil {
		old := e.v
		m.undo(func() { e.v = old })
		e.v = v
		return
	}
	k = normStrDeep(k)
	e = &mapEnt{k: copyVal(k), v: v}
	key, conc := keyOf(mp.kt, k)
	oldEnts := mp.ents
	mp.ents = append(mp.ents[:len(mp.ents):len(mp.ents)], e)
	mp.n++
	if conc {
		mp.idx[key] = e
	} else {
		mp.nsym++
	}
	m.undo(func() {
		mp.ents = oldEnts
		mp.n--
		if conc {
			delete(mp.idx, key)
		} else {
			mp.nsym--
		}
	})
}

func (m *M) mapDelete(mp *Map, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	key, conc := keyOf(mp.kt, e.k)
	e.del = true
	oldEnts := mp.ents
	ne := make([]*mapEnt, 0, len(oldEnts))
	for _, x := range oldEnts {
		if x != e {
			ne = append(ne, x)
		}
	}
	mp.ents = ne
	mp.n--
	if conc {
		delete(mp.idx, key)
	} else {
		mp.nsym--
	}
	m.undo(func() {
		e.del = false
		mp.ents = oldEnts
		mp.n++
		if conc {
			mp.idx[key] = e
		} else {
			mp.nsym++
		}
	})
}

func (m *M) mapClear(mp *Map) {
	if mp == nil {
		return
	}
	old := *mp
	oldEnts := mp.ents
	for _, e := range oldEnts {
		e.del = true
	}
	mp.ents, mp.idx, mp.n, mp.nsym = nil, map[string]*mapEnt{}, 0, 0
	m.undo(func() {
		*mp = old
		for _, e := range oldEnts {
			e.del = false
		}
	})
}

// ---------------------------------------------------------------- printing (reports)

func (m *M) show(v Value, depth int) string {
	if depth > 4 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case bool:
		return strconv.FormatBool(v)
	case uint64:
		return strconv.FormatUint(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case string:
		return strconv.Quote(v)
	case *SymStr, *ViewStr:
		b := strBytes(v)
		s := make([]byte, len(b))
		for i, x := range b {
			s[i] = byte(m.evalV(x))
		}
		return strconv.Quote(string(s))
	case *Term:
		if v.fp {
			return strconv.FormatFloat(math.Float64frombits(m.c.Eval(v)), 'g', -1, 64)
		}
		return strconv.FormatUint(m.c.Eval(v), 10)
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, m.show(x, depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return m.show(Struct(v), depth)
	case Slice:
		var p []string
		for _, x := range v {
			p = append(p, m.show(x, depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + m.show(v.v, depth+1) + ")"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + m.show(*v, depth+1)
	case *Map:
		if v == nil {
			return "map[]"
		}
		var p []string
		for _, e := range v.ents {
			p = append(p, m.show(e.k, depth+1)+":"+m.show(e.v, depth+1))
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

func (m *M) evalV(v Value) uint64 {
	switch v := v.(type) {
	case *Term:
		return m.c.Eval(v)
	case uint64:
		return v
	case bool:
		return b2u(v)
	case float64:
		return math.Float64bits(v)
	}
	panic("evalV")
}
