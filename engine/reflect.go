package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Model of package reflect over engine values.

// rval is the payload of a reflect.Value.
type rval struct {
	t    types.Type
	v    Value  // when loc is nil
	loc  *Value // addressable location
	ro   bool   // obtained through an unexported field
	emb  bool   // ... which is embedded (its exported fields can be used)
	addr bool
}

func (r *rval) get() Value {
	if r.loc != nil {
		return *r.loc
	}
	return r.v
}

var rtypes sync.Map // types.Type -> *Native

func rtypeOf(t types.Type) *Native {
	t = canon(t)
	if n, ok := rtypes.Load(t); ok {
		return n.(*Native)
	}
	n, _ := rtypes.LoadOrStore(t, &Native{kind: "rtype", v: t})
	return n.(*Native)
}

func (m *M) rtypeIface(t types.Type) Value {
	pkg := m.P.pkgs["reflect"]
	return Iface{canon(types.NewPointer(pkg.Type("rtype").Type())), rtypeOf(t)}
}

func rvalue(r *rval) Value {
	return Struct{&Native{kind: "rval", v: r}, UPtr{}, uint64(0)}
}

func zeroRValue() Value { return Struct{(*Value)(nil), UPtr{}, uint64(0)} }

func asRVal(v Value) *rval {
	s := v.(Struct)
	if n, ok := s[0].(*Native); ok && n != nil {
		return n.v.(*rval)
	}
	return nil
}

func asRType(v Value) types.Type {
	switch x := v.(type) {
	case Iface:
		if n, ok := x.v.(*Native); ok {
			return n.v.(types.Type)
		}
	case *Native:
		return x.v.(types.Type)
	}
	unsupported("reflect type %T", v)
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *M) goPanic(msg string) {
	panic(targetPanic{Iface{canon(types.Typ[types.String]), msg}})
}

func structFieldTag(st *types.Struct, i int) string { return st.Tag(i) }

func (m *M) structFieldValue(t types.Type, i int) Value {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	sft := m.P.pkgs["reflect"].Type("StructField").Type()
	z := zero(sft).(Struct)
	fields := sft.Underlying().(*types.Struct)
	for k := 0; k < fields.NumFields(); k++ {
		switch fields.Field(k).Name() {
		case "Name":
			z[k] = f.Name()
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				z[k] = f.Pkg().Path()
			}
		case "Type":
			z[k] = m.rtypeIface(f.Type())
		case "Tag":
			z[k] = st.Tag(i)
		case "Index":
			z[k] = Slice{uint64(i)}
		case "Anonymous":
			z[k] = f.Embedded()
		}
	}
	return z
}

func nativeMethod(n *Native, name string) func(m *M, g *G, args []Value) Value {
	if n.kind != "rtype" {
		return nil
	}
	t := n.v.(types.Type)
	return func(m *M, g *G, a []Value) Value { return m.rtypeMethod(g, t, name, a[1:]) }
}

func (m *M) rtypeMethod(g *G, t types.Type, name string, a []Value) Value {
	switch name {
	case "Kind":
		return uint64(kindOf(t))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.rtypeIface(u.Elem())
		case *types.Slice:
			return m.rtypeIface(u.Elem())
		case *types.Array:
			return m.rtypeIface(u.Elem())
		case *types.Map:
			return m.rtypeIface(u.Elem())
		case *types.Chan:
			return m.rtypeIface(u.Elem())
		}
		m.goPanic("reflect: Elem of invalid type " + typeString(t))
	case "Key":
		return m.rtypeIface(t.Underlying().(*types.Map).Key())
	case "Len":
		return uint64(t.Underlying().(*types.Array).Len())
	case "String":
		return typeString(t)
	case "Name":
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	case "PkgPath":
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Path()
		}
		return ""
	case "Implements":
		return m.P.implements(t, asRType(a[0]))
	case "AssignableTo":
		return types.AssignableTo(t, asRType(a[0]))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, asRType(a[0]))
	case "Comparable":
		return types.Comparable(t)
	case "NumField":
		return uint64(t.Underlying().(*types.Struct).NumFields())
	case "Field":
		return m.structFieldValue(t, int(mustInt(m, a[0])))
	case "NumMethod":
		if i, ok := t.Underlying().(*types.Interface); ok {
			return uint64(i.NumMethods())
		}
		n := 0
		ms := m.P.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return uint64(n)
	case "Method":
		ms := exportedMethods(m, t)
		return m.methodValueStruct(t, ms[mustInt(m, a[0])], int(mustInt(m, a[0])))
	case "MethodByName":
		n := mustStr(a[0])
		for i, s := range exportedMethods(m, t) {
			if s.Obj().Name() == n {
				return Tuple{m.methodValueStruct(t, s, i), true}
			}
		}
		return Tuple{zero(m.P.pkgs["reflect"].Type("Method").Type()), false}
	case "NumIn":
		return uint64(t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return uint64(t.Underlying().(*types.Signature).Results().Len())
	case "In":
		return m.rtypeIface(t.Underlying().(*types.Signature).Params().At(int(mustInt(m, a[0]))).Type())
	case "Out":
		return m.rtypeIface(t.Underlying().(*types.Signature).Results().At(int(mustInt(m, a[0]))).Type())
	case "IsVariadic":
		return t.Underlying().(*types.Signature).Variadic()
	case "FieldByName":
		sft := m.P.pkgs["reflect"].Type("StructField").Type()
		owner, idx := fieldNamed(t, mustStr(a[0]))
		if idx == nil {
			return Tuple{zero(sft), false}
		}
		f := m.structFieldValue(owner, idx[len(idx)-1])
		st := sft.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Index" {
				l := make(Slice, len(idx))
				for k, x := range idx {
					l[k] = uint64(x)
				}
				f.(Struct)[i] = l
			}
		}
		return Tuple{f, true}
	case "Bits":
		switch kindOf(t) {
		case reflect.Int8, reflect.Uint8:
			return uint64(8)
		case reflect.Int16, reflect.Uint16:
			return uint64(16)
		case reflect.Int32, reflect.Uint32, reflect.Float32:
			return uint64(32)
		}
		return uint64(64)
	case "Size":
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
	}
	unsupported("reflect.Type.%s", name)
	return nil
}

// rIter is the state of a reflect.MapIter.
type rIter struct {
	r    *rval
	ents [][2]Value
	i    int
}

// exportedMethods lists the exported methods in the order reflect numbers them.
func exportedMethods(m *M, t types.Type) []*types.Selection {
	var res []*types.Selection
	ms := m.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			res = append(res, ms.At(i))
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Obj().Name() < res[j].Obj().Name() })
	return res
}

// rMethod is the bound method value.
func (m *M) rMethod(r *rval, s *types.Selection) Value {
	sig := s.Obj().Type().(*types.Signature)
	t := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	recv := r.t
	v := copyVal(r.get())
	if _, ok := recv.Underlying().(*types.Interface); ok {
		i := v.(Iface)
		if i.t == nil {
			m.goPanic("reflect: Method on nil interface value")
		}
		recv, v = i.t, i.v
	}
	f := &Func{name: s.Obj().Name()}
	f.native = func(m *M, g *G, args []Value) Value {
		if n, ok := v.(*Native); ok && n != nil {
			if f := nativeMethod(n, s.Obj().Name()); f != nil {
				return f(m, g, append([]Value{v}, args...))
			}
		}
		fn := m.P.methodByName(recv, s.Obj().Name())
		if fn == nil {
			unsupported("reflect method %s", s.Obj())
		}
		return m.callFn(g, nil, fn, append([]Value{copyVal(v)}, args...), nil)
	}
	return rvalue(&rval{t: t, v: f, ro: r.ro})
}

// methodValueStruct is the reflect.Method of the i-th exported method.
func (m *M) methodValueStruct(t types.Type, s *types.Selection, i int) Value {
	mt := m.P.pkgs["reflect"].Type("Method").Type()
	v := zero(mt).(Struct)
	st := mt.Underlying().(*types.Struct)
	sig := s.Obj().Type().(*types.Signature)
	for k := 0; k < st.NumFields(); k++ {
		switch st.Field(k).Name() {
		case "Name":
			v[k] = s.Obj().Name()
		case "Index":
			v[k] = uint64(i)
		case "Type":
			ps := []*types.Var{types.NewParam(0, nil, "", t)}
			if _, ok := t.Underlying().(*types.Interface); ok {
				ps = nil
			}
			for j := 0; j < sig.Params().Len(); j++ {
				ps = append(ps, sig.Params().At(j))
			}
			v[k] = m.rtypeIface(types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic()))
		}
	}
	return v
}

// fieldNamed finds a field, embedded ones included.
func fieldNamed(t types.Type, name string) (types.Type, []int) {
	type item struct {
		t   types.Type
		idx []int
	}
	level := []item{{t, nil}}
	for len(level) > 0 && len(level[0].idx) < 8 {
		var next []item
		var found []item
		for _, it := range level {
			u := it.t
			if p, ok := u.Underlying().(*types.Pointer); ok && len(it.idx) > 0 {
				u = p.Elem()
			}
			st, ok := u.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				idx := append(append([]int{}, it.idx...), i)
				if st.Field(i).Name() == name {
					found = append(found, item{u, idx})
				} else if st.Field(i).Embedded() {
					next = append(next, item{st.Field(i).Type(), idx})
				}
			}
		}
		if len(found) == 1 {
			return found[0].t, found[0].idx
		}
		if len(found) > 1 {
			return nil, nil
		}
		level = next
	}
	return nil, nil
}

func (m *M) rInterface(r *rval) Value {
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return r.get()
	}
	return Iface{canon(r.t), copyVal(r.get())}
}

func (m *M) rElem(r *rval) Value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := r.get().(*Value)
		if !ok {
			unsupported("reflect Elem of %T", r.get())
		}
		if p == nil {
			return zeroRValue()
		}
		return rvalue(&rval{t: u.Elem(), loc: p, addr: true, ro: r.ro})
	case *types.Interface:
		i := r.get().(Iface)
		if i.t == nil {
			return zeroRValue()
		}
		return rvalue(&rval{t: i.t, v: i.v, ro: r.ro})
	}
	m.goPanic("reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value")
	return nil
}

func (m *M) rIsNil(r *rval) bool {
	switch x := r.get().(type) {
	case *Value:
		return x == nil
	case *SymPtr:
		return false
	case Slice:
		return x == nil
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case Iface:
		return x.t == nil
	case *Native:
		return x == nil
	case UPtr:
		return x.p == nil
	case *Func, *ssa.Builtin:
		return isNilFunc(x)
	}
	m.goPanic("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
	return false
}

// assignTo converts a value of type t for storing into a variable of type dst.
func (m *M) rAssign(dst types.Type, r *rval) Value {
	v := copyVal(r.get())
	if _, ok := dst.Underlying().(*types.Interface); ok {
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return v
		}
		return Iface{canon(r.t), v}
	}
	if !types.AssignableTo(r.t, dst) {
		m.goPanic("reflect.Set: value of type " + typeString(r.t) + " is not assignable to type " + typeString(dst))
	}
	return v
}

func (m *M) rIsZero(r *rval) Value {
	switch kindOf(r.t) {
	case reflect.Slice, reflect.Map, reflect.Pointer, reflect.Interface, reflect.Chan, reflect.Func:
		return m.rIsNil(r)
	}
	if kindOf(r.t) == reflect.Struct {
		st := r.t.Underlying().(*types.Struct)
		var acc Value = true
		for i := 0; i < st.NumFields(); i++ {
			acc = m.andV(acc, m.rIsZero(&rval{t: st.Field(i).Type(), v: r.get().(Struct)[i]}))
		}
		return acc
	}
	if a, ok := r.t.Underlying().(*types.Array); ok {
		var acc Value = true
		for _, x := range r.get().(Array) {
			acc = m.andV(acc, m.rIsZero(&rval{t: a.Elem(), v: x}))
		}
		return acc
	}
	return m.eqVal(r.t, r.get(), zero(r.t))
}

func (m *M) deepEqual(t types.Type, x, y Value, depth int) Value {
	if depth > 30 {
		unsupported("reflect.DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, ok1 := x.(*Value)
		b, ok2 := y.(*Value)
		if !ok1 || !ok2 {
			return m.eqVal(t, x, y)
		}
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return m.deepEqual(u.Elem(), *a, *b, depth+1)
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var acc Value = true
		for i := range a {
			acc = m.andV(acc, m.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return acc
	case *types.Array:
		a, b := x.(Array), y.(Array)
		var acc Value = true
		for i := range a {
			acc = m.andV(acc, m.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return acc
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		var acc Value = true
		for i := range a {
			acc = m.andV(acc, m.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return acc
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		return m.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		var acc Value = true
		for _, e := range a.ents {
			if e.del {
				continue
			}
			f := m.mapFind(b, e.k)
			if f == nil {
				return false
			}
			acc = m.andV(acc, m.deepEqual(u.Elem(), e.v, f.v, depth+1))
		}
		return acc
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	}
	return m.eqVal(t, x, y)
}

func (m *M) mustSet(r *rval) {
	if r.ro {
		m.goPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	if r.loc == nil || !r.addr {
		m.goPanic("reflect: reflect.Value.Set using unaddressable value")
	}
}

var reflectFns map[string]intrinsic

func reflectIntrinsic(fn *ssa.Function, name string) intrinsic {
	if fn.Name() == "init" {
		return noop
	}
	if f, ok := reflectFns[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "(reflect.Kind)") || strings.HasPrefix(name, "(reflect.StructTag)") || strings.HasPrefix(name, "(reflect.StructField)") || strings.HasPrefix(name, "(*reflect.ValueError)") {
		return nil
	}
	if strings.HasPrefix(name, "reflect.TypeFor") && len(fn.TypeArgs()) == 1 {
		t := fn.TypeArgs()[0]
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value { return m.rtypeIface(t) }
	}
	if strings.HasPrefix(name, "reflect.TypeAssert") && len(fn.TypeArgs()) == 1 {
		t := fn.TypeArgs()[0]
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			r := asRVal(a[0])
			if r == nil {
				m.goPanic("reflect: call of reflect.TypeAssert on zero Value")
			}
			if r.ro {
				m.goPanic("reflect.TypeAssert: cannot return value obtained from unexported field or method")
			}
			return m.typeAssert(&ssa.TypeAssert{CommaOk: true}, canon(t), m.rInterface(r).(Iface))
		}
	}
	if strings.HasPrefix(name, "(*reflect.rtype).") {
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			return m.rtypeMethod(g, asRType(a[0]), fn.Name(), a[1:])
		}
	}
	return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		unsupported("reflect: %s", name)
		return nil
	}
}

func init() {
	reflectFns = map[string]intrinsic{}
	def := func(name string, f func(m *M, g *G, a []Value) Value) {
		reflectFns[name] = func(m *M, g *G, fn *ssa.Function, a []Value) Value { return f(m, g, a) }
	}
	def("reflect.TypeOf", func(m *M, g *G, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return m.rtypeIface(i.t)
	})
	def("reflect.ValueOf", func(m *M, g *G, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return zeroRValue()
		}
		return rvalue(&rval{t: i.t, v: i.v})
	})
	def("reflect.Indirect", func(m *M, g *G, a []Value) Value {
		r := asRVal(a[0])
		if r == nil || kindOf(r.t) != reflect.Pointer {
			return a[0]
		}
		return m.rElem(r)
	})
	def("reflect.New", func(m *M, g *G, a []Value) Value {
		t := asRType(a[0])
		p := new(Value)
		*p = zero(t)
		return rvalue(&rval{t: types.NewPointer(t), v: p})
	})
	def("reflect.Zero", func(m *M, g *G, a []Value) Value {
		t := asRType(a[0])
		return rvalue(&rval{t: t, v: zero(t)})
	})
	def("reflect.PointerTo", func(m *M, g *G, a []Value) Value { return m.rtypeIface(types.NewPointer(asRType(a[0]))) })
	def("reflect.PtrTo", func(m *M, g *G, a []Value) Value { return m.rtypeIface(types.NewPointer(asRType(a[0]))) })
	def("reflect.SliceOf", func(m *M, g *G, a []Value) Value { return m.rtypeIface(types.NewSlice(asRType(a[0]))) })
	def("reflect.DeepEqual", func(m *M, g *G, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return m.deepEqual(x.t, x.v, y.v, 0)
	})
	def("reflect.MakeSlice", func(m *M, g *G, a []Value) Value {
		t := asRType(a[0])
		n, c := int(mustInt(m, a[1])), int(mustInt(m, a[2]))
		s := make(Slice, c)
		for i := range s {
			s[i] = zero(t.Underlying().(*types.Slice).Elem())
		}
		return rvalue(&rval{t: t, v: s[:n]})
	})
	def("reflect.MakeMap", func(m *M, g *G, a []Value) Value {
		t := asRType(a[0])
		return rvalue(&rval{t: t, v: newMap(t.Underlying().(*types.Map).Key())})
	})
	reflectFns["reflect.MakeMapWithSize"] = reflectFns["reflect.MakeMap"]
	def("reflect.AppendSlice", func(m *M, g *G, a []Value) Value {
		r, s := asRVal(a[0]), asRVal(a[1])
		n := append(append(Slice{}, r.get().(Slice)...), s.get().(Slice)...)
		return rvalue(&rval{t: r.t, v: n})
	})
	def("reflect.Append", func(m *M, g *G, a []Value) Value {
		r := asRVal(a[0])
		n := append(Slice{}, r.get().(Slice)...)
		el := r.t.Underlying().(*types.Slice).Elem()
		for _, x := range a[1].(Slice) {
			n = append(n, m.rAssign(el, asRVal(x)))
		}
		return rvalue(&rval{t: r.t, v: n})
	})
	vm := func(names string, f func(m *M, r *rval, a []Value) Value) {
		for _, n := range strings.Fields(names) {
			n := n
			def("(reflect.Value)."+n, func(m *M, g *G, a []Value) Value {
				r := asRVal(a[0])
				if r == nil {
					switch n {
					case "IsValid":
						return false
					case "Kind":
						return uint64(0)
					case "String":
						return "<invalid Value>"
					case "CanSet", "CanAddr", "CanInterface":
						return false
					}
					m.goPanic("reflect: call of reflect.Value." + n + " on zero Value")
				}
				return f(m, r, a[1:])
			})
		}
	}
	vm("IsValid", func(m *M, r *rval, a []Value) Value { return true })
	vm("Kind", func(m *M, r *rval, a []Value) Value { return uint64(kindOf(r.t)) })
	vm("Type", func(m *M, r *rval, a []Value) Value { return m.rtypeIface(r.t) })
	vm("IsNil", func(m *M, r *rval, a []Value) Value { return m.rIsNil(r) })
	vm("IsZero", func(m *M, r *rval, a []Value) Value { return m.rIsZero(r) })
	vm("Elem", func(m *M, r *rval, a []Value) Value { return m.rElem(r) })
	vm("CanSet", func(m *M, r *rval, a []Value) Value { return r.loc != nil && r.addr && !r.ro })
	vm("CanAddr", func(m *M, r *rval, a []Value) Value { return r.loc != nil && r.addr })
	vm("CanInterface", func(m *M, r *rval, a []Value) Value { return !r.ro })
	vm("Interface", func(m *M, r *rval, a []Value) Value {
		if r.ro {
			m.goPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.rInterface(r)
	})
	vm("Addr", func(m *M, r *rval, a []Value) Value {
		if r.loc == nil || !r.addr {
			m.goPanic("reflect.Value.Addr of unaddressable value")
		}
		return rvalue(&rval{t: types.NewPointer(r.t), v: r.loc, ro: r.ro})
	})
	vm("NumField", func(m *M, r *rval, a []Value) Value { return uint64(r.t.Underlying().(*types.Struct).NumFields()) })
	vm("NumMethod", func(m *M, r *rval, a []Value) Value { return m.rtypeMethod(nil, r.t, "NumMethod", nil) })
	field := func(m *M, r *rval, i int) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			m.goPanic("reflect: call of reflect.Value.Field on " + kindOf(r.t).String() + " Value")
		}
		f := st.Field(i)
		sticky := r.ro && !r.emb
		n := &rval{t: f.Type(), ro: sticky || !f.Exported(), emb: !sticky && !f.Exported() && f.Embedded(), addr: r.addr}
		if r.loc != nil {
			n.loc = &(*r.loc).(Struct)[i]
		} else {
			n.v = r.v.(Struct)[i]
		}
		return rvalue(n)
	}
	vm("Field", func(m *M, r *rval, a []Value) Value { return field(m, r, int(mustInt(m, a[0]))) })
	vm("FieldByName", func(m *M, r *rval, a []Value) Value {
		_, idx := fieldNamed(r.t, mustStr(a[0]))
		if idx == nil {
			return zeroRValue()
		}
		c := r
		for i, k := range idx {
			if i > 0 && kindOf(c.t) == reflect.Pointer {
				if m.rIsNil(c) {
					m.goPanic("reflect: indirection through nil pointer to embedded struct")
				}
				c = asRVal(m.rElem(c))
			}
			c = asRVal(field(m, c, k))
		}
		return rvalue(c)
	})
	vm("Index", func(m *M, r *rval, a []Value) Value {
		i := int(mustInt(m, a[0]))
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := r.get().(Slice)
			if i < 0 || i >= len(s) {
				m.goPanic("reflect: slice index out of range")
			}
			return rvalue(&rval{t: u.Elem(), loc: &s[i], addr: true, ro: r.ro})
		case *types.Array:
			if r.loc != nil {
				return rvalue(&rval{t: u.Elem(), loc: &(*r.loc).(Array)[i], addr: r.addr, ro: r.ro})
			}
			return rvalue(&rval{t: u.Elem(), v: r.v.(Array)[i], ro: r.ro})
		case *types.Basic:
			return rvalue(&rval{t: types.Typ[types.Uint8], v: strAt(r.get(), i), ro: r.ro})
		}
		unsupported("reflect Index of %s", r.t)
		return nil
	})
	vm("Len", func(m *M, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case string, *SymStr, *ViewStr:
			return uint64(strLen(x))
		case *Chan:
			unsupported("reflect Len of chan")
		}
		m.goPanic("reflect: call of reflect.Value.Len on " + kindOf(r.t).String() + " Value")
		return nil
	})
	vm("Int", func(m *M, r *rval, a []Value) Value {
		if _, s, ok := intInfo(r.t); !ok || !s {
			m.goPanic("reflect: call of reflect.Value.Int on " + kindOf(r.t).String() + " Value")
		}
		return m.convert(r.t, types.Typ[types.Int64], r.get())
	})
	vm("Uint", func(m *M, r *rval, a []Value) Value {
		if _, s, ok := intInfo(r.t); !ok || s {
			m.goPanic("reflect: call of reflect.Value.Uint on " + kindOf(r.t).String() + " Value")
		}
		return m.convert(r.t, types.Typ[types.Uint64], r.get())
	})
	vm("Float", func(m *M, r *rval, a []Value) Value {
		if _, ok := floatInfo(r.t); !ok {
			m.goPanic("reflect: call of reflect.Value.Float on " + kindOf(r.t).String() + " Value")
		}
		return m.convert(r.t, types.Typ[types.Float64], r.get())
	})
	vm("Bool", func(m *M, r *rval, a []Value) Value {
		if !isBoolT(r.t) {
			m.goPanic("reflect: call of reflect.Value.Bool on " + kindOf(r.t).String() + " Value")
		}
		return r.get()
	})
	vm("String", func(m *M, r *rval, a []Value) Value {
		if !isString(r.t) {
			return "<" + typeString(r.t) + " Value>"
		}
		return normStr(r.get())
	})
	vm("Bytes", func(m *M, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			return x
		}
		unsupported("reflect Bytes of %T", r.get())
		return nil
	})
	vm("Set", func(m *M, r *rval, a []Value) Value {
		m.mustSet(r)
		x := asRVal(a[0])
		if x == nil {
			m.goPanic("reflect: call of reflect.Value.Set on zero Value")
		}
		m.store(r.loc, m.rAssign(r.t, x))
		return nil
	})
	setConv := func(name string, src types.BasicKind) {
		vm(name, func(m *M, r *rval, a []Value) Value {
			m.mustSet(r)
			m.store(r.loc, m.convert(types.Typ[src], r.t, a[0]))
			return nil
		})
	}
	setConv("SetInt", types.Int64)
	setConv("SetUint", types.Uint64)
	setConv("SetFloat", types.Float64)
	vm("SetString SetBool SetBytes", func(m *M, r *rval, a []Value) Value {
		m.mustSet(r)
		m.store(r.loc, a[0])
		return nil
	})
	vm("SetZero", func(m *M, r *rval, a []Value) Value {
		m.mustSet(r)
		m.store(r.loc, zero(r.t))
		return nil
	})
	vm("SetLen", func(m *M, r *rval, a []Value) Value {
		m.mustSet(r)
		m.store(r.loc, r.get().(Slice)[:mustInt(m, a[0])])
		return nil
	})
	vm("OverflowInt", func(m *M, r *rval, a []Value) Value {
		w, _, _ := intInfo(r.t)
		x := m.term(a[0], types.Typ[types.Int64])
		return m.notV(m.eqVal(types.Typ[types.Int64], fromTerm(m.c.Sext(m.c.Extract(x, 0, w), 64)), a[0]))
	})
	vm("OverflowUint", func(m *M, r *rval, a []Value) Value {
		w, _, _ := intInfo(r.t)
		x := m.term(a[0], types.Typ[types.Int64])
		return m.notV(m.eqVal(types.Typ[types.Int64], fromTerm(m.c.Zext(m.c.Extract(x, 0, w), 64)), a[0]))
	})
	vm("OverflowFloat", func(m *M, r *rval, a []Value) Value {
		if w, _ := floatInfo(r.t); w == 64 {
			return false
		}
		unsupported("OverflowFloat on float32")
		return nil
	})
	vm("Convert", func(m *M, r *rval, a []Value) Value {
		t := asRType(a[0])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return rvalue(&rval{t: t, v: m.rInterface(r)})
		}
		if types.Identical(r.t.Underlying(), t.Underlying()) {
			return rvalue(&rval{t: t, v: copyVal(r.get())})
		}
		return rvalue(&rval{t: t, v: m.convert(r.t, t, r.get())})
	})
	vm("CanConvert", func(m *M, r *rval, a []Value) Value { return types.ConvertibleTo(r.t, asRType(a[0])) })
	vm("Comparable", func(m *M, r *rval, a []Value) Value { return types.Comparable(r.t) })
	vm("MapIndex", func(m *M, r *rval, a []Value) Value {
		mp := r.get().(*Map)
		mt := r.t.Underlying().(*types.Map)
		if mp == nil {
			return zeroRValue()
		}
		e := m.mapFind(mp, m.rAssign(mt.Key(), asRVal(a[0])))
		if e == nil {
			return zeroRValue()
		}
		return rvalue(&rval{t: mt.Elem(), v: copyVal(e.v), ro: r.ro})
	})
	vm("SetMapIndex", func(m *M, r *rval, a []Value) Value {
		mp := r.get().(*Map)
		mt := r.t.Underlying().(*types.Map)
		k := m.rAssign(mt.Key(), asRVal(a[0]))
		e := asRVal(a[1])
		if e == nil {
			if mp != nil {
				m.mapDelete(mp, k)
			}
			return nil
		}
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapSet(mp, k, m.rAssign(mt.Elem(), e))
		return nil
	})
	vm("MapKeys", func(m *M, r *rval, a []Value) Value {
		mp := r.get().(*Map)
		mt := r.t.Underlying().(*types.Map)
		s := Slice{}
		if mp != nil {
			for _, e := range mp.ents {
				if !e.del {
					s = append(s, rvalue(&rval{t: mt.Key(), v: e.k, ro: r.ro}))
				}
			}
		}
		return s
	})
	vm("Slice", func(m *M, r *rval, a []Value) Value {
		i, j := int(mustInt(m, a[0])), int(mustInt(m, a[1]))
		switch x := r.get().(type) {
		case Slice:
			if i < 0 || j < i || j > cap(x) {
				m.goPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return rvalue(&rval{t: r.t, v: x[i:j], ro: r.ro})
		case Array:
			if !r.addr || r.loc == nil {
				m.goPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			return rvalue(&rval{t: types.NewSlice(r.t.Underlying().(*types.Array).Elem()), v: Slice(x)[i:j], ro: r.ro})
		case string, *SymStr, *ViewStr:
			if i < 0 || j < i || j > strLen(x) {
				m.goPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			b := strBytes(x)
			return rvalue(&rval{t: r.t, v: mkStr(b[i:j]), ro: r.ro})
		}
		m.goPanic("reflect: call of reflect.Value.Slice on " + kindOf(r.t).String() + " Value")
		return nil
	})
	vm("Cap", func(m *M, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		}
		unsupported("reflect Cap of %s", r.t)
		return nil
	})
	vm("Grow", func(m *M, r *rval, a []Value) Value {
		m.mustSet(r)
		x := r.get().(Slice)
		if n := int(mustInt(m, a[0])); len(x)+n > cap(x) {
			s := make(Slice, 2*len(x)+n)
			copy(s, x)
			for i := len(x); i < len(s); i++ {
				s[i] = zero(r.t.Underlying().(*types.Slice).Elem())
			}
			m.store(r.loc, s[:len(x)])
		}
		return nil
	})
	kinds := func(n string, ks ...reflect.Kind) {
		vm(n, func(m *M, r *rval, a []Value) Value {
			for _, k := range ks {
				if kindOf(r.t) == k {
					return true
				}
			}
			return false
		})
	}
	kinds("CanInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	kinds("CanUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	kinds("CanFloat", reflect.Float32, reflect.Float64)
	kinds("CanComplex", reflect.Complex64, reflect.Complex128)
	vm("FieldByIndex", func(m *M, r *rval, a []Value) Value {
		var v Value = rvalue(r)
		for i, x := range a[0].(Slice) {
			c := asRVal(v)
			if i > 0 && kindOf(c.t) == reflect.Pointer {
				if m.rIsNil(c) {
					m.goPanic("reflect: indirection through nil pointer to embedded struct")
				}
				c = asRVal(m.rElem(c))
			}
			v = field(m, c, int(mustInt(m, x)))
		}
		return v
	})
	reflectFns["(reflect.Value).FieldByIndexErr"] = func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		return Tuple{reflectFns["(reflect.Value).FieldByIndex"](m, g, fn, a), Iface{}}
	}
	vm("Method", func(m *M, r *rval, a []Value) Value {
		ms := exportedMethods(m, r.t)
		i := int(mustInt(m, a[0]))
		if i < 0 || i >= len(ms) {
			m.goPanic("reflect: Method index out of range")
		}
		return m.rMethod(r, ms[i])
	})
	vm("MethodByName", func(m *M, r *rval, a []Value) Value {
		n := mustStr(a[0])
		for _, s := range exportedMethods(m, r.t) {
			if s.Obj().Name() == n {
				return m.rMethod(r, s)
			}
		}
		return zeroRValue()
	})
	def("(reflect.Value).Call", func(m *M, g *G, a []Value) Value {
		r := asRVal(a[0])
		sig, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			m.goPanic("reflect: call of Call on " + kindOf(r.t).String() + " Value")
		}
		in := a[1].(Slice)
		np := sig.Params().Len()
		var args []Value
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == np-1 {
				rest := Slice{}
				el := pt.Underlying().(*types.Slice).Elem()
				for _, x := range in[min(i, len(in)):] {
					rest = append(rest, m.rAssign(el, asRVal(x)))
				}
				if len(rest) == 0 {
					rest = nil
				}
				args = append(args, rest)
				break
			}
			if i >= len(in) {
				m.goPanic("reflect: Call with too few input arguments")
			}
			args = append(args, m.rAssign(pt, asRVal(in[i])))
		}
		if len(in) > np && !sig.Variadic() {
			m.goPanic("reflect: Call with too many input arguments")
		}
		if isNilFunc(r.get()) {
			m.goPanic("reflect: call of nil function")
		}
		res := m.call(g, nil, r.get(), args)
		out := Slice{}
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, rvalue(&rval{t: sig.Results().At(0).Type(), v: res}))
		default:
			for i, x := range res.(Tuple) {
				out = append(out, rvalue(&rval{t: sig.Results().At(i).Type(), v: x}))
			}
		}
		return out
	})
	def("(reflect.Value).Equal", func(m *M, g *G, a []Value) Value {
		x, y := asRVal(a[0]), asRVal(a[1])
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		for _, v := range []**rval{&x, &y} {
			if kindOf((*v).t) == reflect.Interface {
				if i := (*v).get().(Iface); i.t != nil {
					*v = &rval{t: i.t, v: i.v}
				}
			}
		}
		if canon(x.t) != canon(y.t) {
			return false
		}
		return m.eqVal(x.t, x.get(), y.get())
	})
	vm("MapRange", func(m *M, r *rval, a []Value) Value {
		p := new(Value)
		*p = &Native{kind: "mapiter", v: &rIter{r: r, i: -1}}
		return p
	})
	it := func(a Value) *rIter {
		p, ok := a.(*Value)
		if !ok || p == nil {
			unsupported("reflect.MapIter")
		}
		n, ok := (*p).(*Native)
		if !ok || n.kind != "mapiter" {
			unsupported("reflect.MapIter")
		}
		return n.v.(*rIter)
	}
	def("(*reflect.MapIter).Next", func(m *M, g *G, a []Value) Value {
		x := it(a[0])
		if x.ents == nil {
			if mp := x.r.get().(*Map); mp != nil {
				for _, e := range mp.ents {
					if !e.del {
						x.ents = append(x.ents, [2]Value{e.k, e.v})
					}
				}
			}
		}
		i := x.i
		m.undo(func() { x.i = i })
		x.i++
		return x.i < len(x.ents)
	})
	def("(*reflect.MapIter).Key", func(m *M, g *G, a []Value) Value {
		x := it(a[0])
		return rvalue(&rval{t: x.r.t.Underlying().(*types.Map).Key(), v: x.ents[x.i][0], ro: x.r.ro})
	})
	def("(*reflect.MapIter).Value", func(m *M, g *G, a []Value) Value {
		x := it(a[0])
		return rvalue(&rval{t: x.r.t.Underlying().(*types.Map).Elem(), v: copyVal(x.ents[x.i][1]), ro: x.r.ro})
	})
	def("reflect.Copy", func(m *M, g *G, a []Value) Value {
		d, s := asRVal(a[0]), asRVal(a[1])
		dst := d.get().(Slice)
		var src []Value
		switch x := s.get().(type) {
		case Slice:
			src = x
		default:
			src = strBytes(x)
		}
		n := min(len(dst), len(src))
		for i := 0; i < n; i++ {
			m.set(&dst[i], copyVal(src[i]))
		}
		return uint64(n)
	})
	vm("UnsafeAddr", func(m *M, r *rval, a []Value) Value {
		if r.loc == nil {
			unsupported("reflect address")
		}
		return m.fakeAddr(r.loc)
	})
	vm("Pointer", func(m *M, r *rval, a []Value) Value {
		if p, ok := r.get().(*Value); ok {
			return m.fakeAddr(p)
		}
		unsupported("reflect pointer value")
		return nil
	})
	vm("UnsafePointer", func(m *M, r *rval, a []Value) Value {
		unsupported("reflect pointer value")
		return nil
	})
	_ = fmt.Sprint
}

// fakeAddr is a number that identifies a location (a struct and its first field get different ones).
func (m *M) fakeAddr(p *Value) Value {
	if p == nil {
		return uint64(0)
	}
	if m.addrs == nil {
		m.addrs = map[*Value]uint64{}
	}
	n, ok := m.addrs[p]
	if !ok {
		n = 0xc000000000 + uint64(len(m.addrs)+1)*64
		m.addrs[p] = n
	}
	return n
}
