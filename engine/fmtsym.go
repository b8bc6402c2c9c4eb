package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- fmt model

func (m *M) sprintf(g *G, f string, args []Value) Value {
	var out Value = ""
	put := func(v Value) { out = strConcat(out, normStr(v)) }
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			put(f[i:])
			break
		}
		put(f[i : i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			i++
		}
		for i < len(f) && (f[i] >= '0' && f[i] <= '9' || f[i] == '.') {
			i++
		}
		if i >= len(f) {
			put("%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			put("%")
			continue
		}
		if verb == '*' || verb == '[' {
			unsupported("format %q", f)
		}
		if ai >= len(args) {
			put("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		put(m.fmtArg(g, flags, verb, a, 0))
	}
	if ai < len(args) {
		put("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			a := args[k].(Iface)
			if k > ai {
				put(", ")
			}
			if a.t == nil {
				put("<nil>")
				continue
			}
			put(shortType(a.t))
			put("=")
			put(m.fmtArg(g, "", 'v', a, 0))
		}
		put(")")
	}
	return out
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *M) sprint(g *G, args []Value, ln bool) Value {
	var out Value = ""
	for i, a := range args {
		x := a.(Iface)
		isS := x.t != nil && isString(x.t)
		if ln && i > 0 {
			out = strConcat(out, " ")
		} else if !ln && i > 0 && !isS {
			p := args[i-1].(Iface)
			if !(p.t != nil && isString(p.t)) {
				out = strConcat(out, " ")
			}
		}
		out = strConcat(out, normStr(m.fmtArg(g, "", 'v', x, 0)))
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}

func (m *M) fmtArg(g *G, flags string, verb byte, a Iface, depth int) Value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return shortType(a.t)
	}
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	// methods
	if verb == 'v' && strings.Contains(flags, "#") {
		if s, ok := concScalarGo(a); ok {
			return s
		}
		unsupported("%%#v of %s", a.t)
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if p, ok := a.v.(*Value); ok && p == nil {
			if m.P.methodByName(a.t, "Error") != nil || m.P.methodByName(a.t, "String") != nil {
				return "<nil>"
			}
		}
		for _, n := range []string{"Error", "String"} {
			if fn := m.P.methodByName(a.t, n); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				s := m.callFn(g, nil, fn, []Value{a.v}, nil)
				return m.fmtStr(flags, verb, s)
			}
		}
	}
	return m.fmtVal(g, flags, verb, a.t, a.v, depth)
}

func concScalarGo(a Iface) (string, bool) {
	switch v := a.v.(type) {
	case string:
		return strconv.Quote(v), true
	case uint64:
		w, s, _ := intInfo(a.t)
		if s {
			return strconv.FormatInt(sext64(v, w), 10), true
		}
		return fmt.Sprintf("0x%x", v), true
	case bool:
		return strconv.FormatBool(v), true
	}
	return "", false
}

func (m *M) fmtStr(flags string, verb byte, s Value) Value {
	s = normStr(s)
	switch verb {
	case 'v', 's':
		if c, ok := s.(string); ok && flags != "" && flags != "+" {
			return fmt.Sprintf("%"+flags+"s", c)
		}
		if flags != "" && flags != "+" {
			unsupported("padding of a symbolic string")
		}
		return s
	case 'q':
		if c, ok := s.(string); ok {
			return fmt.Sprintf("%"+flags+"q", c)
		}
		// symbolic: quoting of plain characters only
		return m.symQuote(s)
	case 'x', 'X':
		if c, ok := s.(string); ok {
			return fmt.Sprintf("%"+flags+string(verb), c)
		}
		var out []Value
		for _, b := range strBytes(s) {
			t := m.byteTerm(b)
			for _, n := range []*Term{m.c.LshrC(t, 4), m.c.And(t, m.c.Const(8, 15))} {
				base := uint64('a' - 10)
				if verb == 'X' {
					base = 'A' - 10
				}
				out = append(out, fromTerm(m.c.Ite(m.c.Ult(n, m.c.Const(8, 10)), m.c.Add(n, m.c.Const(8, '0')), m.c.Add(n, m.c.Const(8, base)))))
			}
		}
		return mkStr(out)
	}
	return "%!" + string(verb) + "(string)"
}

func (m *M) symQuote(s Value) Value {
	out := []Value{uint64('"')}
	for _, b := range strBytes(s) {
		if u, ok := b.(uint64); ok {
			q := strconv.Quote(string([]byte{byte(u)}))
			for i := 1; i < len(q)-1; i++ {
				out = append(out, uint64(q[i]))
			}
			continue
		}
		t := b.(*Term)
		if m.branch(fromTerm(m.c.Eq(t, m.c.Const(8, '"')))) || m.branch(fromTerm(m.c.Eq(t, m.c.Const(8, '\\')))) {
			out = append(out, uint64('\\'), t)
			continue
		}
		if m.branch(fromTerm(m.c.BAnd(m.c.Not(m.c.Ult(t, m.c.Const(8, 32))), m.c.Ult(t, m.c.Const(8, 127))))) {
			out = append(out, t)
			continue
		}
		v := m.concretize(t)
		q := strconv.Quote(string([]byte{byte(v)}))
		for i := 1; i < len(q)-1; i++ {
			out = append(out, uint64(q[i]))
		}
	}
	out = append(out, uint64('"'))
	return mkStr(out)
}

func (m *M) fmtVal(g *G, flags string, verb byte, t types.Type, v Value, depth int) Value {
	if depth > 6 {
		unsupported("deep formatting")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if verb == 'd' || verb == 't' {
				return strConcat(strConcat("%!"+string(verb)+"(string=", normStr(v)), ")")
			}
			return m.fmtStr(flags, verb, v)
		case u.Info()&types.IsBoolean != 0:
			return strconv.FormatBool(m.branch(v))
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(u)
			if c, ok := v.(uint64); ok {
				if verb == 's' {
					return fmt.Sprintf("%%!s(%s=%d)", shortType(t), c)
				}
				if signed {
					return fmt.Sprintf("%"+flags+string(verb), sext64(c, w))
				}
				return fmt.Sprintf("%"+flags+string(verb), c)
			}
			x := v.(*Term)
			switch verb {
			case 'd', 'v', 'x', 'X':
				base := 10
				if verb == 'x' || verb == 'X' {
					base = 16
				}
				if base == 16 && !signed && len(flags) > 1 && flags[0] == '0' {
					if wd, err := strconv.Atoi(flags); err == nil && wd*4 >= int(x.w) {
						out := []Value{}
						for i := wd - 1; i >= 0; i-- {
							if i*4 >= int(x.w) {
								out = append(out, uint64('0'))
								continue
							}
							d := m.c.Zext(m.c.Extract(x, uint64(i*4), 4), 8)
							al := uint64('a' - 10)
							if verb == 'X' {
								al = 'A' - 10
							}
							out = append(out, fromTerm(m.c.Ite(m.c.Ult(d, m.c.Const(8, 10)), m.c.Add(d, m.c.Const(8, '0')), m.c.Add(d, m.c.Const(8, al)))))
						}
						return mkStr(out)
					}
				}
				s := m.symFormat(x, t, base)
				if verb == 'X' {
					bs := strBytes(s)
					for i, b := range bs {
						bt := m.byteTerm(b)
						bs[i] = fromTerm(m.c.Ite(m.c.Ult(m.c.Const(8, '9'), bt), m.c.Sub(bt, m.c.Const(8, 32)), bt))
					}
					s = mkStr(bs)
				}
				if flags != "" {
					wd, zero := 0, false
					if strings.Trim(flags, "0123456789") != "" {
						unsupported("flags %q", flags)
					}
					zero = flags[0] == '0'
					wd, _ = strconv.Atoi(flags)
					for strLen(s) < wd {
						pad := " "
						if zero {
							pad = "0"
						}
						s = strConcat(pad, s)
					}
				}
				return s
			case 'c':
				return m.convert(types.Typ[types.Int32], types.Typ[types.String], fromTerm(m.c.Extract(m.c.Zext(x, 64), 0, 32)))
			}
			unsupported("verb %%%c of a symbolic integer", verb)
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok {
				if w, _ := floatInfo(u); w == 32 {
					return fmt.Sprintf("%"+flags+string(verb), float32(f))
				}
				return fmt.Sprintf("%"+flags+string(verb), f)
			}
			if (verb == 'v' || verb == 'g') && flags == "" {
				w, _ := floatInfo(u)
				return m.symFormatFloat(v.(*Term), 'g', -1, int(w))
			}
			if verb == 'f' && flags == "" {
				return m.symFormatFloat(v.(*Term), 'f', 6, 64)
			}
			unsupported("formatting a symbolic float with %%%s%c", flags, verb)
		case u.Kind() == types.UnsafePointer:
			return "0xc000000000"
		}
	case *types.Slice, *types.Array:
		var el []Value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			el, et = v.(Slice), s.Elem()
		} else {
			el, et = v.(Array), u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			return m.fmtStr(flags, verb, mkStr(append([]Value{}, el...)))
		}
		var out Value = "["
		for i, e := range el {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, normStr(m.fmtElem(g, flags, verb, et, e, depth)))
		}
		return strConcat(out, "]")
	case *types.Map:
		mp := v.(*Map)
		if mp == nil || mp.n == 0 {
			return "map[]"
		}
		if mp.n > 1 {
			// keys are printed in sorted order
			unsupported("formatting of a map")
		}
		e := mp.ents[0]
		r := strConcat("map[", normStr(m.fmtElem(g, flags, verb, u.Key(), e.k, depth)))
		r = strConcat(r, ":")
		r = strConcat(r, normStr(m.fmtElem(g, flags, verb, u.Elem(), e.v, depth)))
		return strConcat(r, "]")
	case *types.Struct:
		var out Value = "{"
		s, ok := v.(Struct)
		if !ok {
			unsupported("formatting %s", t)
		}
		for i := range s {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if strings.Contains(flags, "+") {
				out = strConcat(out, u.Field(i).Name()+":")
			}
			out = strConcat(out, normStr(m.fmtElem(g, flags, verb, u.Field(i).Type(), s[i], depth)))
		}
		return strConcat(out, "}")
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			unsupported("formatting %s", t)
		}
		if p == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return strConcat("&", normStr(m.fmtVal(g, flags, verb, u.Elem(), *p, depth+1)))
			}
		}
		return "0xc000000000"
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return m.fmtArg(g, flags, verb, i, depth+1)
	case *types.Signature, *types.Chan:
		return "0xc000000000"
	}
	unsupported("formatting %s", t)
	return nil
}

func (m *M) fmtElem(g *G, flags string, verb byte, t types.Type, v Value, depth int) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		i := v.(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return m.fmtArg(g, flags, verb, i, depth+1)
	}
	return m.fmtArg(g, flags, verb, Iface{canon(t), v}, depth+1)
}

// ---------------------------------------------------------------- float text

type ftextEnt struct {
	b []Value
	t *Term
}

// symFormatFloat: the shortest text of a symbolic float is an opaque text that parses back to it
// (contract of strconv); its length is a placeholder.
func (m *M) symFormatFloat(t *Term, f byte, prec, bits int) Value {
	if prec != -1 || (f != 'g' && f != 'f' && f != 'e') {
		unsupported("rounding format of a symbolic float")
	}
	for _, e := range m.ftext {
		if e.t == t {
			return mkStr(e.b)
		}
	}
	b := make([]Value, 5)
	for i := range b {
		b[i] = m.freshR("ftxt", 8, '0', '9')
	}
	m.ftext = append(m.ftext, ftextEnt{b, t})
	return mkStr(b)
}

func (m *M) floatText(s Value) (Value, bool) {
	bs := strBytes(s)
	for _, e := range m.ftext {
		if len(e.b) != len(bs) {
			continue
		}
		same := true
		for i := range bs {
			if bs[i] != e.b[i] {
				same = false
				break
			}
		}
		if same {
			return e.t, true
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- uninterpreted injective hash

type ufEnt struct {
	b Value
	t *Term
}

func (m *M) ufHash(content Value) Value {
	content = normStr(content)
	for _, e := range m.uf {
		if e.b == content {
			return e.t
		}
	}
	k := m.nFresh["uf"]
	m.nFresh["uf"]++
	name := fmt.Sprintf("uf!%d", k)
	if _, ok := m.c.byName[name]; !ok {
		t := m.c.Var(name, 64, false)
		m.c.setURange(t, 1<<60, math.MaxUint64)
	}
	t := m.newVar(name, 64, false)
	for _, e := range m.uf {
		eq := m.eqStr(e.b, content)
		if b, ok := eq.(bool); ok && b {
			return e.t
		}
	}
	if m.modelChecked {
		// choose a model value consistent with the equalities
		v := uint64(1)<<60 + 1000003*uint64(k+1)
		for _, e := range m.uf {
			if x, ok := m.eqStr(e.b, content).(*Term); ok && m.c.Eval(x) != 0 {
				v = m.c.Eval(e.t)
			}
		}
		m.setModel(int(t.k), v)
		m.c.newModel()
	}
	for _, e := range m.uf {
		eq := m.eqStr(e.b, content)
		m.addPC(m.c.Eq(m.c.Eq(e.t, t), m.term(eq, types.Typ[types.Bool])))
	}
	m.uf = append(m.uf, ufEnt{content, t})
	return t
}

var _ = ssa.NaiveForm
