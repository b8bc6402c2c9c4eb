package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func constBool(c *ssa.Const) Value { return constant.BoolVal(c.Value) }
func constStr(c *ssa.Const) Value {
	if c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return string(rune(c.Int64()))
}

func (m *M) binop(op token.Token, t, t2 types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.eqMixed(t, t2, x, y)
	case token.NEQ:
		return m.notV(m.eqMixed(t, t2, x, y))
	}
	if op == token.SHL || op == token.SHR {
		return m.shift(op, t, t2, x, y)
	}
	switch x.(type) {
	case string, *SymStr, *ViewStr:
		switch op {
		case token.ADD:
			return strConcat(normStr(x), normStr(y))
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.notV(m.strLess(y, x))
		case token.GEQ:
			return m.notV(m.strLess(x, y))
		}
	case bool:
		switch op {
		case token.AND, token.LAND:
			return m.andV(x, y)
		case token.OR, token.LOR:
			return m.notV(m.andV(m.notV(x), m.notV(y)))
		}
	}
	if w, signed, ok := intInfo(t); ok {
		xi, ok1 := x.(uint64)
		yi, ok2 := y.(uint64)
		if ok1 && ok2 {
			return m.intOp(op, w, signed, xi, yi)
		}
		return m.termOp(op, w, signed, m.term(x, t), m.term(y, t))
	}
	if w, ok := floatInfo(t); ok {
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			var r float64
			switch op {
			case token.ADD:
				r = xf + yf
			case token.SUB:
				r = xf - yf
			case token.MUL:
				r = xf * yf
			case token.QUO:
				r = xf / yf
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			}
			if w == 32 {
				r = float64(float32(r))
			}
			return r
		}
		a, b := m.term(x, t), m.term(y, t)
		c := m.c
		switch op {
		case token.ADD:
			return fromTerm(c.FBin(OFAdd, a, b))
		case token.SUB:
			return fromTerm(c.FBin(OFSub, a, b))
		case token.MUL:
			return fromTerm(c.FBin(OFMul, a, b))
		case token.QUO:
			return fromTerm(c.FBin(OFDiv, a, b))
		case token.LSS:
			return fromTerm(c.FCmp(OFLt, a, b))
		case token.LEQ:
			return fromTerm(c.FCmp(OFLe, a, b))
		case token.GTR:
			return fromTerm(c.FCmp(OFLt, b, a))
		case token.GEQ:
			return fromTerm(c.FCmp(OFLe, b, a))
		}
	}
	if isBoolT(t) {
		switch op {
		case token.AND:
			return m.andV(x, y)
		case token.OR:
			return m.notV(m.andV(m.notV(x), m.notV(y)))
		}
	}
	unsupported("binop %s on %s (%T)", op, t, x)
	return nil
}

func (m *M) eqMixed(t, t2 types.Type, x, y Value) Value {
	// comparison of interface with concrete value
	xi, okx := x.(Iface)
	yi, oky := y.(Iface)
	if okx && oky {
		return m.eqIface(xi, yi)
	}
	if okx && !oky {
		if _, isI := t2.Underlying().(*types.Interface); !isI {
			return m.eqIface(xi, Iface{canon(t2), y})
		}
	}
	if oky && !okx {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			return m.eqIface(Iface{canon(t), x}, yi)
		}
	}
	return m.eqVal(t, x, y)
}

func (m *M) strLess(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, b := strBytes(x), strBytes(y)
	// from the end: less_i = a[i]<b[i] or (a[i]==b[i] and less_{i+1})
	n := min(len(a), len(b))
	acc := m.c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := m.byteTerm(a[i]), m.byteTerm(b[i])
		acc = m.c.BOr(m.c.Ult(p, q), m.c.BAnd(m.c.Eq(p, q), acc))
	}
	return fromTerm(acc)
}

func (m *M) intOp(op token.Token, w uint8, signed bool, x, y uint64) Value {
	mk := maskw(w)
	switch op {
	case token.ADD:
		return (x + y) & mk
	case token.SUB:
		return (x - y) & mk
	case token.MUL:
		return (x * y) & mk
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.QUO, token.REM:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		if signed {
			a, b := sext64(x, w), sext64(y, w)
			if b == -1 {
				if op == token.QUO {
					return uint64(-a) & mk
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(a/b) & mk
			}
			return uint64(a%b) & mk
		}
		if op == token.QUO {
			return x / y
		}
		return x % y
	case token.LSS:
		if signed {
			return sext64(x, w) < sext64(y, w)
		}
		return x < y
	case token.LEQ:
		if signed {
			return sext64(x, w) <= sext64(y, w)
		}
		return x <= y
	case token.GTR:
		if signed {
			return sext64(x, w) > sext64(y, w)
		}
		return x > y
	case token.GEQ:
		if signed {
			return sext64(x, w) >= sext64(y, w)
		}
		return x >= y
	}
	panic("intOp " + op.String())
}

func (m *M) termOp(op token.Token, w uint8, signed bool, a, b *Term) Value {
	c := m.c
	lt := func(p, q *Term) *Term {
		if signed {
			return c.Slt(p, q)
		}
		return c.Ult(p, q)
	}
	var r *Term
	switch op {
	case token.ADD:
		r = c.Add(a, b)
	case token.SUB:
		r = c.Sub(a, b)
	case token.MUL:
		r = c.Mul(a, b)
	case token.AND:
		r = c.And(a, b)
	case token.OR:
		r = c.Or(a, b)
	case token.XOR:
		r = c.Xor(a, b)
	case token.AND_NOT:
		r = c.AndNot(a, b)
	case token.QUO, token.REM:
		if m.branch(fromTerm(c.Eq(b, c.Const(w, 0)))) {
			m.rtPanic("integer divide by zero")
		}
		if signed {
			if op == token.QUO {
				r = c.SDiv(a, b)
			} else {
				r = c.SRem(a, b)
			}
		} else if op == token.QUO {
			r = c.UDiv(a, b)
		} else {
			r = c.URem(a, b)
		}
	case token.LSS:
		r = lt(a, b)
	case token.GTR:
		r = lt(b, a)
	case token.LEQ:
		r = c.Not(lt(b, a))
	case token.GEQ:
		r = c.Not(lt(a, b))
	default:
		panic("termOp " + op.String())
	}
	return fromTerm(r)
}

func (m *M) shift(op token.Token, t, t2 types.Type, x, y Value) Value {
	w, signed, _ := intInfo(t)
	w2, signed2, ok2 := intInfo(t2)
	if !ok2 {
		w2 = 64
	}
	if yi, ok := y.(uint64); ok {
		if signed2 && sext64(yi, w2) < 0 {
			m.rtPanic("negative shift amount")
		}
		if xi, ok := x.(uint64); ok {
			if op == token.SHL {
				if yi >= uint64(w) {
					return uint64(0)
				}
				return (xi << yi) & maskw(w)
			}
			if signed {
				if yi > 63 {
					yi = 63
				}
				return uint64(sext64(xi, w)>>yi) & maskw(w)
			}
			if yi >= uint64(w) {
				return uint64(0)
			}
			return xi >> yi
		}
		if yi > uint64(w) {
			yi = uint64(w)
		}
		a := m.term(x, t)
		b := m.c.Const(w, yi)
		if yi == uint64(w) && w < 8 {
			b = m.c.Const(w, maskw(w))
		}
		return m.shTerm(op, signed, a, b)
	}
	a := m.term(x, t)
	b := m.term(y, t2)
	if signed2 && b.smin < 0 {
		if m.branch(fromTerm(m.c.Slt(b, m.c.Const(w2, 0)))) {
			m.rtPanic("negative shift amount")
		}
	}
	// bring to width w saturating
	if b.w > w {
		lim := m.c.Const(b.w, uint64(w))
		b = m.c.Extract(m.c.Ite(m.c.Ult(b, lim), b, lim), 0, w)
	} else {
		b = m.c.Zext(b, w)
	}
	return m.shTerm(op, signed, a, b)
}

func (m *M) shTerm(op token.Token, signed bool, a, b *Term) Value {
	switch {
	case op == token.SHL:
		return fromTerm(m.c.Shl(a, b))
	case signed:
		return fromTerm(m.c.Ashr(a, b))
	}
	return fromTerm(m.c.Lshr(a, b))
}

func (m *M) unop(op token.Token, t types.Type, x Value) Value {
	switch op {
	case token.NOT:
		return m.notV(x)
	case token.SUB:
		if w, _, ok := intInfo(t); ok {
			if xi, ok := x.(uint64); ok {
				return (-xi) & maskw(w)
			}
			return fromTerm(m.c.Sub(m.c.Const(w, 0), x.(*Term)))
		}
		if xf, ok := x.(float64); ok {
			return -xf
		}
		return fromTerm(m.c.FNeg(x.(*Term)))
	case token.XOR:
		w, _, _ := intInfo(t)
		if xi, ok := x.(uint64); ok {
			return ^xi & maskw(w)
		}
		return fromTerm(m.c.Xor(x.(*Term), m.c.Const(w, maskw(w))))
	}
	unsupported("unop %s", op)
	return nil
}

// convert implements ssa.Convert (and ChangeType-like conversions between basic kinds).
func (m *M) convert(src, dst types.Type, x Value) Value {
	us, ud := src.Underlying(), dst.Underlying()
	sb, sok := us.(*types.Basic)
	db, dok := ud.(*types.Basic)
	// unsafe.Pointer
	if dok && db.Kind() == types.UnsafePointer {
		if u, ok := x.(UPtr); ok {
			return u
		}
		if v, ok := x.(*Value); ok && v == nil {
			return UPtr{}
		}
		if v, ok := x.(uint64); ok && v == 0 {
			return UPtr{}
		}
		return UPtr{x}
	}
	if sok && sb.Kind() == types.UnsafePointer {
		if pt, ok := ud.(*types.Pointer); ok {
			u := x.(UPtr)
			if u.p == nil {
				return (*Value)(nil)
			}
			return m.upcast(u.p, pt)
		}
		unsupported("unsafe.Pointer to %s", dst)
	}
	if sok && dok {
		if sb.Info()&types.IsInteger != 0 {
			w, signed, _ := intInfo(sb)
			if w2, _, ok := intInfo(db); ok {
				if xi, ok := x.(uint64); ok {
					if signed {
						return uint64(sext64(xi, w)) & maskw(w2)
					}
					return xi & maskw(w2)
				}
				t := x.(*Term)
				switch {
				case w2 == w:
					return t
				case w2 < w:
					return fromTerm(m.c.Extract(t, 0, w2))
				case signed:
					return fromTerm(m.c.Sext(t, w2))
				}
				return fromTerm(m.c.Zext(t, w2))
			}
			if w2, ok := floatInfo(db); ok {
				if xi, ok := x.(uint64); ok {
					var f float64
					if signed {
						f = float64(sext64(xi, w))
						if w2 == 32 {
							f = float64(float32(sext64(xi, w)))
						}
					} else {
						f = float64(xi)
						if w2 == 32 {
							f = float64(float32(xi))
						}
					}
					return f
				}
				if signed {
					return fromTerm(m.c.FConv(OFFromS, x.(*Term), w2))
				}
				return fromTerm(m.c.FConv(OFFromU, x.(*Term), w2))
			}
			if db.Info()&types.IsString != 0 {
				if xi, ok := x.(uint64); ok {
					r := rune(utf8.RuneError)
					if signed {
						if v := sext64(xi, w); v >= 0 && v <= utf8.MaxRune {
							r = rune(v)
						}
					} else if xi <= utf8.MaxRune {
						r = rune(xi)
					}
					return string(r)
				}
				return m.runeToStr(x.(*Term), w, signed)
			}
		}
		if w, ok := floatInfo(sb); ok {
			if w2, ok := floatInfo(db); ok {
				if xf, ok := x.(float64); ok {
					if w2 == 32 {
						return float64(float32(xf))
					}
					return xf
				}
				return fromTerm(m.c.FConv(OFFromF, x.(*Term), w2))
			}
			if w2, s2, ok := intInfo(db); ok {
				if xf, ok := x.(float64); ok {
					if s2 {
						return uint64(floatToInt64(xf)) & maskw(w2)
					}
					return floatToUint64(xf) & maskw(w2)
				}
				return m.floatToInt(x.(*Term), w, w2, s2)
			}
		}
		if sb.Info()&types.IsString != 0 && db.Info()&types.IsString != 0 {
			return x
		}
		if sb.Info()&types.IsBoolean != 0 && db.Info()&types.IsBoolean != 0 {
			return x
		}
		if sb.Info()&types.IsComplex != 0 {
			return x
		}
	}
	if sok && sb.Info()&types.IsString != 0 {
		if st, ok := ud.(*types.Slice); ok {
			if b, ok := st.Elem().Underlying().(*types.Basic); ok {
				if b.Kind() == types.Uint8 {
					bs := strBytes(x)
					r := make(Slice, len(bs))
					copy(r, bs)
					return r
				}
				if b.Kind() == types.Int32 {
					return m.strToRunes(x)
				}
			}
		}
	}
	if st, ok := us.(*types.Slice); ok && dok && db.Info()&types.IsString != 0 {
		if b, ok := st.Elem().Underlying().(*types.Basic); ok {
			s := x.(Slice)
			if b.Kind() == types.Uint8 {
				r := make([]Value, len(s))
				copy(r, s)
				return mkStr(r)
			}
			if b.Kind() == types.Int32 {
				var acc Value = ""
				for _, e := range s {
					acc = strConcat(acc, m.convert(types.Typ[types.Int32], types.Typ[types.String], e))
				}
				return acc
			}
		}
	}
	if types.Identical(us, ud) {
		return x
	}
	if _, ok := us.(*types.Pointer); ok {
		if _, ok := ud.(*types.Pointer); ok {
			return x
		}
	}
	if _, ok := us.(*types.Slice); ok {
		if at, ok := ud.(*types.Array); ok {
			s := x.(Slice)
			if int64(len(s)) < at.Len() {
				m.rtPanic("cannot convert slice to array: length too short")
			}
			return copyVal(Array(s[:at.Len()]))
		}
		if _, ok := ud.(*types.Slice); ok {
			return x
		}
	}
	unsupported("convert %s to %s (%T)", src, dst, x)
	return nil
}

// floatToInt64 follows amd64 (out of range gives the minimum).
func floatToInt64(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}
func floatToUint64(f float64) uint64 {
	return uint64(f)
}

func (m *M) floatToInt(t *Term, w, w2 uint8, signed bool) Value {
	c := m.c
	// in range?
	lo := c.FConst(w, -9223372036854775808.0)
	hi := c.FConst(w, 9223372036854775808.0)
	in := c.BAnd(c.FCmp(OFLe, lo, t), c.FCmp(OFLt, t, hi))
	if signed {
		var r *Term
		if m.branch(fromTerm(in)) {
			r = c.FConv(OFToS, t, 64)
		} else {
			r = c.Const(64, 1<<63)
		}
		return fromTerm(c.Extract(r, 0, w2))
	}
	hiU := c.FConst(w, 18446744073709551616.0)
	if m.branch(fromTerm(c.BAnd(c.FCmp(OFLe, c.FConst(w, 0), t), c.FCmp(OFLt, t, hiU)))) {
		return fromTerm(c.Extract(c.FConv(OFToU, t, 64), 0, w2))
	}
	unsupported("float to unsigned out of range (implementation-defined)")
	return nil
}

func (m *M) runeToStr(t *Term, w uint8, signed bool) Value {
	c := m.c
	if w < 32 {
		t = c.Zext(t, 32)
		w = 32
	}
	K := func(v uint64) *Term { return c.Const(w, v) }
	b := func(x *Term) Value { return fromTerm(c.Extract(x, 0, 8)) }
	if m.branch(fromTerm(c.Ult(t, K(0x80)))) {
		return mkStr([]Value{b(t)})
	}
	low6 := func(x *Term) *Term { return c.Or(c.And(x, K(0x3f)), K(0x80)) }
	if m.branch(fromTerm(c.Ult(t, K(0x800)))) {
		return mkStr([]Value{b(c.Or(c.LshrC(t, 6), K(0xc0))), b(low6(t))})
	}
	if m.branch(fromTerm(c.Not(c.Ult(K(0x10ffff), t)))) {
		if m.branch(fromTerm(c.Ult(t, K(0x10000)))) {
			if m.branch(fromTerm(c.BAnd(c.Not(c.Ult(t, K(0xd800))), c.Ult(t, K(0xe000))))) {
				return "\uFFFD"
			}
			return mkStr([]Value{b(c.Or(c.LshrC(t, 12), K(0xe0))), b(low6(c.LshrC(t, 6))), b(low6(t))})
		}
		return mkStr([]Value{b(c.Or(c.LshrC(t, 18), K(0xf0))), b(low6(c.LshrC(t, 12))), b(low6(c.LshrC(t, 6))), b(low6(t))})
	}
	return "\uFFFD"
}

func (m *M) strToRunes(x Value) Value {
	if s, ok := concStr(x); ok {
		var r Slice
		for _, c := range s {
			r = append(r, uint64(uint32(c)))
		}
		if r == nil {
			r = Slice{}
		}
		return r
	}
	r := Slice{}
	for i := 0; i < strLen(x); {
		c, n := m.decodeRune(x, i)
		r = append(r, c)
		i += n
	}
	return r
}

// decodeRune decodes the rune at byte i, forking on symbolic bytes.
func (m *M) decodeRune(x Value, i int) (Value, int) {
	c := m.c
	b0 := strAt(x, i)
	n := strLen(x) - i
	allConc := true
	var buf []byte
	for k := 0; k < n && k < 4; k++ {
		v, ok := strAt(x, i+k).(uint64)
		if !ok {
			allConc = false
			break
		}
		buf = append(buf, byte(v))
		if v < 0x80 {
			break
		}
	}
	if allConc || (len(buf) > 0 && utf8.FullRune(buf)) {
		r, sz := utf8.DecodeRune(buf)
		return uint64(uint32(r)), sz
	}
	t := m.byteTerm(b0)
	K := func(v uint64) *Term { return c.Const(8, v) }
	z := func(v *Term) *Term { return c.Zext(v, 32) }
	in := func(v *Term, lo, hi uint64) bool {
		return m.branch(fromTerm(c.BAnd(c.Not(c.Ult(v, K(lo))), c.Not(c.Ult(K(hi), v)))))
	}
	bad := Value(uint64(utf8.RuneError))
	if m.branch(fromTerm(c.Ult(t, K(0x80)))) {
		return fromTerm(z(t)), 1
	}
	if n < 2 || !in(t, 0xc2, 0xf4) {
		return bad, 1
	}
	t1 := m.byteTerm(strAt(x, i+1))
	low := func(v *Term) *Term { return z(c.And(v, K(0x3f))) }
	if m.branch(fromTerm(c.Ult(t, K(0xe0)))) {
		if !in(t1, 0x80, 0xbf) {
			return bad, 1
		}
		return fromTerm(c.Or(c.MulC(z(c.And(t, K(0x1f))), 64), low(t1))), 2
	}
	if m.branch(fromTerm(c.Ult(t, K(0xf0)))) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.branch(fromTerm(c.Eq(t, K(0xe0)))) {
			lo = 0xa0
		} else if m.branch(fromTerm(c.Eq(t, K(0xed)))) {
			hi = 0x9f
		}
		if n < 3 || !in(t1, lo, hi) {
			return bad, 1
		}
		t2 := m.byteTerm(strAt(x, i+2))
		if !in(t2, 0x80, 0xbf) {
			return bad, 1
		}
		return fromTerm(c.Or(c.Or(c.MulC(z(c.And(t, K(0x0f))), 4096), c.MulC(low(t1), 64)), low(t2))), 3
	}
	lo, hi := uint64(0x80), uint64(0xbf)
	if m.branch(fromTerm(c.Eq(t, K(0xf0)))) {
		lo = 0x90
	} else if m.branch(fromTerm(c.Eq(t, K(0xf4)))) {
		hi = 0x8f
	}
	if n < 4 || !in(t1, lo, hi) {
		return bad, 1
	}
	t2 := m.byteTerm(strAt(x, i+2))
	if !in(t2, 0x80, 0xbf) {
		return bad, 1
	}
	t3 := m.byteTerm(strAt(x, i+3))
	if !in(t3, 0x80, 0xbf) {
		return bad, 1
	}
	r := c.Or(c.Or(c.MulC(z(c.And(t, K(0x07))), 262144), c.MulC(low(t1), 4096)), c.Or(c.MulC(low(t2), 64), low(t3)))
	return fromTerm(r), 4
}

// upcast: unsafe.Pointer back to a typed pointer.
func (m *M) upcast(p Value, pt *types.Pointer) Value {
	switch v := p.(type) {
	case *Value:
		return v
	case viewPtr:
		return v.cast(pt)
	}
	if _, ok := p.(*SymPtr); ok {
		return p
	}
	unsupported("unsafe cast of %T to %s", p, pt)
	return nil
}

// viewPtr is unsafe.Pointer(&slice) or similar reinterpretations (not supported beyond identity)
type viewPtr struct{ p Value }

func (v viewPtr) cast(pt *types.Pointer) Value { return v.p }

func bitLen(u uint64) int { return bits.Len64(u) }

var _ = fmt.Sprint
