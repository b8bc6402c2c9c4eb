package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Second decision procedure: bit-vector constraints whose operations are linear are translated exactly into integer
// arithmetic (a term is represented by an integer congruent to it; it is reduced where its value matters).

type irep struct {
	e      string
	lo, hi *big.Int
}

type lia struct {
	sb    strings.Builder
	reps  map[*Term]irep
	us    map[*Term]irep
	ss    map[*Term]irep
	bools map[*Term]string
	vars  []*Term
	n     int
	fail  bool
	arith bool // contains operations that are hard for bit-blasting
}

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
)

func pow2(n uint) *big.Int        { return new(big.Int).Lsh(b1, n) }
func bigI(v int64) *big.Int       { return big.NewInt(v) }
func bigU(v uint64) *big.Int      { return new(big.Int).SetUint64(v) }
func badd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func bdiv(a, b *big.Int) *big.Int { // floor, b > 0
	return new(big.Int).Div(a, b)
}
func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func num(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (l *lia) def(e, sort string) string {
	if len(e) < 24 {
		return e
	}
	l.n++
	n := fmt.Sprintf("i%d", l.n)
	fmt.Fprintf(&l.sb, "(define-fun %s () %s %s)\n", n, sort, e)
	return n
}

func (l *lia) mk(e string, lo, hi *big.Int) irep { return irep{l.def(e, "Int"), lo, hi} }

func (l *lia) bad() irep { l.fail = true; return irep{"0", b0, b0} }

func (l *lia) divc(a irep, k *big.Int) irep {
	if k.Cmp(b1) == 0 {
		return a
	}
	return l.mk("(div "+a.e+" "+num(k)+")", bdiv(a.lo, k), bdiv(a.hi, k))
}

func (l *lia) modc(a irep, k *big.Int) irep {
	if a.lo.Sign() >= 0 && a.hi.Cmp(k) < 0 {
		return a
	}
	if ql, qh := bdiv(a.lo, k), bdiv(a.hi, k); ql.Cmp(qh) == 0 {
		d := bmul(ql, k)
		return l.mk("(- "+a.e+" "+num(d)+")", bsub(a.lo, d), bsub(a.hi, d))
	}
	return l.mk("(mod "+a.e+" "+num(k)+")", b0, bsub(k, b1))
}

func (l *lia) u(t *Term) irep {
	if r, ok := l.us[t]; ok {
		return r
	}
	r := l.modc(l.rep(t), pow2(uint(t.w)))
	l.us[t] = r
	return r
}

func (l *lia) s(t *Term) irep {
	if r, ok := l.ss[t]; ok {
		return r
	}
	r := l.rep(t)
	h := pow2(uint(t.w) - 1)
	if r.lo.Cmp(new(big.Int).Neg(h)) < 0 || r.hi.Cmp(h) >= 0 {
		x := l.modc(irep{"(+ " + r.e + " " + num(h) + ")", badd(r.lo, h), badd(r.hi, h)}, pow2(uint(t.w)))
		r = l.mk("(- "+x.e+" "+num(h)+")", bsub(x.lo, h), bsub(x.hi, h))
	}
	l.ss[t] = r
	return r
}

func (l *lia) rep(t *Term) irep {
	if r, ok := l.reps[t]; ok {
		return r
	}
	if l.fail {
		return l.bad()
	}
	r := l.rep1(t)
	l.reps[t] = r
	return r
}

func (l *lia) rep1(t *Term) irep {
	if t.fp {
		return l.bad()
	}
	w := t.w
	switch t.op {
	case OConst:
		v := bigI(sext64(t.k, w))
		return irep{num(v), v, v}
	case OVar:
		l.vars = append(l.vars, t)
		n := fmt.Sprintf("v%d", t.k)
		lo, hi := bigU(t.umin), bigU(t.umax)
		if t.smin < 0 && (t.smin > minS(w) || t.smax < maxS(w)) {
			lo, hi = bigI(t.smin), bigI(t.smax)
		}
		fmt.Fprintf(&l.sb, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", n, num(lo), n, num(hi))
		return irep{n, lo, hi}
	case OLin:
		lo := bigI(sext64(t.k, w))
		hi := new(big.Int).Set(lo)
		var p []string
		if lo.Sign() != 0 {
			p = append(p, num(lo))
		}
		for _, it := range t.lin {
			c := bigI(sext64(it.c, w))
			r := l.rep(it.t)
			x, y := bmul(c, r.lo), bmul(c, r.hi)
			lo, hi = badd(lo, bmin(x, y)), badd(hi, bmax(x, y))
			if c.Cmp(b1) == 0 {
				p = append(p, r.e)
			} else {
				l.arith = true
				p = append(p, "(* "+num(c)+" "+r.e+")")
			}
		}
		if len(p) == 1 {
			return l.mk(p[0], lo, hi)
		}
		return l.mk("(+ "+strings.Join(p, " ")+")", lo, hi)
	case OUDiv, OURem, OSDiv, OSRem:
		if t.b.op != OConst || t.b.k == 0 {
			return l.bad()
		}
		l.arith = true
		if t.op == OUDiv || t.op == OURem {
			k := bigU(t.b.k)
			if t.op == OUDiv {
				return l.divc(l.u(t.a), k)
			}
			return l.modc(l.u(t.a), k)
		}
		kk := sext64(t.b.k, w)
		if kk <= 0 {
			return l.bad()
		}
		k := bigI(kk)
		a := l.s(t.a)
		var q irep
		switch {
		case a.lo.Sign() >= 0:
			q = l.divc(a, k)
		default:
			neg := new(big.Int).Neg
			q = l.mk(fmt.Sprintf("(ite (<= 0 %s) (div %s %s) (- (div (- %s) %s)))", a.e, a.e, num(k), a.e, num(k)),
				neg(bdiv(neg(a.lo), k)), bmax(b0, bdiv(a.hi, k)))
		}
		if t.op == OSDiv {
			return q
		}
		lo, hi := bsub(b1, k), bsub(k, b1)
		if a.lo.Sign() >= 0 {
			lo = b0
		}
		if a.hi.Sign() <= 0 {
			hi = b0
		}
		return l.mk(fmt.Sprintf("(- %s (* %s %s))", a.e, num(k), q.e), lo, hi)
	case OAnd:
		a, b := t.a, t.b
		if a.op == OConst {
			a, b = b, a
		}
		if b.op != OConst {
			return l.bad()
		}
		k := b.k & maskw(w)
		if k == 0 {
			return irep{"0", b0, b0}
		}
		z := uint(bits.TrailingZeros64(k))
		n := uint(bits.Len64(k)) // field bits z..n-1
		if k>>z != uint64(1)<<(n-z)-1 && !(n-z == 64) {
			return l.bad()
		}
		x := l.u(a)
		if n < uint(w) {
			x = l.modc(x, pow2(n))
		}
		if z == 0 {
			return x
		}
		d := l.divc(x, pow2(z))
		return l.mk("(* "+num(pow2(z))+" "+d.e+")", bmul(pow2(z), d.lo), bmul(pow2(z), d.hi))
	case OOr, OXor:
		if t.a.ones&t.b.ones != 0 {
			return l.bad()
		}
		a, b := l.u(t.a), l.u(t.b)
		return l.mk("(+ "+a.e+" "+b.e+")", badd(a.lo, b.lo), badd(a.hi, b.hi))
	case OShl, OLshr, OAshr:
		if t.b.op != OConst || t.b.k >= uint64(w) {
			return l.bad()
		}
		p := pow2(uint(t.b.k))
		switch t.op {
		case OShl:
			a := l.rep(t.a)
			return l.mk("(* "+num(p)+" "+a.e+")", bmul(p, a.lo), bmul(p, a.hi))
		case OLshr:
			return l.divc(l.u(t.a), p)
		}
		return l.divc(l.s(t.a), p)
	case OZext:
		return l.u(t.a)
	case OSext:
		return l.s(t.a)
	case OExtract:
		if t.k == 0 {
			return l.rep(t.a)
		}
		return l.divc(l.u(t.a), pow2(uint(t.k)))
	case OIte:
		c := l.bool(t.a)
		b, d := l.rep(t.b), l.rep(t.c)
		return l.mk("(ite "+c+" "+b.e+" "+d.e+")", bmin(b.lo, d.lo), bmax(b.hi, d.hi))
	}
	return l.bad()
}

func (l *lia) bool(t *Term) string {
	if r, ok := l.bools[t]; ok {
		return r
	}
	if l.fail {
		return "true"
	}
	r := l.def(l.bool1(t), "Bool")
	l.bools[t] = r
	return r
}

func (l *lia) bool1(t *Term) string {
	switch t.op {
	case OConst:
		if t.k != 0 {
			return "true"
		}
		return "false"
	case OVar:
		l.vars = append(l.vars, t)
		fmt.Fprintf(&l.sb, "(declare-const v%d Bool)\n", t.k)
		return fmt.Sprintf("v%d", t.k)
	case ONot:
		return "(not " + l.bool(t.a) + ")"
	case OBAnd:
		return "(and " + l.bool(t.a) + " " + l.bool(t.b) + ")"
	case OBOr:
		return "(or " + l.bool(t.a) + " " + l.bool(t.b) + ")"
	case OIte:
		return "(ite " + l.bool(t.a) + " " + l.bool(t.b) + " " + l.bool(t.c) + ")"
	case OEq:
		if t.a.fp || t.b.fp {
			break
		}
		if t.a.w == 0 {
			return "(= " + l.bool(t.a) + " " + l.bool(t.b) + ")"
		}
		a, b := l.rep(t.a), l.rep(t.b)
		p := pow2(uint(t.a.w))
		dl, dh := bsub(a.lo, b.hi), bsub(a.hi, b.lo)
		if dh.Cmp(p) < 0 && dl.Cmp(new(big.Int).Neg(p)) > 0 {
			return "(= " + a.e + " " + b.e + ")"
		}
		a, b = l.u(t.a), l.u(t.b)
		return "(= " + a.e + " " + b.e + ")"
	case OUlt:
		return "(< " + l.u(t.a).e + " " + l.u(t.b).e + ")"
	case OSlt:
		return "(< " + l.s(t.a).e + " " + l.s(t.b).e + ")"
	}
	l.fail = true
	return "true"
}

// liaText is the integer form of the constraints, "" if there is none.
func liaText(cs []*Term, timeout int) (string, []*Term, bool) {
	l := &lia{reps: map[*Term]irep{}, us: map[*Term]irep{}, ss: map[*Term]irep{}, bools: map[*Term]string{}}
	for _, t := range cs {
		b := l.bool(t)
		if l.fail {
			return "", nil, false
		}
		l.sb.WriteString("(assert " + b + ")\n")
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n", timeout)
	sb.WriteString(l.sb.String())
	sb.WriteString("(check-sat)\n")
	if len(l.vars) > 0 {
		sb.WriteString("(echo \"M\")\n(get-value (")
		for _, v := range l.vars {
			fmt.Fprintf(&sb, "v%d ", v.k)
		}
		sb.WriteString("))\n")
	}
	sb.WriteString("(echo \"END\")\n")
	return sb.String(), l.vars, l.arith
}

// Satisfies evaluates the constraints under m.
func (c *TCtx) Satisfies(cs []*Term, m map[int]uint64) bool {
	old := c.model
	c.model = make([]uint64, len(c.vars))
	for i, v := range m {
		if i < len(c.model) {
			c.model[i] = v
		}
	}
	c.gen++
	ok := true
	for _, t := range cs {
		if c.Eval(t) != 1 {
			ok = false
			break
		}
	}
	c.model = old
	c.gen++
	return ok
}
