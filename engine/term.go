package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Terms: hash-consed SMT expressions over Bool, BitVec(1..64), Float32/64.

type Op uint8

const (
	OConst Op = iota // bool/bv/fp constant, k = bits
	OVar             // k = var index
	OLin             // sum of coef*term + k  (bv)
	OMul             // bvmul a b (both symbolic)
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext    // a zero-extended to w
	OSext    // a sign-extended to w
	OExtract // low bits of (a >> k), width w
	OIte     // a ? b : c
	// booleans
	ONot
	OBAnd
	OBOr
	OEq // a = b (any sort but FP; FP bitwise compare uses OFIs)
	OUlt
	OSlt
	// floats
	OFFromU // to_fp_unsigned a
	OFFromS // to_fp signed a
	OFFromF // to_fp a (fp)
	OFFromB // reinterpret bits
	OFToU   // fp.to_ubv
	OFToS   // fp.to_sbv
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFIs // identity (=) on fp
)

type linItem struct {
	t *Term
	c uint64
}

type Term struct {
	op         Op
	w          uint8 // 0 bool
	fp         bool
	a, b, c    *Term
	k          uint64
	lin        []linItem
	id         int
	umin, umax uint64 // unsigned interval (bv)
	smin, smax int64  // signed interval (bv)
	ones       uint64 // bits that may be one
	vars       []uint64
	evalGen    int
	evalVal    uint64
	prGen      int
}

type tkey struct {
	op      Op
	w       uint8
	fp      bool
	a, b, c *Term
	k       uint64
}

type varInfo struct {
	name string
	t    *Term
}

// TCtx is a per-worker term table.
type TCtx struct {
	tab    map[tkey]*Term
	lintab map[string]*Term
	vars   []varInfo
	byName map[string]*Term
	n      int
	tru    *Term
	fls    *Term
	// evaluation
	gen   int
	model []uint64
	tabs  map[*Term]tabInfo // lookups in constant tables
}

func newTCtx() *TCtx {
	c := &TCtx{tab: map[tkey]*Term{}, lintab: map[string]*Term{}, byName: map[string]*Term{}, tabs: map[*Term]tabInfo{}, gen: 1}
	c.tru = c.mk(tkey{op: OConst, k: 1})
	c.fls = c.mk(tkey{op: OConst, k: 0})
	return c
}

func maskw(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func minS(w uint8) int64 { return sext64(uint64(1)<<(w-1), w) }
func maxS(w uint8) int64 { return int64(maskw(w) >> 1) }

func orVars(xs ...*Term) []uint64 {
	var first []uint64
	same := true
	n := 0
	for _, x := range xs {
		if x == nil || len(x.vars) == 0 {
			continue
		}
		if first == nil {
			first = x.vars
			n = len(first)
			continue
		}
		if len(x.vars) > n {
			n = len(x.vars)
			same = false
		}
		if same {
			if len(x.vars) != len(first) {
				same = false
			} else {
				for i := range first {
					if first[i] != x.vars[i] {
						same = false
						break
					}
				}
			}
		}
	}
	if first == nil || same {
		return first
	}
	r := make([]uint64, n)
	for _, x := range xs {
		if x == nil {
			continue
		}
		for i, v := range x.vars {
			r[i] |= v
		}
	}
	return r
}

func (c *TCtx) mk(k tkey) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{op: k.op, w: k.w, fp: k.fp, a: k.a, b: k.b, c: k.c, k: k.k, id: c.n}
	t.vars = orVars(k.a, k.b, k.c)
	if !t.fp && t.w > 0 {
		c.ranges(t)
	}
	c.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isBool() bool  { return t.w == 0 }

func (c *TCtx) fullRange(t *Term) {
	t.umin, t.umax = 0, maskw(t.w)
	t.smin, t.smax = minS(t.w), maxS(t.w)
	t.ones = maskw(t.w)
}

// syncRanges derives signed from unsigned and vice versa where possible, and tightens by ones.
func (t *Term) syncRanges() {
	if t.umax > t.ones {
		t.umax = t.ones
	}
	if t.umax <= uint64(maxS(t.w)) {
		if t.smin < int64(t.umin) || t.smin < 0 {
			t.smin = int64(t.umin)
		}
		if t.smax > int64(t.umax) {
			t.smax = int64(t.umax)
		}
	}
	if t.smin >= 0 {
		if uint64(t.smin) > t.umin {
			t.umin = uint64(t.smin)
		}
		if uint64(t.smax) < t.umax {
			t.umax = uint64(t.smax)
		}
	} else if t.smax < 0 {
		lo, hi := uint64(t.smin)&maskw(t.w), uint64(t.smax)&maskw(t.w)
		if lo > t.umin {
			t.umin = lo
		}
		if hi < t.umax {
			t.umax = hi
		}
	}
	if t.umax != 0 {
		m := uint64(1)<<bits.Len64(t.umax) - 1
		if bits.Len64(t.umax) == 64 {
			m = ^uint64(0)
		}
		t.ones &= m
	} else {
		t.ones = 0
	}
}

func (c *TCtx) ranges(t *Term) {
	c.fullRange(t)
	switch t.op {
	case OConst:
		t.umin, t.umax = t.k, t.k
		t.smin, t.smax = sext64(t.k, t.w), sext64(t.k, t.w)
		t.ones = t.k
		return
	case OVar:
		return
	case OZext:
		t.umin, t.umax = t.a.umin, t.a.umax
		t.ones = t.a.ones
	case OSext:
		t.smin, t.smax = t.a.smin, t.a.smax
	case OExtract:
		t.ones = (t.a.ones >> t.k) & maskw(t.w)
		if t.a.umax>>t.k <= maskw(t.w) {
			t.umin, t.umax = t.a.umin>>t.k, t.a.umax>>t.k
		}
		if t.k == 0 && t.a.smin >= minS(t.w) && t.a.smax <= maxS(t.w) {
			t.smin, t.smax = t.a.smin, t.a.smax
		}
	case OAnd:
		t.ones = t.a.ones & t.b.ones
		t.umax = min(t.a.umax, t.b.umax)
	case OOr, OXor:
		t.ones = t.a.ones | t.b.ones
	case OLshr:
		if t.b.isConst() && t.b.k < 64 {
			t.ones = t.a.ones >> t.b.k
			t.umin, t.umax = t.a.umin>>t.b.k, t.a.umax>>t.b.k
		} else {
			t.umax = t.a.umax
		}
	case OUDiv:
		if t.b.isConst() && t.b.k != 0 {
			t.umin, t.umax = t.a.umin/t.b.k, t.a.umax/t.b.k
		}
	case OURem:
		if t.b.isConst() && t.b.k != 0 {
			t.umax = min(t.a.umax, t.b.k-1)
		}
	case OSDiv:
		if t.b.isConst() {
			d := sext64(t.b.k, t.b.w)
			if d > 0 {
				t.smin, t.smax = t.a.smin/d, t.a.smax/d
			}
		}
	case OSRem:
		if t.b.isConst() {
			d := sext64(t.b.k, t.b.w)
			if d > 0 {
				t.smin, t.smax = -(d - 1), d-1
				if t.a.smin >= 0 {
					t.smin = 0
					t.smax = min(t.smax, t.a.smax)
				}
				if t.a.smax <= 0 {
					t.smax = 0
					t.smin = max(t.smin, t.a.smin)
				}
			}
		}
	case OIte:
		t.umin, t.umax = min(t.b.umin, t.c.umin), max(t.b.umax, t.c.umax)
		t.smin, t.smax = min(t.b.smin, t.c.smin), max(t.b.smax, t.c.smax)
		t.ones = t.b.ones | t.c.ones
	case OAshr:
		if t.b.isConst() && t.b.k < 64 {
			t.smin, t.smax = t.a.smin>>t.b.k, t.a.smax>>t.b.k
		}
	}
	t.syncRanges()
}

func (c *TCtx) Const(w uint8, v uint64) *Term {
	return c.mk(tkey{op: OConst, w: w, k: v & maskw(w)})
}
func (c *TCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *TCtx) FConst(w uint8, f float64) *Term {
	if w == 32 {
		return c.mk(tkey{op: OConst, w: w, fp: true, k: uint64(math.Float32bits(float32(f)))})
	}
	return c.mk(tkey{op: OConst, w: w, fp: true, k: math.Float64bits(f)})
}

// Var returns the variable with this name. Ranges (lo..hi as unsigned or signed) are part of its identity.
func (c *TCtx) Var(name string, w uint8, fp bool) *Term {
	if t, ok := c.byName[name]; ok {
		if t.w != w || t.fp != fp {
			panic("variable sort clash: " + name)
		}
		return t
	}
	idx := uint64(len(c.vars))
	t := c.mk(tkey{op: OVar, w: w, fp: fp, k: idx})
	t.vars = make([]uint64, idx/64+1)
	t.vars[idx/64] = 1 << (idx % 64)
	c.vars = append(c.vars, varInfo{name, t})
	c.byName[name] = t
	return t
}

// URange declares the unsigned range of a fresh variable.
func (c *TCtx) setURange(t *Term, lo, hi uint64) {
	t.umin, t.umax = lo, hi
	t.syncRanges()
}
func (c *TCtx) setSRange(t *Term, lo, hi int64) {
	t.smin, t.smax = lo, hi
	t.syncRanges()
}

// ---------------------------------------------------------------- linear forms

type linb struct {
	items map[*Term]uint64
	k     uint64
	w     uint8
}

func (l *linb) add(t *Term, c uint64) {
	m := maskw(l.w)
	c &= m
	if c == 0 {
		return
	}
	switch t.op {
	case OConst:
		l.k = (l.k + c*t.k) & m
	case OLin:
		l.k = (l.k + c*t.k) & m
		for _, it := range t.lin {
			l.add1(it.t, c*it.c)
		}
	default:
		l.add1(t, c)
	}
}
func (l *linb) add1(t *Term, c uint64) {
	v := (l.items[t] + c) & maskw(l.w)
	if v == 0 {
		delete(l.items, t)
	} else {
		l.items[t] = v
	}
}

func (c *TCtx) linBuild(l *linb) *Term {
	// (x/d)*d*a + (x%d)*a => x*a
	if len(l.items) >= 2 {
		for again := true; again; {
			again = false
			for t, cf := range l.items {
				if (t.op == OSRem || t.op == OURem) && t.b.isConst() {
					dop := OSDiv
					if t.op == OURem {
						dop = OUDiv
					}
					q, ok := c.tab[tkey{op: dop, w: t.w, a: t.a, b: t.b}]
					if !ok {
						continue
					}
					if qc, ok := l.items[q]; ok && qc == (cf*t.b.k)&maskw(l.w) {
						delete(l.items, t)
						delete(l.items, q)
						l.add(t.a, cf)
						again = true
						break
					}
				}
			}
		}
	}
	if len(l.items) == 0 {
		return c.Const(l.w, l.k)
	}
	items := make([]linItem, 0, len(l.items))
	for t, cf := range l.items {
		items = append(items, linItem{t, cf})
	}
	if len(items) == 1 && items[0].c == 1 && l.k == 0 {
		return items[0].t
	}
	sort.Slice(items, func(i, j int) bool { return items[i].t.id < items[j].t.id })
	// ite lifting: k + c*ite(p, const, const) single item
	if len(items) == 1 {
		it := items[0]
		if it.t.op == OIte && it.t.b.isConst() && it.t.c.isConst() {
			return c.Ite(it.t.a, c.Const(l.w, it.t.b.k*it.c+l.k), c.Const(l.w, it.t.c.k*it.c+l.k))
		}
	}
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(l.w)))
	sb.WriteByte(':')
	sb.WriteString(strconv.FormatUint(l.k, 16))
	for _, it := range items {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(it.t.id))
		sb.WriteByte('*')
		sb.WriteString(strconv.FormatUint(it.c, 16))
	}
	key := sb.String()
	if t, ok := c.lintab[key]; ok {
		return t
	}
	c.n++
	t := &Term{op: OLin, w: l.w, k: l.k, lin: items, id: c.n}
	ts := make([]*Term, len(items))
	for i := range items {
		ts[i] = items[i].t
	}
	t.vars = orVars(ts...)
	c.linRanges(t)
	c.lintab[key] = t
	return t
}

func (c *TCtx) linRanges(t *Term) {
	c.fullRange(t)
	w := t.w
	// unsigned reading of items with unsigned coefs or signed coefs: exact integer bounds
	bounds := func(items []linItem, k *big.Int, signed bool) (lo, hi *big.Int) {
		lo, hi = new(big.Int).Set(k), new(big.Int).Set(k)
		var p, q big.Int
		for _, it := range items {
			cf := big.NewInt(sext64(it.c, w))
			if signed {
				p.SetInt64(it.t.smin)
				q.SetInt64(it.t.smax)
			} else {
				p.SetUint64(it.t.umin)
				q.SetUint64(it.t.umax)
			}
			p.Mul(&p, cf)
			q.Mul(&q, cf)
			if cf.Sign() < 0 {
				hi.Add(hi, &p)
				lo.Add(lo, &q)
			} else {
				lo.Add(lo, &p)
				hi.Add(hi, &q)
			}
		}
		return
	}
	umaxB := new(big.Int).SetUint64(maskw(w))
	try := func(signed bool, k *big.Int) {
		lo, hi := bounds(t.lin, k, signed)
		if lo.Sign() >= 0 && hi.Cmp(umaxB) <= 0 {
			t.umin = max(t.umin, lo.Uint64())
			t.umax = min(t.umax, hi.Uint64())
		}
		if lo.IsInt64() && hi.IsInt64() && lo.Int64() >= minS(w) && hi.Int64() <= maxS(w) {
			t.smin = max(t.smin, lo.Int64())
			t.smax = min(t.smax, hi.Int64())
		}
	}
	ks := big.NewInt(sext64(t.k, w))
	ku := new(big.Int).SetUint64(t.k)
	try(false, ks)
	try(true, ks)
	if ks.Sign() < 0 {
		try(false, ku)
		try(true, ku)
	}
	// coefs with top bit set as unsigned (e.g. x<<63)
	// possible ones: disjoint power-of-two placements
	on := uint64(0)
	ok := true
	var acc uint64 = t.k
	if len(t.lin) <= 8 {
		on = t.k
		for _, it := range t.lin {
			if it.c&(it.c-1) != 0 {
				ok = false
				break
			}
			sh := bits.TrailingZeros64(it.c)
			o := (it.t.ones << sh) & maskw(w)
			if o&acc != 0 {
				ok = false
				break
			}
			acc |= o
			on |= o
		}
		if ok {
			t.ones = on
		} else {
			// trailing zeros common
			tz := 64
			if t.k != 0 {
				tz = bits.TrailingZeros64(t.k)
			}
			for _, it := range t.lin {
				z := bits.TrailingZeros64(it.c)
				if it.t.ones != 0 {
					z += bits.TrailingZeros64(it.t.ones)
				}
				tz = min(tz, z)
			}
			if tz < 64 {
				t.ones &= ^uint64(0) << tz
			}
		}
	}
	t.syncRanges()
}

func (c *TCtx) linOf(w uint8) *linb { return &linb{items: map[*Term]uint64{}, w: w} }

func (c *TCtx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k+b.k)
	}
	if a.isConst() && a.k == 0 {
		return b
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	l := c.linOf(a.w)
	l.add(a, 1)
	l.add(b, 1)
	return c.linBuild(l)
}
func (c *TCtx) Sub(a, b *Term) *Term {
	l := c.linOf(a.w)
	l.add(a, 1)
	l.add(b, ^uint64(0))
	return c.linBuild(l)
}
func (c *TCtx) MulC(a *Term, k uint64) *Term {
	l := c.linOf(a.w)
	l.add(a, k)
	return c.linBuild(l)
}
func (c *TCtx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulC(b, a.k)
	}
	if b.isConst() {
		return c.MulC(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OMul, w: a.w, a: a, b: b})
}

// splitDiv: a = d*q + r with 0<=r<d structurally and no overflow (unsigned reading if !signed).
func (c *TCtx) splitDiv(a *Term, d uint64, signed bool) (q, r *Term, ok bool) {
	if a.op != OLin {
		return nil, nil, false
	}
	w := a.w
	lq, lr := c.linOf(w), c.linOf(w)
	any := false
	for _, it := range a.lin {
		cs := sext64(it.c, w)
		if cs > 0 && uint64(cs)%d == 0 {
			lq.add(it.t, uint64(cs)/d)
			any = true
		} else if cs < 0 && signed && cs != math.MinInt64 && uint64(-cs)%d == 0 {
			lq.add(it.t, uint64(-(int64(uint64(-cs) / d))))
			any = true
		} else if cs > 0 {
			lr.add(it.t, it.c)
		} else {
			return nil, nil, false
		}
	}
	if !any {
		return nil, nil, false
	}
	ks := sext64(a.k, w)
	if ks >= 0 {
		lq.k = uint64(ks) / d
		lr.k = uint64(ks) % d
	} else {
		if !signed {
			return nil, nil, false
		}
		// floor division
		dd := int64(d)
		fq := ks / dd
		fr := ks % dd
		if fr < 0 {
			fr += dd
			fq--
		}
		lq.k = uint64(fq) & maskw(w)
		lr.k = uint64(fr)
	}
	q = c.linBuild(lq)
	r = c.linBuild(lr)
	// r in [0,d) exactly (as integer sum of non-negative terms) and no overflow of d*q + r
	rb, ok1 := c.exactUMax(lr)
	if !ok1 || rb >= d {
		return nil, nil, false
	}
	if signed {
		// need: a's integer value does not wrap: check q's signed range times d fits
		if !exactS(c, lq) || !exactS(c, lr) {
			return nil, nil, false
		}
		lo := new(big.Int).Mul(big.NewInt(q.smin), new(big.Int).SetUint64(d))
		hi := new(big.Int).Mul(big.NewInt(q.smax), new(big.Int).SetUint64(d))
		hi.Add(hi, new(big.Int).SetUint64(rb))
		if lo.Cmp(big.NewInt(minS(w))) < 0 || hi.Cmp(big.NewInt(maxS(w))) > 0 {
			return nil, nil, false
		}
	} else {
		qb, ok2 := c.exactUMax(lq)
		if !ok2 {
			return nil, nil, false
		}
		hi := new(big.Int).Mul(new(big.Int).SetUint64(qb), new(big.Int).SetUint64(d))
		hi.Add(hi, new(big.Int).SetUint64(rb))
		if hi.Cmp(new(big.Int).SetUint64(maskw(w))) > 0 {
			return nil, nil, false
		}
	}
	return q, r, true
}

// splitFloor: q = floor(a/d), r = a - d*q for a linear term whose signed integer value is exact and
// whose part not divisible by d spans at most 3 multiples of d.
func (c *TCtx) splitFloor(a *Term, d uint64) (q, r *Term, ok bool) {
	if a.op != OLin || d > uint64(maxS(a.w)) {
		return nil, nil, false
	}
	w := a.w
	la := &linb{items: map[*Term]uint64{}, w: w, k: a.k}
	for _, it := range a.lin {
		la.items[it.t] = it.c
	}
	if !exactS(c, la) {
		return nil, nil, false
	}
	dd := int64(d)
	lq, lr := c.linOf(w), c.linOf(w)
	lo, hi := new(big.Int), new(big.Int)
	for _, it := range a.lin {
		cs := sext64(it.c, w)
		k, rem := cs/dd, cs%dd
		lq.add(it.t, uint64(k))
		if rem != 0 {
			lr.add(it.t, uint64(rem))
			p := new(big.Int).Mul(big.NewInt(it.t.smin), big.NewInt(rem))
			z := new(big.Int).Mul(big.NewInt(it.t.smax), big.NewInt(rem))
			if rem < 0 {
				p, z = z, p
			}
			lo.Add(lo, p)
			hi.Add(hi, z)
		}
	}
	ks := sext64(a.k, w)
	fq, fr := ks/dd, ks%dd
	if fr < 0 {
		fr += dd
		fq--
	}
	lq.k = uint64(fq) & maskw(w)
	lr.k = uint64(fr)
	lo.Add(lo, big.NewInt(fr))
	hi.Add(hi, big.NewInt(fr))
	D := big.NewInt(dd)
	m := new(big.Int).Div(lo, D) // Euclidean = floor for d > 0
	md := new(big.Int).Mul(m, D)
	if !m.IsInt64() || !md.IsInt64() {
		return nil, nil, false
	}
	hi.Sub(hi, md)
	span := new(big.Int).Div(hi, D)
	if !span.IsInt64() || span.Int64() > 2 {
		return nil, nil, false
	}
	if new(big.Int).Mul(big.NewInt(span.Int64()+1), D).Cmp(big.NewInt(maxS(w))) > 0 {
		return nil, nil, false
	}
	lq.k = (lq.k + uint64(m.Int64())) & maskw(w)
	lr.k = (lr.k - uint64(md.Int64())) & maskw(w)
	q, r = c.linBuild(lq), c.linBuild(lr)
	q0, r0 := q, r
	for j := uint64(1); j <= uint64(span.Int64()); j++ {
		ge := c.Not(c.Ult(r0, c.Const(w, j*d)))
		q = c.Ite(ge, c.Add(q0, c.Const(w, j)), q)
		r = c.Ite(ge, c.Sub(r0, c.Const(w, j*d)), r)
	}
	if !r.isConst() && r.op != OIte && (r.smin < 0 || r.smax >= dd) {
		// cannot happen: the range of r was computed from the same items
		return nil, nil, false
	}
	if r.op == OIte {
		// the result lies in [0,d) although the alternatives taken alone do not
		if r.umin == 0 && r.umax >= d {
			r.umax = min(r.umax, d-1)
		}
		r.smin, r.smax = max(r.smin, 0), min(r.smax, dd-1)
		r.umin, r.umax = max(r.umin, 0), min(r.umax, d-1)
	}
	return q, r, true
}

// exactUMax: max of the integer sum with all items read unsigned and positive coefs; ok if < 2^w.
func (c *TCtx) exactUMax(l *linb) (uint64, bool) {
	s := new(big.Int).SetUint64(l.k)
	for t, cf := range l.items {
		if sext64(cf, l.w) < 0 {
			return 0, false
		}
		s.Add(s, new(big.Int).Mul(new(big.Int).SetUint64(t.umax), new(big.Int).SetUint64(cf)))
	}
	if s.Cmp(new(big.Int).SetUint64(maskw(l.w))) > 0 {
		return 0, false
	}
	return s.Uint64(), true
}

// exactS: integer sum of items (signed reading) fits the signed range of the width
func exactS(c *TCtx, l *linb) bool {
	lo, hi := big.NewInt(sext64(l.k, l.w)), big.NewInt(sext64(l.k, l.w))
	for t, cf := range l.items {
		cs := big.NewInt(sext64(cf, l.w))
		p := new(big.Int).Mul(big.NewInt(t.smin), cs)
		q := new(big.Int).Mul(big.NewInt(t.smax), cs)
		if cs.Sign() < 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	return lo.Cmp(big.NewInt(minS(l.w))) >= 0 && hi.Cmp(big.NewInt(maxS(l.w))) <= 0
}

func (c *TCtx) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return c.Const(a.w, a.k/b.k)
	}
	if b.isConst() && b.k != 0 {
		if b.k == 1 {
			return a
		}
		if a.umax < b.k {
			return c.Const(a.w, 0)
		}
		if q, _, ok := c.splitDiv(a, b.k, false); ok {
			return q
		}
		if a.smin >= 0 {
			if q, _, ok := c.splitFloor(a, b.k); ok {
				return q
			}
		}
		if b.k&(b.k-1) == 0 {
			return c.LshrC(a, bits.TrailingZeros64(b.k))
		}
	}
	return c.mk(tkey{op: OUDiv, w: a.w, a: a, b: b})
}
func (c *TCtx) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return c.Const(a.w, a.k%b.k)
	}
	if b.isConst() && b.k != 0 {
		if a.umax < b.k {
			return a
		}
		if _, r, ok := c.splitDiv(a, b.k, false); ok {
			return r
		}
		if a.smin >= 0 {
			if _, r, ok := c.splitFloor(a, b.k); ok {
				return r
			}
		}
		if b.k&(b.k-1) == 0 {
			return c.And(a, c.Const(a.w, b.k-1))
		}
	}
	return c.mk(tkey{op: OURem, w: a.w, a: a, b: b})
}
func (c *TCtx) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	if a.smin >= 0 && b.smin >= 0 {
		return c.UDiv(a, b)
	}
	if b.isConst() && sext64(b.k, b.w) > 0 {
		if b.k == 1 {
			return a
		}
		if a.smax <= 0 && a.smin > minS(a.w) {
			if na := c.Sub(c.Const(a.w, 0), a); na.smin >= 0 {
				return c.Sub(c.Const(a.w, 0), c.UDiv(na, b))
			}
		}
		if q, r, ok := c.splitDiv(a, b.k, true); ok {
			// floor == trunc when remainder 0 or q >= 0
			if r.isConst() && r.k == 0 {
				return q
			}
			// a<0 (q<0) and r!=0: trunc = q+1
			neg := c.Slt(q, c.Const(q.w, 0))
			nz := c.Not(c.Eq(r, c.Const(r.w, 0)))
			return c.Ite(c.BAnd(neg, nz), c.Add(q, c.Const(q.w, 1)), q)
		}
		if q, r, ok := c.splitFloor(a, b.k); ok {
			neg := c.Slt(a, c.Const(a.w, 0))
			nz := c.Not(c.Eq(r, c.Const(r.w, 0)))
			return c.Ite(c.BAnd(neg, nz), c.Add(q, c.Const(q.w, 1)), q)
		}
	}
	return c.mk(tkey{op: OSDiv, w: a.w, a: a, b: b})
}
func (c *TCtx) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	if a.smin >= 0 && b.smin >= 0 {
		return c.URem(a, b)
	}
	if b.isConst() && sext64(b.k, b.w) > 0 {
		if a.smax <= 0 && a.smin > minS(a.w) {
			if na := c.Sub(c.Const(a.w, 0), a); na.smin >= 0 {
				return c.Sub(c.Const(a.w, 0), c.URem(na, b))
			}
		}
		if q, r, ok := c.splitDiv(a, b.k, true); ok {
			if r.isConst() && r.k == 0 {
				return r
			}
			neg := c.Slt(q, c.Const(q.w, 0))
			nz := c.Not(c.Eq(r, c.Const(r.w, 0)))
			return c.Ite(c.BAnd(neg, nz), c.Sub(r, b), r)
		}
		if _, r, ok := c.splitFloor(a, b.k); ok {
			neg := c.Slt(a, c.Const(a.w, 0))
			nz := c.Not(c.Eq(r, c.Const(r.w, 0)))
			return c.Ite(c.BAnd(neg, nz), c.Sub(r, b), r)
		}
	}
	return c.mk(tkey{op: OSRem, w: a.w, a: a, b: b})
}

func (c *TCtx) And(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k&b.k)
	}
	if a == b {
		return a
	}
	if b.isConst() {
		m := b.k
		if a.ones&m == 0 {
			return c.Const(a.w, 0)
		}
		if a.ones&^m == 0 {
			return a
		}
		// contiguous mask
		tz := bits.TrailingZeros64(m)
		mm := m >> tz
		if mm&(mm+1) == 0 {
			n := uint8(bits.Len64(mm))
			if tz == 0 {
				if _, r, ok := c.splitDiv(a, m+1, false); ok && m != ^uint64(0) {
					return r
				}
				if a.op == OLin {
					// low bits of a sum: drop multiples of 2^n
					return c.Zext(c.Extract(a, 0, n), a.w)
				}
				return c.Zext(c.Extract(a, 0, n), a.w)
			}
			return c.MulC(c.And(c.LshrC(a, tz), c.Const(a.w, mm)), uint64(1)<<tz)
		}
	}
	if a.ones&b.ones == 0 {
		return c.Const(a.w, 0)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(tkey{op: OAnd, w: a.w, a: a, b: b})
}
func (c *TCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k|b.k)
	}
	if a == b {
		return a
	}
	if a.ones&b.ones == 0 {
		return c.Add(a, b)
	}
	if b.isConst() && b.k == maskw(a.w) {
		return b
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(tkey{op: OOr, w: a.w, a: a, b: b})
}
func (c *TCtx) Xor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k^b.k)
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if b.isConst() && b.k == maskw(a.w) {
		return c.Sub(c.Const(a.w, maskw(a.w)), a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(tkey{op: OXor, w: a.w, a: a, b: b})
}
func (c *TCtx) AndNot(a, b *Term) *Term {
	return c.And(a, c.Xor(b, c.Const(b.w, maskw(b.w))))
}

func (c *TCtx) LshrC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= int(a.w) {
		return c.Const(a.w, 0)
	}
	if a.isConst() {
		return c.Const(a.w, a.k>>n)
	}
	if a.umax>>n == 0 {
		return c.Const(a.w, 0)
	}
	if q, _, ok := c.splitDiv(a, uint64(1)<<n, false); ok {
		return q
	}
	return c.Zext(c.Extract(a, uint64(n), a.w-uint8(n)), a.w)
}

// shifts: b is an unsigned shift count of same width as a (Go semantics: >= w gives 0 / sign)
func (c *TCtx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		return c.MulC(a, uint64(1)<<b.k)
	}
	return c.mk(tkey{op: OShl, w: a.w, a: a, b: b})
}
func (c *TCtx) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		return c.LshrC(a, int(b.k))
	}
	return c.mk(tkey{op: OLshr, w: a.w, a: a, b: b})
}
func (c *TCtx) Ashr(a, b *Term) *Term {
	if a.smin >= 0 {
		return c.Lshr(a, b)
	}
	if a.isConst() && b.isConst() {
		n := b.k
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		return c.Const(a.w, uint64(sext64(a.k, a.w)>>n))
	}
	return c.mk(tkey{op: OAshr, w: a.w, a: a, b: b})
}

// Extract: bits [lo+w-1 : lo]
func (c *TCtx) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.k>>lo)
	case OZext:
		if lo >= uint64(a.a.w) {
			return c.Const(w, 0)
		}
		if lo+uint64(w) <= uint64(a.a.w) {
			return c.Extract(a.a, lo, w)
		}
		return c.Zext(c.Extract(a.a, lo, a.a.w-uint8(lo)), w)
	case OSext:
		if lo+uint64(w) <= uint64(a.a.w) {
			return c.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return c.Sext(a.a, w)
		}
	case OExtract:
		return c.Extract(a.a, a.k+lo, w)
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	case OAnd, OOr, OXor:
		if a.b.isConst() || a.a.isConst() {
			x, y := c.Extract(a.a, lo, w), c.Extract(a.b, lo, w)
			switch a.op {
			case OAnd:
				return c.And(x, y)
			case OOr:
				return c.Or(x, y)
			}
			return c.Xor(x, y)
		}
	case OLin:
		if lo == 0 {
			l := c.linOf(w)
			l.k = a.k & maskw(w)
			for _, it := range a.lin {
				l.add(c.Extract(it.t, 0, w), it.c)
			}
			return c.linBuild(l)
		}
		if q, _, ok := c.splitDiv(a, uint64(1)<<lo, false); ok {
			return c.Extract(q, 0, w)
		}
	}
	if (a.ones>>lo)&maskw(w) == 0 {
		return c.Const(w, 0)
	}
	return c.mk(tkey{op: OExtract, w: w, a: a, k: lo})
}
func (c *TCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.k)
	case OZext:
		return c.Zext(a.a, w)
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Zext(a.b, w), c.Zext(a.c, w))
		}
	case OExtract:
		// zext(extract(x,0,n)) with x wide enough and small => zext/trunc x
		if a.k == 0 && a.a.umax <= maskw(a.w) {
			if a.a.w == w {
				return a.a
			}
			if a.a.w < w {
				return c.Zext(a.a, w)
			}
		}
	case OLin:
		if r := c.extendLin(a, w, false); r != nil {
			return r
		}
	}
	return c.mk(tkey{op: OZext, w: w, a: a})
}

func (c *TCtx) extendLin(a *Term, w uint8, signed bool) *Term {
	l := &linb{items: map[*Term]uint64{}, w: a.w, k: a.k}
	for _, it := range a.lin {
		l.items[it.t] = it.c
	}
	if signed {
		if !exactS(c, l) {
			return nil
		}
	} else {
		// integer sum under unsigned reading with signed coefs must be within [0, 2^w), for the
		// constant read signed or unsigned
		fits := func(k *big.Int) bool {
			lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
			for _, it := range a.lin {
				cs := big.NewInt(sext64(it.c, a.w))
				p := new(big.Int).Mul(new(big.Int).SetUint64(it.t.umin), cs)
				q := new(big.Int).Mul(new(big.Int).SetUint64(it.t.umax), cs)
				if cs.Sign() < 0 {
					p, q = q, p
				}
				lo.Add(lo, p)
				hi.Add(hi, q)
			}
			return lo.Sign() >= 0 && hi.Cmp(new(big.Int).SetUint64(maskw(a.w))) <= 0
		}
		if !fits(big.NewInt(sext64(a.k, a.w))) {
			if !fits(new(big.Int).SetUint64(a.k)) {
				return nil
			}
			r := c.linOf(w)
			r.k = a.k
			for _, it := range a.lin {
				r.add(c.Zext(it.t, w), uint64(sext64(it.c, a.w)))
			}
			return c.linBuild(r)
		}
	}
	r := c.linOf(w)
	r.k = uint64(sext64(a.k, a.w)) & maskw(w)
	for _, it := range a.lin {
		var e *Term
		if signed {
			e = c.Sext(it.t, w)
		} else {
			e = c.Zext(it.t, w)
		}
		r.add(e, uint64(sext64(it.c, a.w)))
	}
	return c.linBuild(r)
}

func (c *TCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sext64(a.k, a.w)))
	}
	if a.smin >= 0 {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	if a.op == OExtract && a.k == 0 && a.a.smin >= minS(a.w) && a.a.smax <= maxS(a.w) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w < w {
			return c.Sext(a.a, w)
		}
	}
	if a.op == OLin {
		if r := c.extendLin(a, w, true); r != nil {
			return r
		}
	}
	return c.mk(tkey{op: OSext, w: w, a: a})
}

// ---------------------------------------------------------------- booleans

func (c *TCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(tkey{op: ONot, a: a})
}
func (c *TCtx) BAnd(a, b *Term) *Term {
	if a == c.fls || b == c.fls {
		return c.fls
	}
	if a == c.tru || a == b {
		return b
	}
	if b == c.tru {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OBAnd, a: a, b: b})
}
func (c *TCtx) BOr(a, b *Term) *Term {
	return c.Not(c.BAnd(c.Not(a), c.Not(b)))
}
func (c *TCtx) Ite(p, a, b *Term) *Term {
	if p.isConst() {
		if p.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if p.op == ONot {
		return c.Ite(p.a, b, a)
	}
	if a.w == 0 {
		if a == c.tru && b == c.fls {
			return p
		}
		if a == c.fls && b == c.tru {
			return c.Not(p)
		}
		return c.BAnd(c.BOr(c.Not(p), a), c.BOr(p, b))
	}
	return c.mk(tkey{op: OIte, w: a.w, fp: a.fp, a: p, b: a, c: b})
}
func (c *TCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.fp {
		return c.mk(tkey{op: OFIs, a: a, b: b})
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w != 0 && len(c.tabs) > 0 {
		x, k := a, b
		if x.isConst() {
			x, k = k, x
		}
		if k.isConst() {
			if r := c.tabCmp(x, func(v uint64) bool { return v == k.k }); r != nil {
				return r
			}
		}
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(tkey{op: OEq, a: a, b: b})
	}
	if a.umax < b.umin || b.umax < a.umin || a.smax < b.smin || b.smax < a.smin {
		return c.fls
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k&^a.ones != 0 {
			return c.fls
		}
		switch a.op {
		case OZext:
			return c.Eq(a.a, c.Const(a.a.w, b.k)) // range ok by umax check
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OLin:
			if len(a.lin) == 1 {
				it := a.lin[0]
				if it.c == 1 {
					return c.Eq(it.t, c.Const(a.w, b.k-a.k))
				}
				if it.c == maskw(a.w) {
					return c.Eq(it.t, c.Const(a.w, a.k-b.k))
				}
			}
		}
	}
	if a.op == OLin || b.op == OLin {
		l := c.linOf(a.w)
		l.add(a, 1)
		l.add(b, ^uint64(0))
		d := c.linBuild(l)
		if d.isConst() {
			return c.Bool(d.k == 0)
		}
		if d.umin > 0 || d.smin > 0 || d.smax < 0 {
			return c.fls
		}
		// canonical: positive part = negative part when both sides small
		if d.op != OLin {
			return c.Eq(d, c.Const(d.w, 0))
		}
		if len(d.lin) == 1 && (d.lin[0].c == 1 || d.lin[0].c == maskw(d.w)) {
			return c.Eq(d, c.Const(d.w, 0))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(tkey{op: OEq, a: a, b: b})
}
func (c *TCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.umax < b.umin {
		return c.tru
	}
	if a.umin >= b.umax {
		return c.fls
	}
	if len(c.tabs) > 0 {
		if b.isConst() {
			if r := c.tabCmp(a, func(v uint64) bool { return v < b.k }); r != nil {
				return r
			}
		} else if a.isConst() {
			if r := c.tabCmp(b, func(v uint64) bool { return a.k < v }); r != nil {
				return r
			}
		}
	}
	if b.isConst() && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.isConst() && a.k == 0 {
		return c.Not(c.Eq(b, a))
	}
	if a.op == OZext && b.isConst() && b.k <= maskw(a.a.w) {
		return c.Ult(a.a, c.Const(a.a.w, b.k))
	}
	if b.op == OZext && a.isConst() && a.k <= maskw(b.a.w) {
		return c.Ult(c.Const(b.a.w, a.k), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(tkey{op: OUlt, a: a, b: b})
}
func (c *TCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.smax < b.smin {
		return c.tru
	}
	if a.smin >= b.smax {
		return c.fls
	}
	if a.smin >= 0 && b.smin >= 0 {
		return c.Ult(a, b)
	}
	if a.op == OLin && b.op == OLin || (a.op == OLin && len(a.lin) == 1 && a.lin[0].t == b) || (b.op == OLin && len(b.lin) == 1 && b.lin[0].t == a) {
		// compare via difference when neither side can overflow
		d := c.Sub(a, b)
		la, lb := asLin(a), asLin(b)
		dlo := new(big.Int).Sub(big.NewInt(a.smin), big.NewInt(b.smax))
		dhi := new(big.Int).Sub(big.NewInt(a.smax), big.NewInt(b.smin))
		if dlo.Cmp(big.NewInt(minS(a.w))) >= 0 && dhi.Cmp(big.NewInt(maxS(a.w))) <= 0 && exactS(c, la) && exactS(c, lb) {
			ld := asLin(d)
			if exactS(c, ld) {
				if d.smax < 0 {
					return c.tru
				}
				if d.smin >= 0 {
					return c.fls
				}
			}
		}
	}
	return c.mk(tkey{op: OSlt, a: a, b: b})
}

func asLin(t *Term) *linb {
	l := &linb{items: map[*Term]uint64{}, w: t.w}
	l.add(t, 1)
	return l
}

// ---------------------------------------------------------------- floats

func f64(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}

func (c *TCtx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := f64(a), f64(b)
		if a.w == 32 {
			x32, y32 := float32(x), float32(y)
			switch op {
			case OFAdd:
				return c.FConst(32, float64(x32+y32))
			case OFSub:
				return c.FConst(32, float64(x32-y32))
			case OFMul:
				return c.FConst(32, float64(x32*y32))
			case OFDiv:
				return c.FConst(32, float64(x32/y32))
			}
		}
		switch op {
		case OFAdd:
			return c.FConst(64, x+y)
		case OFSub:
			return c.FConst(64, x-y)
		case OFMul:
			return c.FConst(64, x*y)
		case OFDiv:
			return c.FConst(64, x/y)
		}
	}
	return c.mk(tkey{op: op, w: a.w, fp: true, a: a, b: b})
}
func (c *TCtx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := f64(a), f64(b)
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		case OFEq:
			return c.Bool(x == y)
		}
	}
	return c.mk(tkey{op: op, a: a, b: b})
}
func (c *TCtx) FConv(op Op, a *Term, w uint8) *Term {
	isF := op == OFFromU || op == OFFromS || op == OFFromF || op == OFFromB
	if a.isConst() {
		switch op {
		case OFFromU:
			if w == 32 {
				return c.FConst(32, float64(float32(a.k)))
			}
			return c.FConst(64, float64(a.k))
		case OFFromS:
			if w == 32 {
				return c.FConst(32, float64(float32(sext64(a.k, a.w))))
			}
			return c.FConst(64, float64(sext64(a.k, a.w)))
		case OFFromF:
			return c.FConst(w, f64(a))
		case OFFromB:
			return c.mk(tkey{op: OConst, w: w, fp: true, k: a.k})
		case OFToU:
			return c.Const(w, uint64(f64(a)))
		case OFToS:
			return c.Const(w, uint64(int64(f64(a))))
		}
	}
	if op == OFFromF && a.w == w {
		return a
	}
	if op == OFFromU && a.w == 64 && a.umax <= 1<<62 {
		op = OFFromS
	}
	if op == OFToU && a.op == OFFromS && a.a.umax <= 1<<53 || op == OFToS && a.op == OFFromS && a.a.smin >= -(1<<53) && a.a.smax <= 1<<53 {
		if a.w == 64 && a.a.w == 64 && w == 64 {
			return a.a // exactly representable
		}
	}
	return c.mk(tkey{op: op, w: w, fp: isF, a: a})
}
func (c *TCtx) FNeg(a *Term) *Term {
	if a.isConst() {
		return c.FConst(a.w, -f64(a))
	}
	return c.mk(tkey{op: OFNeg, w: a.w, fp: true, a: a})
}

// ---------------------------------------------------------------- evaluation under a model

func (c *TCtx) newModel() { c.gen++ }

func (c *TCtx) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evalGen == c.gen {
		return t.evalVal
	}
	v := c.eval1(t)
	if t.w > 0 && !t.fp {
		v &= maskw(t.w)
	}
	t.evalGen = c.gen
	t.evalVal = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TCtx) eval1(t *Term) uint64 {
	fl := func(x *Term) float64 {
		v := c.Eval(x)
		if x.w == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	tb := func(f float64) uint64 {
		if t.w == 32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	switch t.op {
	case OVar:
		if int(t.k) < len(c.model) {
			return c.model[t.k]
		}
		return t.umin
	case OLin:
		s := t.k
		for _, it := range t.lin {
			s += it.c * c.Eval(it.t)
		}
		return s
	case OMul:
		return c.Eval(t.a) * c.Eval(t.b)
	case OUDiv:
		d := c.Eval(t.b)
		if d == 0 {
			return ^uint64(0)
		}
		return c.Eval(t.a) / d
	case OURem:
		d := c.Eval(t.b)
		if d == 0 {
			return c.Eval(t.a)
		}
		return c.Eval(t.a) % d
	case OSDiv:
		x, y := sext64(c.Eval(t.a), t.w), sext64(c.Eval(t.b), t.w)
		if y == 0 {
			if x >= 0 {
				return ^uint64(0)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSRem:
		x, y := sext64(c.Eval(t.a), t.w), sext64(c.Eval(t.b), t.w)
		if y == 0 {
			return uint64(x)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OAnd:
		return c.Eval(t.a) & c.Eval(t.b)
	case OOr:
		return c.Eval(t.a) | c.Eval(t.b)
	case OXor:
		return c.Eval(t.a) ^ c.Eval(t.b)
	case OShl:
		n := c.Eval(t.b)
		if n >= 64 {
			return 0
		}
		return c.Eval(t.a) << n
	case OLshr:
		n := c.Eval(t.b)
		if n >= 64 {
			return 0
		}
		return c.Eval(t.a) >> n
	case OAshr:
		n := c.Eval(t.b)
		if n > 63 {
			n = 63
		}
		return uint64(sext64(c.Eval(t.a), t.w) >> n)
	case OZext:
		return c.Eval(t.a)
	case OSext:
		return uint64(sext64(c.Eval(t.a), t.a.w))
	case OExtract:
		return c.Eval(t.a) >> t.k
	case OIte:
		if c.Eval(t.a) != 0 {
			return c.Eval(t.b)
		}
		return c.Eval(t.c)
	case ONot:
		return 1 - c.Eval(t.a)
	case OBAnd:
		return c.Eval(t.a) & c.Eval(t.b)
	case OEq:
		return b2u(c.Eval(t.a) == c.Eval(t.b))
	case OUlt:
		return b2u(c.Eval(t.a) < c.Eval(t.b))
	case OSlt:
		return b2u(sext64(c.Eval(t.a), t.a.w) < sext64(c.Eval(t.b), t.b.w))
	case OFFromU:
		if t.w == 32 {
			return tb(float64(float32(c.Eval(t.a))))
		}
		return tb(float64(c.Eval(t.a)))
	case OFFromS:
		if t.w == 32 {
			return tb(float64(float32(sext64(c.Eval(t.a), t.a.w))))
		}
		return tb(float64(sext64(c.Eval(t.a), t.a.w)))
	case OFFromF:
		return tb(fl(t.a))
	case OFFromB:
		return c.Eval(t.a)
	case OFToU:
		return uint64(fl(t.a))
	case OFToS:
		return uint64(int64(fl(t.a)))
	case OFAdd:
		return tb(fl(t.a) + fl(t.b))
	case OFSub:
		return tb(fl(t.a) - fl(t.b))
	case OFMul:
		return tb(fl(t.a) * fl(t.b))
	case OFDiv:
		return tb(fl(t.a) / fl(t.b))
	case OFNeg:
		return tb(-fl(t.a))
	case OFLt:
		return b2u(fl(t.a) < fl(t.b))
	case OFLe:
		return b2u(fl(t.a) <= fl(t.b))
	case OFEq:
		return b2u(fl(t.a) == fl(t.b))
	case OFIs:
		x, y := fl(t.a), fl(t.b)
		if x != x && y != y {
			return 1
		}
		return b2u(c.Eval(t.a) == c.Eval(t.b))
	}
	panic(fmt.Sprint("eval op ", t.op))
}

// ---------------------------------------------------------------- SMT-LIB printing

func sortOf(t *Term) string {
	if t.fp {
		if t.w == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func bvc(w uint8, v uint64) string {
	return fmt.Sprintf("(_ bv%d %d)", v&maskw(w), w)
}

func fps(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// smt writes definitions for t (gen-scoped) to sb and returns its reference.
func (c *TCtx) smt(t *Term, sb *strings.Builder, gen int, decl func(*Term)) string {
	switch t.op {
	case OConst:
		if t.fp {
			return fmt.Sprintf("((_ to_fp %s) %s)", fps(t.w), bvc(t.w, t.k))
		}
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvc(t.w, t.k)
	case OVar:
		decl(t)
		return fmt.Sprintf("v%d", t.k)
	}
	name := fmt.Sprintf("t%d", t.id)
	if t.prGen == gen {
		return name
	}
	var a, b, cc string
	if t.a != nil {
		a = c.smt(t.a, sb, gen, decl)
	}
	if t.b != nil {
		b = c.smt(t.b, sb, gen, decl)
	}
	if t.c != nil {
		cc = c.smt(t.c, sb, gen, decl)
	}
	var e string
	bin := func(op string) string { return "(" + op + " " + a + " " + b + ")" }
	switch t.op {
	case OLin:
		var parts []string
		for _, it := range t.lin {
			r := c.smt(it.t, sb, gen, decl)
			switch it.c {
			case 1:
				parts = append(parts, r)
			case maskw(t.w):
				parts = append(parts, "(bvneg "+r+")")
			default:
				if it.c&(it.c-1) == 0 {
					parts = append(parts, "(bvshl "+r+" "+bvc(t.w, uint64(bits.TrailingZeros64(it.c)))+")")
				} else {
					parts = append(parts, "(bvmul "+bvc(t.w, it.c)+" "+r+")")
				}
			}
		}
		if t.k != 0 {
			parts = append(parts, bvc(t.w, t.k))
		}
		if len(parts) == 1 {
			e = parts[0]
		} else {
			e = "(bvadd " + strings.Join(parts, " ") + ")"
		}
	case OMul:
		e = bin("bvmul")
	case OUDiv:
		e = bin("bvudiv")
	case OURem:
		e = bin("bvurem")
	case OSDiv:
		e = bin("bvsdiv")
	case OSRem:
		e = bin("bvsrem")
	case OAnd:
		e = bin("bvand")
	case OOr:
		e = bin("bvor")
	case OXor:
		e = bin("bvxor")
	case OShl:
		e = bin("bvshl")
	case OLshr:
		e = bin("bvlshr")
	case OAshr:
		e = bin("bvashr")
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, a)
	case OIte:
		e = "(ite " + a + " " + b + " " + cc + ")"
	case ONot:
		e = "(not " + a + ")"
	case OBAnd:
		e = bin("and")
	case OEq, OFIs:
		e = bin("=")
	case OUlt:
		e = bin("bvult")
	case OSlt:
		e = bin("bvslt")
	case OFFromU:
		e = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fps(t.w), a)
	case OFFromS, OFFromF:
		e = fmt.Sprintf("((_ to_fp %s) RNE %s)", fps(t.w), a)
	case OFFromB:
		e = fmt.Sprintf("((_ to_fp %s) %s)", fps(t.w), a)
	case OFToU:
		e = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, a)
	case OFToS:
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, a)
	case OFAdd:
		e = "(fp.add RNE " + a + " " + b + ")"
	case OFSub:
		e = "(fp.sub RNE " + a + " " + b + ")"
	case OFMul:
		e = "(fp.mul RNE " + a + " " + b + ")"
	case OFDiv:
		e = "(fp.div RNE " + a + " " + b + ")"
	case OFNeg:
		e = "(fp.neg " + a + ")"
	case OFLt:
		e = bin("fp.lt")
	case OFLe:
		e = bin("fp.leq")
	case OFEq:
		e = bin("fp.eq")
	default:
		panic("smt op")
	}
	t.prGen = gen
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", name, sortOf(t), e)
	return name
}

func (c *TCtx) String(t *Term) string {
	if t.isConst() {
		if t.w == 0 {
			return strconv.FormatBool(t.k == 1)
		}
		return strconv.FormatUint(t.k, 10)
	}
	if t.op == OVar {
		return c.vars[t.k].name
	}
	return fmt.Sprintf("<t%d op%d w%d>", t.id, t.op, t.w)
}
