package main

// Constant tables indexed by a symbolic value.

type tabInfo struct {
	base *Term
	lo   uint64
	vals []uint64 // value for base = lo+i
}

const maxTab = 1024

// resize converts a to width w (truncating or zero extending).
func (c *TCtx) resize(a *Term, w uint8) *Term {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		return c.Extract(a, 0, w)
	}
	return c.Zext(a, w)
}

// tabOf returns the table that t is a (zero-extended) lookup in, if known.
func (c *TCtx) tabOf(t *Term) (tabInfo, bool) {
	if t.isConst() || len(c.tabs) == 0 {
		return tabInfo{}, false
	}
	for t.op == OZext {
		if x, ok := c.tabs[t]; ok {
			return x, true
		}
		t = t.a
	}
	x, ok := c.tabs[t]
	return x, ok
}

// Table is vals[idx-lo] for an index known to be in [lo, lo+len(vals)).
func (c *TCtx) Table(idx *Term, lo uint64, vals []uint64, w uint8) *Term {
	// narrow to the range of the index
	if idx.umin > lo {
		vals = vals[idx.umin-lo:]
		lo = idx.umin
	}
	if hi := lo + uint64(len(vals)) - 1; idx.umax < hi {
		vals = vals[:idx.umax-lo+1]
	}
	if ti, ok := c.tabOf(idx); ok {
		nv := make([]uint64, len(ti.vals))
		for i, x := range ti.vals {
			nv[i] = vals[0] // the index is inside the table on this path, so any value will do
			if x >= lo && x-lo < uint64(len(vals)) {
				nv[i] = vals[x-lo]
			}
		}
		return c.Table(ti.base, ti.lo, nv, w)
	}
	type run struct {
		i, n int
		step uint64
	}
	mask := maskw(w)
	var rs []run
	for i := 0; i < len(vals); {
		r := run{i: i, n: 1}
		if i+1 < len(vals) {
			d := (vals[i+1] - vals[i]) & mask
			if d <= 1 {
				r.step = d
				r.n = 2
				for i+r.n < len(vals) && (vals[i+r.n]-vals[i+r.n-1])&mask == d {
					r.n++
				}
			}
		}
		rs = append(rs, r)
		i += r.n
	}
	val := func(r run) *Term {
		if r.step == 0 || r.n == 1 {
			return c.Const(w, vals[r.i])
		}
		return c.Add(c.resize(idx, w), c.Const(w, vals[r.i]-(lo+uint64(r.i))))
	}
	res := val(rs[len(rs)-1])
	for k := len(rs) - 2; k >= 0; k-- {
		end := lo + uint64(rs[k].i+rs[k].n)
		res = c.Ite(c.Ult(idx, c.Const(idx.w, end)), val(rs[k]), res)
	}
	if !res.isConst() && res.id > idx.id && idx.umin >= lo && idx.umax-lo < maxTab {
		// the term is shared, so the record has to hold for every value of the index
		full := append([]uint64(nil), vals...)
		r := rs[len(rs)-1]
		for i := len(vals); lo+uint64(i) <= idx.umax; i++ {
			v := vals[r.i]
			if r.n > 1 && r.step == 1 {
				v += uint64(i - r.i)
			}
			full = append(full, v&mask)
		}
		c.tabs[res] = tabInfo{idx, lo, full}
	}
	return res
}

// tabCmp is the condition that the table lookup t yields a value satisfying f, as ranges of the index;
// nil if that is not shorter.
func (c *TCtx) tabCmp(t *Term, f func(uint64) bool) *Term {
	if len(c.tabs) == 0 {
		return nil
	}
	ti, ok := c.tabOf(t)
	if !ok {
		return nil
	}
	type rg struct{ lo, hi uint64 }
	var yes []rg
	n := 0
	for i, v := range ti.vals {
		if f(v) {
			n++
			b := ti.lo + uint64(i)
			if k := len(yes); k > 0 && yes[k-1].hi+1 == b {
				yes[k-1].hi = b
			} else {
				yes = append(yes, rg{b, b})
			}
		}
	}
	if n == 0 {
		return c.fls
	}
	if n == len(ti.vals) {
		return c.tru
	}
	if len(yes) > 4 {
		return nil
	}
	r := c.fls
	last := ti.lo + uint64(len(ti.vals)) - 1
	for _, x := range yes {
		q := c.tru
		if x.lo == x.hi {
			q = c.Eq(ti.base, c.Const(ti.base.w, x.lo))
		} else {
			if x.lo > ti.lo {
				q = c.Not(c.Ult(ti.base, c.Const(ti.base.w, x.lo)))
			}
			if x.hi < last {
				q = c.BAnd(q, c.Ult(ti.base, c.Const(ti.base.w, x.hi+1)))
			}
		}
		r = c.BOr(r, q)
	}
	return r
}
