package main

import (
	"fmt"
	"math/rand"
	"testing"
)

var dbgT = false

// naive mirrors a term without any simplification.
type naive struct {
	f func(env []uint64) uint64
	t *Term
	w uint8
}

// TestTerms builds random terms through the simplifying constructors and compares their
// evaluation, ranges and possible ones with a direct evaluation.
func TestTerms(t *testing.T) {
	lias := 0
	for seed := int64(0); seed < 20000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := newTCtx()
		var vars []*Term
		type rg struct{ lo, hi uint64 }
		var rgs []rg
		var pool []naive
		for i := 0; i < 3; i++ {
			w := []uint8{8, 32, 64, 64}[r.Intn(4)]
			v := c.Var(string(rune('a'+i)), w, false)
			his := []uint64{1, 9, 59, 999, 999999, 1 << 33, maskw(w), maskw(w)}
			hi := his[r.Intn(len(his))] & maskw(w)
			c.setURange(v, 0, hi)

			vars = append(vars, v)
			rgs = append(rgs, rg{0, hi})
			i := i
			pool = append(pool, naive{func(e []uint64) uint64 { return e[i] }, v, w})
		}
		consts := []uint64{0, 1, 2, 3, 7, 10, 15, 60, 255, 999, 1000, 1000000, 1000000000, 1 << 30, 1<<30 - 1, 1 << 31, 1 << 63, ^uint64(0), ^uint64(0) - 999}
		konst := func(w uint8) naive {
			k := consts[r.Intn(len(consts))] & maskw(w)
			return naive{func([]uint64) uint64 { return k }, c.Const(w, k), w}
		}
		pick := func() naive { return pool[r.Intn(len(pool))] }
		fit := func(x naive, w uint8) naive {
			if x.w == w {
				return x
			}
			if x.w > w {
				return naive{func(e []uint64) uint64 { return x.f(e) & maskw(w) }, c.Extract(x.t, 0, w), w}
			}
			if r.Intn(2) == 0 {
				return naive{x.f, c.Zext(x.t, w), w}
			}
			return naive{func(e []uint64) uint64 { return uint64(sext64(x.f(e), x.w)) & maskw(w) }, c.Sext(x.t, w), w}
		}
		for step := 0; step < 14; step++ {
			a := pick()
			w := a.w
			var b naive
			if r.Intn(2) == 0 {
				b = konst(w)
			} else {
				b = fit(pick(), w)
			}
			m := maskw(w)
			var n naive
			switch r.Intn(17) {
			case 0, 1:
				n = naive{func(e []uint64) uint64 { return (a.f(e) + b.f(e)) & m }, c.Add(a.t, b.t), w}
			case 2:
				n = naive{func(e []uint64) uint64 { return (a.f(e) - b.f(e)) & m }, c.Sub(a.t, b.t), w}
			case 3, 4:
				b = konst(w)
				n = naive{func(e []uint64) uint64 { return (a.f(e) * b.f(e)) & m }, c.Mul(a.t, b.t), w}
			case 5, 6, 7, 8:
				b = konst(w)
				if b.t.k == 0 {
					continue
				}
				k := b.t.k
				ks := sext64(k, w)
				switch r.Intn(4) {
				case 0:
					n = naive{func(e []uint64) uint64 { return a.f(e) / k }, c.UDiv(a.t, b.t), w}
				case 1:
					n = naive{func(e []uint64) uint64 { return a.f(e) % k }, c.URem(a.t, b.t), w}
				case 2:
					if ks <= 0 {
						continue
					}
					n = naive{func(e []uint64) uint64 { return uint64(sext64(a.f(e), w)/ks) & m }, c.SDiv(a.t, b.t), w}
				case 3:
					if ks <= 0 {
						continue
					}
					n = naive{func(e []uint64) uint64 { return uint64(sext64(a.f(e), w)%ks) & m }, c.SRem(a.t, b.t), w}
				}
			case 9:
				n = naive{func(e []uint64) uint64 { return a.f(e) & b.f(e) }, c.And(a.t, b.t), w}
			case 10:
				n = naive{func(e []uint64) uint64 { return a.f(e) | b.f(e) }, c.Or(a.t, b.t), w}
			case 11:
				lo := r.Intn(int(w))
				nw := 1 + r.Intn(int(w)-lo)
				n = naive{func(e []uint64) uint64 { return a.f(e) >> lo & maskw(uint8(nw)) }, c.Extract(a.t, uint64(lo), uint8(nw)), uint8(nw)}
			case 12:
				n = fit(a, []uint8{8, 32, 64}[r.Intn(3)])
			case 13:
				d := fit(pick(), w)
				cond := c.Ult(a.t, b.t)
				if r.Intn(2) == 0 {
					cond = c.Slt(a.t, b.t)
					n = naive{func(e []uint64) uint64 {
						if sext64(a.f(e), w) < sext64(b.f(e), w) {
							return a.f(e)
						}
						return d.f(e)
					}, c.Ite(cond, a.t, d.t), w}
				} else {
					n = naive{func(e []uint64) uint64 {
						if a.f(e) < b.f(e) {
							return a.f(e)
						}
						return d.f(e)
					}, c.Ite(cond, a.t, d.t), w}
				}
			case 14:
				d := fit(pick(), w)
				n = naive{func(e []uint64) uint64 {
					if a.f(e) == b.f(e) {
						return d.f(e)
					}
					return b.f(e)
				}, c.Ite(c.Eq(a.t, b.t), d.t, b.t), w}
			}
			if i := len(pool) % 2; n.f == nil && i == 0 && a.t.umax < 1<<20 && a.t.umax-a.t.umin < 60 {
				// a table over the whole range of a
				lo := a.t.umin
				vals := make([]uint64, a.t.umax-lo+1)
				tw := []uint8{8, 32, 64}[r.Intn(3)]
				for j := range vals {
					switch r.Intn(3) {
					case 0:
						vals[j] = r.Uint64() & maskw(tw)
					case 1:
						vals[j] = uint64(j) & maskw(tw)
					default:
						if j > 0 {
							vals[j] = vals[j-1]
						}
					}
				}
				n = naive{func(e []uint64) uint64 { return vals[a.f(e)-lo] }, c.Table(a.t, lo, append([]uint64(nil), vals...), tw), tw}
			}
			if n.f == nil {
				continue
			}
			if dbgT {
				t.Logf("%d: op a=%s b=%s -> %s", len(pool), dumpT(a.t, 4), dumpT(b.t, 4), dumpT(n.t, 4))
			}
			pool = append(pool, n)
		}
		for trial := 0; trial < 12; trial++ {
			env := make([]uint64, len(vars))
			for i, g := range rgs {
				switch r.Intn(4) {
				case 0:
					env[i] = g.lo
				case 1:
					env[i] = g.hi
				default:
					env[i] = r.Uint64()
					if g.hi != ^uint64(0) {
						env[i] %= g.hi + 1
					}
				}
				for len(c.model) <= int(vars[i].k) {
					c.model = append(c.model, 0)
				}
				c.model[vars[i].k] = env[i]
			}
			c.newModel()
			if seed < 3000 && trial < 2 {
				n := pool[len(pool)-1-r.Intn(min(len(pool), 4))]
				want := n.f(env)
				var cs []*Term
				for i, v := range vars {
					cs = append(cs, c.Eq(v, c.Const(v.w, env[i])))
				}
				for j, g := range []*Term{c.Eq(n.t, c.Const(n.w, want)), c.Not(c.Eq(n.t, c.Const(n.w, want)))} {
					txt, vs, _ := liaText(append(cs, g), 5000)
					if txt == "" {
						continue
					}
					s := newSolver(c, 5000)
					res, m := s.lia(append(cs, g), vs, txt)
					s.close()
					lias++
					if s.errs > 0 || j == 0 && res != Sat || j == 1 && res != Unsat {
						t.Fatalf("seed %d: integer form of %s: goal %d %v %v (env %v, want %d) %s\n%s", seed, dumpT(n.t, 6), j, res, m, env, want, s.lastErr, txt)
					}
				}
				c.newModel()
			}
			for k, n := range pool {
				want, got := n.f(env), c.Eval(n.t)
				if want != got {
					t.Fatalf("seed %d term %d: %s = %d, want %d (env %v)", seed, k, dumpT(n.t, 5), got, want, env)
				}
				if got < n.t.umin || got > n.t.umax || sext64(got, n.w) < n.t.smin || sext64(got, n.w) > n.t.smax || got&^n.t.ones != 0 {
					t.Fatalf("seed %d term %d: %s = %d outside its ranges u[%d,%d] s[%d,%d] ones %x", seed, k, c.String(n.t), got, n.t.umin, n.t.umax, n.t.smin, n.t.smax, n.t.ones)
				}
			}
		}
	}
	t.Logf("%d integer forms compared", lias)
}
func dumpT(t *Term, d int) string {
	if t == nil {
		return "nil"
	}
	s := fmt.Sprintf("(op%d w%d k%x u[%x,%x] s[%d,%d]", t.op, t.w, t.k, t.umin, t.umax, t.smin, t.smax)
	if d > 0 {
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				s += " " + dumpT(x, d-1)
			}
		}
		for _, it := range t.lin {
			s += fmt.Sprintf(" %d*", sext64(it.c, t.w)) + dumpT(it.t, d-1)
		}
	}
	return s + ")"
}
