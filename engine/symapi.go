package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// The harness API (package zzsym), intercepted by name.
var symAPI map[string]intrinsic

func (m *M) inputVar(label string, w uint8, fp bool) *Term {
	k := m.occ[label]
	m.occ[label]++
	t := m.newVar(fmt.Sprintf("%s#%d:%d", label, k, w), w, fp)
	return t
}

func (m *M) inputRange(label string, w uint8, signed bool, lo, hi uint64) *Term {
	k := m.occ[label]
	m.occ[label]++
	name := fmt.Sprintf("%s#%d:%d[%d,%d]%v", label, k, w, lo, hi, signed)
	if _, ok := m.c.byName[name]; !ok {
		t := m.c.Var(name, w, false)
		if signed {
			m.c.setSRange(t, sext64(lo, w), sext64(hi, w))
		} else {
			m.c.setURange(t, lo, hi)
		}
	}
	return m.newVar(name, w, false)
}

func (m *M) rec(label string, v Value) Value {
	m.inputs = append(m.inputs, input{label, "u", []Value{v}})
	return v
}

func init() {
	scalar := func(w uint8) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			l := mustStr(a[0])
			return m.rec(l, m.inputVar(l, w, false))
		}
	}
	strN := func(m *M, l string, n int) []Value {
		b := make([]Value, n)
		for i := range b {
			b[i] = m.inputVar(l, 8, false)
		}
		m.inputs = append(m.inputs, input{l, "s", b})
		return b
	}
	symAPI = map[string]intrinsic{
		"Bool": scalar(0), "U64": scalar(64), "U32": scalar(32), "U16": scalar(16), "Byte": scalar(8),
		"I64": scalar(64), "I32": scalar(32), "I16": scalar(16), "I8": scalar(8), "Int": scalar(64),
		"F64": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			l := mustStr(a[0])
			b := m.inputVar(l, 64, false)
			m.rec(l, b)
			return fromTerm(m.c.FConv(OFFromB, b, 64))
		},
		"F32": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			l := mustStr(a[0])
			b := m.inputVar(l, 32, false)
			m.rec(l, b)
			return fromTerm(m.c.FConv(OFFromB, b, 32))
		},
		"IntRange": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			l := mustStr(a[0])
			lo, hi := a[1].(uint64), a[2].(uint64)
			if lo == hi {
				m.occ[l]++
				return m.rec(l, lo)
			}
			return m.rec(l, m.inputRange(l, 64, true, lo, hi))
		},
		"U64Range": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			l := mustStr(a[0])
			return m.rec(l, m.inputRange(l, 64, false, a[1].(uint64), a[2].(uint64)))
		},
		"Choose": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			l := mustStr(a[0])
			n := int(mustInt(m, a[1]))
			if n <= 1 {
				m.occ[l]++
				return m.rec(l, uint64(0))
			}
			t := m.inputRange(l, 16, false, 0, uint64(n-1))
			v := uint64(m.chooseVar(t, n))
			return m.rec(l, v)
		},
		"Str": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			return mkStr(strN(m, mustStr(a[0]), int(mustInt(m, a[1]))))
		},
		"Bytes": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			b := strN(m, mustStr(a[0]), int(mustInt(m, a[1])))
			return Slice(append([]Value{}, b...))
		},
		"Assume": func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.assume(a[0]); return nil },
		"Assert": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.assert(a[0], "assert", "", mustStr(a[1]))
			return nil
		},
		"Finding": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.assert(a[1], "finding", mustStr(a[0]), mustStr(a[2]))
			return nil
		},
		"Unsupported": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			unsupported("%s", mustStr(a[0]))
			return nil
		},
		"Reached": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.reached[mustStr(a[0])] = true
			return nil
		},
		"Symbolic": func(m *M, g *G, fn *ssa.Function, a []Value) Value { return true },
		"Thorough": func(m *M, g *G, fn *ssa.Function, a []Value) Value { return thorough },
		"Yield": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			if m.conc {
				m.preempt(g)
			} else {
				m.yield(g)
			}
			return nil
		},
		"Live": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			idle := func() bool {
				for _, x := range m.gs {
					if x != g && x.isReady() {
						return false
					}
				}
				return true
			}
			m.block(g, "zzsym.Live", idle)
			n := 0
			for _, x := range m.gs {
				if x != g && x.id != 0 && !x.done {
					n++
					if os.Getenv("ZZLIVE") != "" {
						fmt.Fprintf(os.Stderr, "live g%d@%s\n", x.id, x.where)
					}
				}
			}
			return uint64(n)
		},
		"Concurrent": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.conc = true
			m.preemptMx = int(mustInt(m, a[0]))
			return nil
		},
		"Shared": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.memPre = true
			if p, ok := a[0].(Iface).v.(*Value); ok {
				m.markShared(p, 0)
			}
			return nil
		},
		"Races":    func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.raceOn(); return nil },
		"MapOrder": func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.mapOrder = m.branch(a[0]); return nil },
		"PoolMiss": func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.poolMiss = m.branch(a[0]); return nil },
		"Trace": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.trace = append(m.trace, traceEnt{mustStr(a[0]), a[1].(Iface).v})
			return nil
		},
		"And": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			var acc Value = true
			for _, x := range a[0].(Slice) {
				acc = m.andV(acc, x)
			}
			return acc
		},
		"Or": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			var acc Value = true
			for _, x := range a[0].(Slice) {
				acc = m.andV(acc, m.notV(x))
			}
			return m.notV(acc)
		},
		"Not":     func(m *M, g *G, fn *ssa.Function, a []Value) Value { return m.notV(a[0]) },
		"Implies": func(m *M, g *G, fn *ssa.Function, a []Value) Value { return m.notV(m.andV(a[0], m.notV(a[1]))) },
		"IteU64": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			if b, ok := a[0].(bool); ok {
				if b {
					return a[1]
				}
				return a[2]
			}
			mk := func(v Value) *Term {
				if t, ok := v.(*Term); ok {
					return t
				}
				return m.c.Const(64, v.(uint64))
			}
			return fromTerm(m.c.Ite(a[0].(*Term), mk(a[1]), mk(a[2])))
		},
		"Hash": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			return m.ufHash(mkStr(append([]Value{}, a[0].(Slice)...)))
		},
		"Concretize": func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				return m.concretize(t)
			}
			return a[0]
		},
	}
}

var thorough bool
