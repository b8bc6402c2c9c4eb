package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "github.com/effective-security/xdb/internal/zzsym"
const stubPkg = "github.com/effective-security/xdb/internal/zzstub"

// redirects maps functions to models written in Go (package zzstub), see DESIGN.md.
var redirects = map[string]string{}

func redir(from, to string) { redirects[from] = stubPkg + "." + to }

var intrinsics = map[string]intrinsic{}

func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "net", "internal/poll", "crypto/tls", "net/http", "internal/godebug", "unique", "sync", "internal/sync", "internal/cpu", "testing":
		return true
	}
	return strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "internal/syscall")
}

func eagerInit(path string) bool {
	return strings.HasPrefix(path, "github.com/effective-security/xdb")
}

// intrinsicByPattern handles whole packages.
func intrinsicByPattern(fn *ssa.Function, name string) intrinsic {
	pkg := fn.Pkg
	if pkg == nil {
		if strings.HasPrefix(name, "reflect.TypeFor") || strings.HasPrefix(name, "reflect.TypeAssert") {
			return reflectIntrinsic(fn, name)
		}
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				if n.Obj().Pkg().Path() == "github.com/effective-security/xlog" {
					return noop
				}
			}
		}
		return nil
	}
	switch pkg.Pkg.Path() {
	case "github.com/effective-security/xlog":
		if fn.Name() == "init" {
			return noop
		}
		switch fn.Name() {
		case "Panicf", "Panic", "Fatalf", "Fatal":
			return func(m *M, g *G, fn *ssa.Function, args []Value) Value {
				panic(targetPanic{Iface{canon(types.Typ[types.String]), "logger." + fn.Name()}})
			}
		}
		return noop
	case symPkg:
		if in, ok := symAPI[fn.Name()]; ok {
			return in
		}
	case "internal/race", "internal/msan", "internal/asan":
		return noop
	case "reflect":
		return reflectIntrinsic(fn, name)
	}
	return nil
}

func noop(m *M, g *G, fn *ssa.Function, args []Value) Value { return zeroResults(fn) }

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

type pureFn func(m *M, args []Value) Value

func pure(names string, f pureFn) {
	reg(names, func(m *M, g *G, fn *ssa.Function, args []Value) Value { return f(m, args) })
}

func sI(v Value) int64 { return int64(v.(uint64)) }

func mustInt(m *M, v Value) int64 {
	switch v := v.(type) {
	case uint64:
		return int64(v)
	case *Term:
		return int64(m.concretize(v))
	}
	panic("mustInt")
}

// lastField returns the address of the last field of the struct p points to (atomic.X, etc.)
func lastField(m *M, pv Value) *Value {
	p := pv.(*Value)
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := (*p).(Struct)
	f := &s[len(s)-1]
	if inner, ok := (*f).(Struct); ok && len(inner) > 0 {
		return &inner[len(inner)-1]
	}
	return f
}

func strV(v Value) Value { return normStr(v) }

func errOf(m *M, g *G, msg Value) Value {
	pkg := m.P.pkgs[stubPkg]
	return m.callFn(g, nil, pkg.Func("New"), []Value{msg}, nil)
}

func init() {
	// ------------------------------------------------------------ runtime & unsafe
	pure("internal/abi.NoEscape internal/abi.Escape", func(m *M, a []Value) Value { return a[0] })
	reg("runtime.Gosched", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		if m.conc {
			m.preempt(g)
		} else {
			m.yield(g)
		}
		return nil
	})
	pure("runtime.GOMAXPROCS runtime.NumCPU runtime.NumGoroutine", func(m *M, a []Value) Value { return uint64(4) })
	pure("runtime.KeepAlive runtime.SetFinalizer runtime.GC", func(m *M, a []Value) Value { return nil })
	pure("runtime.Caller", func(m *M, a []Value) Value { return Tuple{uint64(0), "file.go", uint64(1), true} })
	pure("runtime.Callers", func(m *M, a []Value) Value { return uint64(0) })
	pure("runtime/debug.Stack", func(m *M, a []Value) Value { return Slice{} })
	pure("(*internal/godebug.Setting).Value", func(m *M, a []Value) Value { return "" })
	pure("(*internal/godebug.Setting).IncNonDefault", func(m *M, a []Value) Value { return nil })
	pure("internal/godebug.New", func(m *M, a []Value) Value { p := new(Value); *p = Struct{}; return p })
	pure("internal/godebugs.Lookup", func(m *M, a []Value) Value { return (*Value)(nil) })
	pure("internal/bytealg.MakeNoZero", func(m *M, a []Value) Value {
		n := int(a[0].(uint64))
		c := growCap(0, 0, n, 1)
		s := make(Slice, c)
		for i := range s {
			s[i] = uint64(0)
		}
		return s[:n]
	})
	// The environment starts empty on every path; a value set may be symbolic.
	pure("os.Getenv", func(m *M, a []Value) Value {
		if v, ok := m.env[mustStr(a[0])]; ok {
			return v
		}
		return ""
	})
	pure("os.LookupEnv syscall.Getenv", func(m *M, a []Value) Value {
		if v, ok := m.env[mustStr(a[0])]; ok {
			return Tuple{v, true}
		}
		return Tuple{"", false}
	})
	pure("os.Setenv", func(m *M, a []Value) Value {
		if m.env == nil {
			m.env = map[string]Value{}
		}
		m.env[mustStr(a[0])] = a[1]
		return Iface{}
	})
	pure("os.Unsetenv", func(m *M, a []Value) Value {
		delete(m.env, mustStr(a[0]))
		return Iface{}
	})

	// ------------------------------------------------------------ bytealg
	idxByte := func(m *M, a []Value) Value {
		s := bytesOf(a[0])
		for i, b := range s {
			if m.branch(m.eqByte(b, a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	pure("internal/bytealg.IndexByte internal/bytealg.IndexByteString internal/stringslite.IndexByte strings.IndexByte bytes.IndexByte", idxByte)
	pure("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString strings.LastIndexByte bytes.LastIndexByte", func(m *M, a []Value) Value {
		s := bytesOf(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if m.branch(m.eqByte(s[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	idx := func(m *M, a []Value) Value {
		if x, ok := concBytes(a[0]); ok {
			if y, ok := concBytes(a[1]); ok {
				return uint64(int64(strings.Index(x, y)))
			}
		}
		s, t := bytesOf(a[0]), bytesOf(a[1])
		for i := 0; i+len(t) <= len(s); i++ {
			if m.branch(m.eqStr(&SymStr{s[i : i+len(t)]}, &SymStr{t})) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	pure("internal/bytealg.Index internal/bytealg.IndexString internal/stringslite.Index strings.Index bytes.Index", idx)
	pure("strings.LastIndex", func(m *M, a []Value) Value {
		s, t := bytesOf(a[0]), bytesOf(a[1])
		for i := len(s) - len(t); i >= 0; i-- {
			if m.branch(m.eqStr(&SymStr{s[i : i+len(t)]}, &SymStr{t})) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	pure("internal/bytealg.Count internal/bytealg.CountString", func(m *M, a []Value) Value {
		n := uint64(0)
		for _, b := range bytesOf(a[0]) {
			if m.branch(m.eqByte(b, a[1])) {
				n++
			}
		}
		return n
	})
	pure("internal/bytealg.Equal bytes.Equal", func(m *M, a []Value) Value {
		return m.eqStr(&SymStr{bytesOf(a[0])}, &SymStr{bytesOf(a[1])})
	})
	pure("internal/bytealg.Compare internal/bytealg.CompareString bytes.Compare strings.Compare", func(m *M, a []Value) Value {
		x, y := Value(&SymStr{bytesOf(a[0])}), Value(&SymStr{bytesOf(a[1])})
		if m.branch(m.eqStr(x, y)) {
			return uint64(0)
		}
		if m.branch(m.strLess(x, y)) {
			return ^uint64(0)
		}
		return uint64(1)
	})
	pure("strings.Clone internal/stringslite.Clone", func(m *M, a []Value) Value { return normStr(a[0]) })
	// concrete fast paths
	s1 := func(f func(string) string) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				return f(s)
			}
			return m.interpret(g, fn, a)
		}
	}
	// ASCII case mapping as terms; one decision tells ASCII strings from others
	ascii := func(m *M, bs []Value) bool {
		acc := m.c.Bool(true)
		for _, b := range bs {
			acc = m.c.BAnd(acc, m.c.Ult(m.byteTerm(b), m.c.Const(8, 0x80)))
		}
		return m.branch(fromTerm(acc))
	}
	fold := func(m *M, bs []Value, lo byte, d int64) []Value {
		r := make([]Value, len(bs))
		for i, b := range bs {
			t := m.byteTerm(b)
			in := m.c.BAnd(m.c.Ult(m.c.Const(8, uint64(lo)-1), t), m.c.Ult(t, m.c.Const(8, uint64(lo)+26)))
			r[i] = fromTerm(m.c.Ite(in, m.c.Add(t, m.c.Const(8, uint64(d)&0xff)), t))
		}
		return r
	}
	cased := func(f func(string) string, lo byte, d int64) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				return f(s)
			}
			bs := bytesOf(a[0])
			if !ascii(m, bs) {
				return m.interpret(g, fn, a)
			}
			return normStr(&SymStr{fold(m, bs, lo, d)})
		}
	}
	reg("strings.ToUpper", cased(strings.ToUpper, 'a', -32))
	reg("strings.ToLower", cased(strings.ToLower, 'A', 32))
	reg("strings.TrimSpace", s1(strings.TrimSpace))
	reg("strings.EqualFold", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		if x, ok := concStr(a[0]); ok {
			if y, ok := concStr(a[1]); ok {
				return strings.EqualFold(x, y)
			}
		}
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if !ascii(m, append(append([]Value(nil), x...), y...)) {
			return m.interpret(g, fn, a)
		}
		if len(x) != len(y) {
			return false
		}
		return m.eqStr(&SymStr{fold(m, x, 'A', 32)}, &SymStr{fold(m, y, 'A', 32)})
	})

	// ------------------------------------------------------------ sync
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock", func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.lock(g, a[0].(*Value)); return nil })
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock", func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.unlock(g, a[0].(*Value)); return nil })
	reg("(*sync.Mutex).TryLock (*internal/sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		s := m.mu(a[0].(*Value))
		if s.locked || s.readers > 0 {
			return false
		}
		m.saveMu(s)
		s.locked = true
		m.acq(g, a[0].(*Value))
		m.acq(g, rwKey{a[0].(*Value)})
		return true
	})
	reg("(*sync.RWMutex).Lock", func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.lock(g, a[0].(*Value)); return nil })
	reg("(*sync.RWMutex).Unlock", func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.unlock(g, a[0].(*Value)); return nil })
	reg("(*sync.RWMutex).RLock", func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.rlock(g, a[0].(*Value)); return nil })
	reg("(*sync.RWMutex).TryRLock", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		if m.mu(a[0].(*Value)).locked {
			return false
		}
		m.rlock(g, a[0].(*Value))
		return true
	})
	reg("(*sync.RWMutex).RUnlock", func(m *M, g *G, fn *ssa.Function, a []Value) Value { m.runlock(g, a[0].(*Value)); return nil })
	type wg struct{ n int64 }
	wgOf := func(m *M, p *Value) *wg {
		if w, ok := m.side[p].(*wg); ok {
			return w
		}
		w := &wg{}
		m.sideSet(p, w)
		return w
	}
	wgAdd := func(m *M, g *G, p *Value, d int64) {
		w := wgOf(m, p)
		old := w.n
		m.undo(func() { w.n = old })
		w.n += d
		m.rel(g, p)
		if w.n < 0 {
			panic(targetPanic{Iface{canon(types.Typ[types.String]), "sync: negative WaitGroup counter"}})
		}
		m.preempt(g)
	}
	reg("(*sync.WaitGroup).Add", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		wgAdd(m, g, a[0].(*Value), mustInt(m, a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		wgAdd(m, g, a[0].(*Value), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		w := wgOf(m, a[0].(*Value))
		if w.n > 0 {
			m.block(g, "waitgroup", func() bool { return w.n == 0 })
		}
		m.acq(g, a[0].(*Value))
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		p, f := a[0].(*Value), a[1]
		wgAdd(m, g, p, 1)
		m.spawn(g, &Func{name: "wg.Go", native: func(m *M, g *G, _ []Value) Value {
			m.call(g, nil, f, nil)
			wgAdd(m, g, p, -1)
			return nil
		}}, nil, nil)
		return nil
	})
	type cond struct{ waiters []*bool }
	condOf := func(m *M, p *Value) *cond {
		if w, ok := m.side[p].(*cond); ok {
			return w
		}
		w := &cond{}
		m.sideSet(p, w)
		return w
	}
	reg("(*sync.Cond).Wait", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		c := condOf(m, p)
		l := (*p).(Struct)[1].(Iface)
		f := new(bool)
		c.waiters = append(c.waiters, f) // registered before the lock is released
		m.callMethod(g, l, "Unlock")
		m.block(g, "cond", func() bool { return *f })
		m.acq(g, p)
		m.callMethod(g, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		c := condOf(m, a[0].(*Value))
		m.rel(g, a[0].(*Value))
		if len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
		}
		m.preempt(g)
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		c := condOf(m, a[0].(*Value))
		m.rel(g, a[0].(*Value))
		for _, w := range c.waiters {
			*w = true
		}
		c.waiters = nil
		m.preempt(g)
		return nil
	})
	// sync.Pool: LIFO free list; when a harness enables it, Get may also miss.
	type pool struct{ items []Value }
	poolOf := func(m *M, p *Value) *pool {
		if w, ok := m.side[p].(*pool); ok {
			return w
		}
		w := &pool{}
		m.sideSet(p, w)
		return w
	}
	reg("(*sync.Pool).Get", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		w := poolOf(m, p)
		m.acq(g, p)
		if n := len(w.items); n > 0 && !(m.poolMiss && m.choose("poolmiss", 2) == 1) {
			old := w.items
			m.undo(func() { w.items = old })
			v := w.items[n-1]
			w.items = append([]Value{}, w.items[:n-1]...)
			return v
		}
		st := (*p).(Struct)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return Iface{}
		}
		return m.call(g, nil, nf, nil)
	})
	reg("(*sync.Pool).Put", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		w := poolOf(m, a[0].(*Value))
		m.rel(g, a[0].(*Value))
		if a[1].(Iface).t == nil {
			return nil
		}
		old := w.items
		m.undo(func() { w.items = old })
		w.items = append(w.items[:len(w.items):len(w.items)], a[1])
		return nil
	})
	// sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(m *M, p *Value) *Map {
		if w, ok := m.side[p].(*Map); ok {
			return w
		}
		w := newMap(anyT)
		m.sideSet(p, w)
		return w
	}
	reg("(*sync.Map).Load", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		if e := m.mapFind(smap(m, a[0].(*Value)), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		m.mapSet(smap(m, a[0].(*Value)), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		s := smap(m, a[0].(*Value))
		if e := m.mapFind(s, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		m.mapSet(s, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		s := smap(m, a[0].(*Value))
		if e := m.mapFind(s, a[1]); e != nil {
			v := e.v
			m.mapDelete(s, a[1])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Swap", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		s := smap(m, a[0].(*Value))
		r := Tuple{Iface{}, false}
		if e := m.mapFind(s, a[1]); e != nil {
			r = Tuple{e.v, true}
		}
		m.mapSet(s, a[1], a[2])
		return r
	})
	same := func(m *M, a []Value) (*Map, *mapEnt) {
		s := smap(m, a[0].(*Value))
		e := m.mapFind(s, a[1])
		if e != nil && !m.branch(m.eqVal(anyT, e.v, a[2])) {
			e = nil
		}
		return s, e
	}
	reg("(*sync.Map).CompareAndSwap", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		s, e := same(m, a)
		if e != nil {
			m.mapSet(s, a[1], a[3])
		}
		return e != nil
	})
	reg("(*sync.Map).CompareAndDelete", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		s, e := same(m, a)
		if e != nil {
			m.mapDelete(s, a[1])
		}
		return e != nil
	})
	reg("(*sync.Map).Delete", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.preempt(g)
		m.mapDelete(smap(m, a[0].(*Value)), a[1])
		return nil
	})
	reg("(*sync.Map).Clear", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		m.mapClear(smap(m, a[0].(*Value)))
		return nil
	})
	reg("(*sync.Map).Range", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.syn(g, a[0].(*Value))
		s := smap(m, a[0].(*Value))
		for _, e := range append([]*mapEnt{}, s.ents...) {
			if e.del {
				continue
			}
			if !m.branch(m.call(g, nil, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// ------------------------------------------------------------ atomics
	ld := func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		p := a[0].(*Value)
		m.syn(g, p)
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return *p
	}
	st := func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		m.syn(g, a[0].(*Value))
		m.store(a[0], a[1])
		return nil
	}
	add := func(t types.Type) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.preempt(g)
			p := a[0].(*Value)
			m.syn(g, p)
			v := m.binop(12 /*ADD*/, t, t, *p, a[1])
			m.set(p, v)
			return v
		}
	}
	cas := func(t types.Type) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
			m.preempt(g)
			p := a[0].(*Value)
			m.syn(g, p)
			if m.branch(m.eqAtomic(*p, a[1], t)) {
				m.set(p, a[2])
				return true
			}
			return false
		}
	}
	swap := func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		p := a[0].(*Value)
		m.syn(g, p)
		v := *p
		m.set(p, a[1])
		return v
	}
	for _, k := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		reg("sync/atomic.Load"+k.n, ld)
		reg("sync/atomic.Store"+k.n, st)
		reg("sync/atomic.Add"+k.n, add(k.t))
		reg("sync/atomic.CompareAndSwap"+k.n, cas(k.t))
		reg("sync/atomic.Swap"+k.n, swap)
		pk := "(*sync/atomic." + k.n + ")."
		f := func(in intrinsic) intrinsic {
			return func(m *M, g *G, fn *ssa.Function, a []Value) Value {
				b := append([]Value{lastField(m, a[0])}, a[1:]...)
				return in(m, g, fn, b)
			}
		}
		if k.n == "Pointer" {
			pk = "(*sync/atomic.Pointer[T])."
			reg(pk+"Load", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
				m.preempt(g)
				m.syn(g, lastField(m, a[0]))
				v := *lastField(m, a[0])
				if u, ok := v.(UPtr); ok {
					if u.p == nil {
						return (*Value)(nil)
					}
					return u.p
				}
				return v
			})
			reg(pk+"Store", f(st))
			reg(pk+"Swap", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
				p := lastField(m, a[0])
				m.syn(g, p)
				v := *p
				m.set(p, a[1])
				if _, ok := v.(UPtr); ok {
					return (*Value)(nil)
				}
				return v
			})
			reg(pk+"CompareAndSwap", f(cas(k.t)))
			continue
		}
		reg(pk+"Load", f(ld))
		reg(pk+"Store", f(st))
		reg(pk+"Add", f(add(k.t)))
		reg(pk+"CompareAndSwap", f(cas(k.t)))
		reg(pk+"Swap", f(swap))
	}
	bf := func(m *M, a Value) *Value { return lastField(m, a) }
	reg("(*sync/atomic.Bool).Load", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		m.syn(g, bf(m, a[0]))
		return (*bf(m, a[0])) != Value(uint64(0))
	})
	reg("(*sync/atomic.Bool).Store", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		m.syn(g, bf(m, a[0]))
		m.set(bf(m, a[0]), b2u(m.branch(a[1])))
		return nil
	})
	reg("(*sync/atomic.Bool).Swap", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		m.syn(g, bf(m, a[0]))
		o := (*bf(m, a[0])) != Value(uint64(0))
		m.set(bf(m, a[0]), b2u(m.branch(a[1])))
		return o
	})
	reg("(*sync/atomic.Bool).CompareAndSwap", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		m.syn(g, bf(m, a[0]))
		o := (*bf(m, a[0])) != Value(uint64(0))
		if o == m.branch(a[1]) {
			m.set(bf(m, a[0]), b2u(m.branch(a[2])))
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Load", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		m.syn(g, lastField(m, a[0]))
		return *lastField(m, a[0])
	})
	reg("(*sync/atomic.Value).Store", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		p := lastField(m, a[0])
		m.syn(g, p)
		if a[1].(Iface).t == nil {
			panic(targetPanic{Iface{canon(types.Typ[types.String]), "sync/atomic: store of nil value into Value"}})
		}
		if o := (*p).(Iface); o.t != nil && o.t != a[1].(Iface).t {
			panic(targetPanic{Iface{canon(types.Typ[types.String]), "sync/atomic: store of inconsistently typed value into Value"}})
		}
		m.set(p, a[1])
		return nil
	})

	// ------------------------------------------------------------ math
	pure("math.Float64bits internal/strconv.float64bits", func(m *M, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Float64bits(f)
		}
		return m.fbits(a[0].(*Term))
	})
	pure("math.Float32bits internal/strconv.float32bits", func(m *M, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return uint64(math.Float32bits(float32(f)))
		}
		return m.fbits(a[0].(*Term))
	})
	pure("math.Float64frombits internal/strconv.float64frombits", func(m *M, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return math.Float64frombits(u)
		}
		return fromTerm(m.c.FConv(OFFromB, a[0].(*Term), 64))
	})
	pure("math.Float32frombits internal/strconv.float32frombits", func(m *M, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return float64(math.Float32frombits(uint32(u)))
		}
		return fromTerm(m.c.FConv(OFFromB, a[0].(*Term), 32))
	})
	pure("math.Abs", func(m *M, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Abs(f)
		}
		u := types.Typ[types.Uint64]
		b := m.binop(token.AND, u, u, m.fbits(a[0].(*Term)), uint64(1<<63-1))
		if c, ok := b.(uint64); ok {
			return math.Float64frombits(c)
		}
		return fromTerm(m.c.FConv(OFFromB, b.(*Term), 64))
	})
	for _, n := range []struct {
		n string
		f func(float64) float64
	}{{"Floor", math.Floor}, {"Ceil", math.Ceil}, {"Trunc", math.Trunc}, {"Sqrt", math.Sqrt}, {"Log", math.Log}, {"Exp", math.Exp}, {"Round", math.Round}} {
		f := n.f
		nm := n.n
		pure("math."+nm, func(m *M, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				unsupported("math.%s symbolic", nm)
			}
			return f(x)
		})
	}
	pure("math/bits.Mul64", func(m *M, a []Value) Value {
		x, ok1 := a[0].(uint64)
		y, ok2 := a[1].(uint64)
		if ok1 && ok2 {
			hi, lo := mul64(x, y)
			return Tuple{hi, lo}
		}
		u := types.Typ[types.Uint64]
		op := func(o token.Token, x, y Value) Value { return m.binop(o, u, u, x, y) }
		lo32 := func(x Value) Value { return op(token.AND, x, uint64(1<<32-1)) }
		hi32 := func(x Value) Value { return op(token.SHR, x, uint64(32)) }
		x0, x1, y0, y1 := lo32(a[0]), hi32(a[0]), lo32(a[1]), hi32(a[1])
		t := op(token.ADD, op(token.MUL, x1, y0), hi32(op(token.MUL, x0, y0)))
		w1 := op(token.ADD, lo32(t), op(token.MUL, x0, y1))
		return Tuple{op(token.ADD, op(token.ADD, op(token.MUL, x1, y1), hi32(t)), hi32(w1)), op(token.MUL, a[0], a[1])}
	})

	// ------------------------------------------------------------ strconv
	fmtInt := func(m *M, v Value, t types.Type, base int) Value {
		if u, ok := v.(uint64); ok {
			if _, s, _ := intInfo(t); s {
				w, _, _ := intInfo(t)
				return strconv.FormatInt(sext64(u, w), base)
			}
			return strconv.FormatUint(u, base)
		}
		return m.symFormat(v.(*Term), t, base)
	}
	tI, tU := types.Typ[types.Int64], types.Typ[types.Uint64]
	pure("strconv.FormatInt internal/strconv.FormatInt", func(m *M, a []Value) Value { return fmtInt(m, a[0], tI, int(a[1].(uint64))) })
	pure("strconv.FormatUint internal/strconv.FormatUint", func(m *M, a []Value) Value { return fmtInt(m, a[0], tU, int(a[1].(uint64))) })
	pure("strconv.Itoa internal/strconv.Itoa", func(m *M, a []Value) Value { return fmtInt(m, a[0], tI, 10) })
	app := func(t types.Type) pureFn {
		return func(m *M, a []Value) Value {
			s := fmtInt(m, a[1], t, int(a[2].(uint64)))
			return m.appendVals(a[0].(Slice), strBytes(s), nil)
		}
	}
	pure("strconv.AppendInt internal/strconv.AppendInt", app(tI))
	pure("strconv.AppendUint internal/strconv.AppendUint", app(tU))
	pure("strconv.FormatFloat internal/strconv.FormatFloat", func(m *M, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			return m.symFormatFloat(a[0].(*Term), byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64)))
		}
		return strconv.FormatFloat(f, byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64)))
	})
	pure("strconv.AppendFloat internal/strconv.AppendFloat", func(m *M, a []Value) Value {
		f, ok := a[1].(float64)
		if !ok {
			s := m.symFormatFloat(a[1].(*Term), byte(a[2].(uint64)), int(int64(a[3].(uint64))), int(a[4].(uint64)))
			return m.appendVals(a[0].(Slice), strBytes(s), nil)
		}
		return m.appendVals(a[0].(Slice), strBytes(strconv.FormatFloat(f, byte(a[2].(uint64)), int(int64(a[3].(uint64))), int(a[4].(uint64)))), nil)
	})
	reg("internal/strconv.ParseUint", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		if r, ok := m.parseSym(g, a[0], int(mustInt(m, a[1])), int(mustInt(m, a[2])), false); ok {
			return r
		}
		return m.interpret(g, fn, a)
	})
	reg("internal/strconv.ParseInt", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		if r, ok := m.parseSym(g, a[0], int(mustInt(m, a[1])), int(mustInt(m, a[2])), true); ok {
			return r
		}
		return m.interpret(g, fn, a)
	})
	reg("internal/strconv.Atoi", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		if r, ok := m.parseSym(g, a[0], 10, 64, true); ok {
			return r
		}
		return m.interpret(g, fn, a)
	})
	reg("strconv.ParseFloat internal/strconv.ParseFloat", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			f, err := strconv.ParseFloat(s, int(a[1].(uint64)))
			if err == nil {
				return Tuple{f, Iface{}}
			}
			return m.interpret(g, fn, a)
		}
		if t, ok := m.floatText(a[0]); ok && a[1].(uint64) == 64 {
			return Tuple{t, Iface{}}
		}
		if x, neg, ok := m.digitsOf(a[0]); ok && a[1].(uint64) == 64 {
			// the nearest float64 of a decimal integer
			if !neg {
				return Tuple{fromTerm(m.c.FConv(OFFromU, x, 64)), Iface{}}
			}
			if x.umin > 0 && x.umax <= 1<<62 {
				return Tuple{fromTerm(m.c.FConv(OFFromS, m.c.Sub(m.c.Const(64, 0), x), 64)), Iface{}}
			}
			return Tuple{fromTerm(m.c.FNeg(m.c.FConv(OFFromU, x, 64))), Iface{}}
		}
		if x, neg, ok := m.decimalOf(a[0]); ok && a[1].(uint64) == 64 {
			f := m.c.FConv(OFFromU, x, 64)
			if neg {
				f = m.c.FNeg(f)
			}
			return Tuple{fromTerm(f), Iface{}}
		}
		return m.interpret(g, fn, a)
	})
	quote := func(m *M, a []Value) Value {
		return strconv.Quote(mustStr(a[0]))
	}
	pure("strconv.Quote", quote)

	// ------------------------------------------------------------ time
	reg("time.Now", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		m.preempt(g)
		return m.timeNow()
	})
	pure("time.runtimeNano time.runtimeNow", func(m *M, a []Value) Value {
		if m.vnowUnk {
			unsupported("time after a sleep of symbolic length")
		}
		return uint64(m.vnow)
	})
	pure("time.runtimeIsBubbled", func(m *M, a []Value) Value { return true }) // Since and Until as by Now().Sub
	pure("maps.clone", func(m *M, a []Value) Value {
		i := a[0].(Iface)
		o, _ := i.v.(*Map)
		if o == nil {
			return i
		}
		n := newMap(o.kt)
		for _, e := range o.ents {
			if !e.del {
				m.mapSet(n, e.k, e.v)
			}
		}
		return Iface{i.t, n}
	})
	pure("time.initLocal", func(m *M, a []Value) Value {
		p := m.globalByName("time", "localLoc")
		if p != nil {
			m.set(&(*p).(Struct)[0], "UTC")
		}
		return nil
	})
	reg("time.Sleep", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		if _, ok := a[0].(*Term); ok && m.alone(g) {
			// nothing happens meanwhile; the clock may not be asked for the time afterwards
			m.vnowUnk = true
			return nil
		}
		d := m.durArg(a[0])
		if d <= 0 {
			m.preempt(g)
			return nil
		}
		fired := false
		m.addTimer(m.vnow+d, 0, func(*G) { fired = true }, nil)
		m.block(g, "sleep", func() bool { return fired })
		return nil
	})
	newTimer := func(m *M, fn *ssa.Function, d, period int64, resT types.Type) Value {
		ch := m.newChan(1)
		t := m.addTimer(m.vnow+d, period, nil, ch)
		p := new(Value)
		st := zero(resT.Underlying().(*types.Pointer).Elem()).(Struct)
		st[0] = ch
		*p = st
		m.sideSet(p, t)
		return p
	}
	reg("time.NewTimer", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		return newTimer(m, fn, m.oneShot(g, a[0]), 0, fn.Signature.Results().At(0).Type())
	})
	reg("time.NewTicker", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		d := m.durArg(a[0])
		if d <= 0 {
			panic(targetPanic{Iface{canon(types.Typ[types.String]), "non-positive interval for NewTicker"}})
		}
		return newTimer(m, fn, d, d, fn.Signature.Results().At(0).Type())
	})
	reg("time.After", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		ch := m.newChan(1)
		m.addTimer(m.vnow+m.oneShot(g, a[0]), 0, nil, ch)
		return ch
	})
	reg("time.Tick", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		ch := m.newChan(1)
		d := m.durArg(a[0])
		m.addTimer(m.vnow+d, d, nil, ch)
		return ch
	})
	reg("time.AfterFunc", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		f := a[1]
		t := m.addTimer(m.vnow+m.durArg(a[0]), 0, nil, nil)
		at := m.cur.vc
		t.fire = func(g *G) {
			ng := m.spawn(g, f, nil, nil)
			ng.vc = vjoin(ng.vc, at)
		}
		p := new(Value)
		*p = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		m.sideSet(p, t)
		return p
	})
	stop := func(m *M, a []Value) Value {
		t, _ := m.side[a[0].(*Value)].(*timerS)
		if t == nil {
			return false
		}
		was := t.active
		t.active = false
		if t.ch != nil {
			was = was || len(t.ch.buf) > 0
			t.ch.buf = nil
		}
		return was
	}
	pure("(*time.Timer).Stop", stop)
	pure("(*time.Ticker).Stop", func(m *M, a []Value) Value { stop(m, a); return nil })
	pure("(*time.Timer).Reset (*time.Ticker).Reset", func(m *M, a []Value) Value {
		was := stop(m, a)
		t, _ := m.side[a[0].(*Value)].(*timerS)
		if t != nil {
			d := m.durArg(a[1])
			t.when = m.vnow + d
			if t.period > 0 {
				t.period = d
			}
			t.active = true
			m.timerSeq++
			t.seq = m.timerSeq
			found := false
			for _, x := range m.timers {
				if x == t {
					found = true
				}
			}
			if !found {
				m.timers = append(m.timers, t)
			}
		}
		return was
	})
	pure("time.LoadLocation", func(m *M, a []Value) Value { unsupported("time.LoadLocation"); return nil })

	// ------------------------------------------------------------ sorting helpers based on reflection
	sortSlice := func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		ifc := a[0].(Iface)
		s := ifc.v.(Slice)
		// insertion sort (what the library does up to 12 elements; stable beyond)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.call(g, nil, a[1], []Value{uint64(j), uint64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.store1(&s[j], y)
				m.store1(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice sort.SliceStable", sortSlice)

	// ------------------------------------------------------------ errors
	redir("os.Stat", "OsStat")
	redir("os.ReadFile", "OsReadFile")
	redir("os.Open", "OsOpen")
	pure(stubPkg+".Unsupported", func(m *M, a []Value) Value { unsupported("%s", mustStr(a[0])); return nil })
	redir("github.com/cockroachdb/errors.New", "New")
	redir("github.com/cockroachdb/errors.Errorf", "Errorf")
	redir("github.com/cockroachdb/errors.Newf", "Errorf")
	redir("github.com/cockroachdb/errors.Wrap", "Wrap")
	redir("github.com/cockroachdb/errors.Wrapf", "Wrapf")
	redir("github.com/cockroachdb/errors.WithStack", "WithStack")
	redir("github.com/cockroachdb/errors.WithMessage", "Wrap")
	redir("github.com/cockroachdb/errors.WithMessagef", "Wrapf")
	redir("github.com/cockroachdb/errors.Is", "CIs")
	redir("github.com/cockroachdb/errors.Cause", "Cause")
	redir("github.com/cockroachdb/errors.Unwrap", "Unwrap")
	redir("github.com/cockroachdb/errors.Join", "Join")
	redir("github.com/pkg/errors.New", "New")
	redir("github.com/pkg/errors.Errorf", "Errorf")
	redir("github.com/pkg/errors.WithStack", "WithStack")
	redir("errors.Is", "Is")
	redir("context.WithValue", "WithValue")
	as := func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		return m.errorsAs(g, a[0].(Iface), a[1].(Iface))
	}
	reg("errors.As github.com/cockroachdb/errors.As", as)
	redir("encoding/json.Marshal", "JSONMarshal")
	redir("encoding/json.MarshalIndent", "JSONMarshalIndent")
	redir("encoding/json.Unmarshal", "JSONUnmarshal")
	redir("github.com/spaolacci/murmur3.New64", "NewHash64")
	redir("github.com/spaolacci/murmur3.Sum64", "MurmurSum64")
	redir("github.com/spaolacci/murmur3.Sum64WithSeed", "MurmurSum64WithSeed")
	redir("github.com/spaolacci/murmur3.Sum128", "MurmurSum128")
	redir("crypto/sha256.Sum256", "Sum256")
	redir("hash/fnv.New64", "NewFnv64")
	redir("hash/fnv.New64a", "NewFnv64a")

	// ------------------------------------------------------------ fmt
	reg("fmt.Sprintf", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		return m.sprintf(g, mustStr(a[0]), a[1].(Slice))
	})
	reg("fmt.Sprint", func(m *M, g *G, fn *ssa.Function, a []Value) Value { return m.sprint(g, a[0].(Slice), false) })
	reg("fmt.Sprintln", func(m *M, g *G, fn *ssa.Function, a []Value) Value { return m.sprint(g, a[0].(Slice), true) })
	reg("fmt.Errorf", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		f, args := mustStr(a[0]), a[1].(Slice)
		var wrapped Slice
		n := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
			}
			if i == len(f) || f[i] == '%' {
				continue
			}
			if f[i] == '*' || f[i] == '[' {
				if strings.Contains(f, "w") {
					unsupported("Errorf %s", f)
				}
				break
			}
			if f[i] == 'w' && n < len(args) {
				wrapped = append(wrapped, args[n])
				f = f[:i] + "v" + f[i+1:]
			}
			n++
		}
		if len(wrapped) > 1 {
			return m.callFn(g, nil, m.P.pkgs[stubPkg].Func("WrapLazyAll"), []Value{f, args, wrapped}, nil)
		}
		w := Value(Iface{})
		if len(wrapped) == 1 {
			w = wrapped[0]
		}
		return m.callFn(g, nil, m.P.pkgs[stubPkg].Func("WrapLazy"), []Value{f, args, w}, nil)
	})
	wr := func(m *M, g *G, w Iface, s Value) Value {
		b := strBytes(s)
		sl := make(Slice, len(b))
		copy(sl, b)
		r, ok := m.callMethod(g, w, "Write", sl)
		if !ok {
			unsupported("Fprintf writer %v", w.t)
		}
		return r
	}
	reg("fmt.Fprintf", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		return wr(m, g, a[0].(Iface), m.sprintf(g, mustStr(a[1]), a[2].(Slice)))
	})
	reg("fmt.Fprint", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		return wr(m, g, a[0].(Iface), m.sprint(g, a[1].(Slice), false))
	})
	reg("fmt.Fprintln", func(m *M, g *G, fn *ssa.Function, a []Value) Value {
		return wr(m, g, a[0].(Iface), m.sprint(g, a[1].(Slice), true))
	})
	pure("fmt.Printf fmt.Println fmt.Print", func(m *M, a []Value) Value { return Tuple{uint64(0), Iface{}} })
}

// interpret runs the real body of an intercepted function.
func (m *M) interpret(g *G, fn *ssa.Function, args []Value) Value {
	key := bodyKey{fn}
	v, ok := bodyInfos.Load(key)
	if !ok {
		fi := &finfo{fn: fn}
		saved := intrinsicsFor(fn)
		fi.once.Do(func() { m.P.compileBody(fi, saved) })
		v, _ = bodyInfos.LoadOrStore(key, fi)
	}
	fi := v.(*finfo)
	g.depth++
	fr := &frame{fi: fi, m: m, g: g, regs: make([]Value, fi.nslots)}
	for i, s := range fi.params {
		fr.regs[s] = args[i]
	}
	if fi.hasDefer {
		fr.dstack = &fr.defers
		for fr.blk >= 0 {
			m.runDeferFrame(fr, g.depth)
		}
	} else {
		fr.run()
	}
	g.depth--
	return fr.result
}

func bytesOf(v Value) []Value {
	switch v := v.(type) {
	case Slice:
		return v
	}
	return strBytes(v)
}

func concBytes(v Value) (string, bool) {
	if s, ok := v.(Slice); ok {
		v = mkStr(s)
		r, ok := v.(string)
		return r, ok
	}
	return concStr(v)
}

func (m *M) eqByte(a, b Value) Value {
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			return x == y
		}
	}
	return fromTerm(m.c.Eq(m.byteTerm(a), m.byteTerm(b)))
}

func (m *M) eqAtomic(a, b Value, t types.Type) Value {
	switch a.(type) {
	case uint64, *Term:
		return m.eqVal(t, a, b)
	}
	if u, ok := a.(UPtr); ok {
		if u.p == nil {
			if p, ok := b.(*Value); ok {
				return p == nil
			}
			if p, ok := b.(UPtr); ok {
				return p.p == nil
			}
		}
		if p, ok := b.(UPtr); ok {
			return u.p == p.p
		}
		return u.p == b
	}
	if u, ok := b.(UPtr); ok {
		if u.p == nil {
			if p, ok := a.(*Value); ok {
				return p == nil
			}
		}
		return a == u.p
	}
	return a == b
}

func mul64(x, y uint64) (hi, lo uint64) {
	const mask32 = 1<<32 - 1
	x0, x1 := x&mask32, x>>32
	y0, y1 := y&mask32, y>>32
	w0 := x0 * y0
	t := x1*y0 + w0>>32
	w1, w2 := t&mask32, t>>32
	w1 += x0 * y1
	return x1*y1 + w2 + w1>>32, x * y
}

// fresh returns a fresh path-deterministic variable.
func (m *M) fresh(prefix string, w uint8) *Term {
	k := m.nFresh[prefix]
	m.nFresh[prefix]++
	return m.newVar(fmt.Sprintf("%s!%d", prefix, k), w, false)
}

func (m *M) freshR(prefix string, w uint8, lo, hi uint64) *Term {
	k := m.nFresh[prefix]
	m.nFresh[prefix]++
	name := fmt.Sprintf("%s!%d[%d,%d]", prefix, k, lo, hi)
	if _, ok := m.c.byName[name]; !ok {
		t := m.c.Var(name, w, false)
		m.c.setURange(t, lo, hi)
	}
	return m.newVar(name, w, false)
}

func (m *M) fbits(t *Term) Value {
	if t.op == OFFromB {
		return fromTerm(t.a)
	}
	b := m.fresh("fbits", t.w)
	back := m.c.FConv(OFFromB, b, t.w)
	m.addDef([]*Term{b}, []*Term{m.c.Eq(back, t)}, func() { m.setModel(int(b.k), m.c.Eval(t)) })
	return b
}

type digEnt struct {
	b []Value
	x *Term
}

// digitsOf recognises a text produced by symFormat: the magnitude it was made from.
func (m *M) digitsOf(s Value) (x *Term, neg, ok bool) {
	if _, c := s.(string); c || len(m.digEnts) == 0 {
		return nil, false, false
	}
	b := strBytes(s)
	if len(b) > 0 {
		if c, ok := b[0].(uint64); ok && c == '-' {
			neg = true
			b = b[1:]
		}
	}
	for _, e := range m.digEnts {
		if len(e.b) != len(b) {
			continue
		}
		same := true
		for i := range b {
			if b[i] != e.b[i] {
				same = false
				break
			}
		}
		if same {
			return e.x, neg, true
		}
	}
	return nil, false, false
}

// decimalOf is the value of a text of at most 18 decimal digits.
func (m *M) decimalOf(s Value) (x *Term, neg, ok bool) {
	b := strBytes(s)
	c := m.c
	if len(b) > 0 && m.branch(fromTerm(c.Eq(m.byteTerm(b[0]), c.Const(8, '-')))) {
		neg = true
		b = b[1:]
	}
	if len(b) == 0 || len(b) > 18 {
		return nil, false, false
	}
	dig := c.tru
	for _, v := range b {
		t := m.byteTerm(v)
		dig = c.BAnd(dig, c.BAnd(c.Not(c.Ult(t, c.Const(8, '0'))), c.Not(c.Ult(c.Const(8, '9'), t))))
	}
	if !m.branch(fromTerm(dig)) {
		return nil, false, false
	}
	x = c.Const(64, 0)
	for _, v := range b {
		d := c.Sub(m.byteTerm(v), c.Const(8, '0'))
		if d.umax > 9 {
			e := m.freshR("dg", 8, 0, 9)
			t := d
			m.addDef([]*Term{e}, []*Term{c.Eq(t, e)}, func() { m.setModel(int(e.k), m.c.Eval(t)) })
			d = e
		}
		x = c.Add(c.Mul(x, c.Const(64, 10)), c.Zext(d, 64))
	}
	return x, neg, true
}

// parseSym models strconv parsing of a text produced by symFormat.
func (m *M) parseSym(g *G, s Value, base, bits int, signed bool) (Value, bool) {
	if base != 10 && base != 0 {
		return nil, false
	}
	x, neg, ok := m.digitsOf(s)
	if !ok || neg && !signed {
		return nil, false
	}
	if bits == 0 {
		bits = 64
	}
	c := m.c
	rng := func() Value {
		t := m.P.pkgs["internal/strconv"].Type("Error").Type()
		return Iface{canon(t), uint64(1)} // ErrRange
	}
	if !signed {
		if bits < 64 {
			max := uint64(1)<<uint(bits) - 1
			if m.branch(fromTerm(c.Ult(c.Const(64, max), x))) {
				return Tuple{max, rng()}, true
			}
		}
		return Tuple{fromTerm(x), Iface{}}, true
	}
	cut := uint64(1) << uint(bits-1)
	if !neg {
		if m.branch(fromTerm(c.Not(c.Ult(x, c.Const(64, cut))))) {
			return Tuple{cut - 1, rng()}, true
		}
		return Tuple{fromTerm(x), Iface{}}, true
	}
	if m.branch(fromTerm(c.Ult(c.Const(64, cut), x))) {
		return Tuple{-cut, rng()}, true
	}
	return Tuple{fromTerm(c.Sub(c.Const(64, 0), x)), Iface{}}, true
}

// symFormat: decimal (relational digit contract) or hexadecimal text of a symbolic integer.
func (m *M) symFormat(x *Term, t types.Type, base int) Value {
	w, signed, _ := intInfo(t)
	c := m.c
	if x.w < 64 {
		if signed {
			x = c.Sext(x, 64)
		} else {
			x = c.Zext(x, 64)
		}
		w = 64
	}
	if x.isConst() {
		if signed {
			return strconv.FormatInt(int64(x.k), base)
		}
		return strconv.FormatUint(x.k, base)
	}
	neg := false
	if signed && m.branch(fromTerm(c.Slt(x, c.Const(w, 0)))) {
		neg = true
		x = c.Sub(c.Const(w, 0), x)
		if x.isConst() {
			return strconv.FormatInt(int64(-x.k), base)
		}
	}
	var out []Value
	if neg {
		out = append(out, uint64('-'))
	}
	switch base {
	case 16, 8, 2:
		sh := 4
		if base == 8 {
			sh = 3
		} else if base == 2 {
			sh = 1
		}
		n := 1
		for n*sh < 64 && !m.branch(fromTerm(c.Ult(x, c.Const(64, 1<<(n*sh))))) {
			n++
		}
		for i := n - 1; i >= 0; i-- {
			bw := sh
			if i*sh+bw > 64 {
				bw = 64 - i*sh
			}
			d := c.Zext(c.Extract(x, uint64(i*sh), uint8(bw)), 8)
			ch := c.Add(d, c.Const(8, '0'))
			if base == 16 {
				ch = c.Ite(c.Ult(d, c.Const(8, 10)), ch, c.Add(d, c.Const(8, 'a'-10)))
			}
			out = append(out, fromTerm(ch))
		}
		return mkStr(out)
	case 10:
	default:
		unsupported("symbolic number in base %d", base)
	}
	// number of digits
	n := 1
	p := uint64(10)
	for n < 20 && !m.branch(fromTerm(c.Ult(x, c.Const(64, p)))) {
		n++
		p *= 10 // overflows only when n reaches 20, where it is no longer used
	}
	key := fmt.Sprintf("%d:%d", x.id, n)
	if d, ok := m.digits[key]; ok {
		return mkStr(append(out, d...))
	}
	ds := make([]*Term, n)
	sum := c.Const(64, 0)
	pw := uint64(1)
	for i := n - 1; i >= 0; i-- {
		lo, hi := uint64(0), uint64(9)
		if i == 0 && n > 1 {
			lo = 1
			if n == 20 {
				hi = 1
			}
		}
		var d *Term
		if lo == hi {
			d = c.Const(8, lo)
		} else {
			d = m.freshR("dig", 8, lo, hi)
		}
		ds[i] = d
		sum = c.Add(sum, c.MulC(c.Zext(d, 64), pw))
		pw *= 10
	}
	// For n = 20 the sum of 20 digits with leading 1 could exceed 2^64: forbid the wrap.
	facts := []*Term{c.Eq(x, sum)}
	if n == 20 {
		low := c.Sub(sum, c.Const(64, 10000000000000000000))
		facts = append(facts, c.Not(c.Ult(c.Const(64, 8446744073709551615), low)))
	}
	var outs []*Term
	for _, d := range ds {
		if !d.isConst() {
			outs = append(outs, d)
		}
	}
	m.addDef(outs, facts, func() {
		v := m.c.Eval(x)
		for i := n - 1; i >= 0; i-- {
			if !ds[i].isConst() {
				m.setModel(int(ds[i].k), v%10)
			}
			v /= 10
		}
	})
	for _, d := range ds {
		ch := c.Add(d, c.Const(8, '0'))
		out = append(out, fromTerm(ch))
	}
	st := 0
	if neg {
		st = 1
	}
	if m.digits == nil {
		m.digits = map[string][]Value{}
	}
	m.digits[key] = out[st:len(out):len(out)]
	m.digEnts = append(m.digEnts, digEnt{m.digits[key], x})
	return mkStr(out)
}

// timeNow builds a time.Time of the virtual clock (midnight 2000-01-01 UTC + vnow, with monotonic reading).
const virtEpochSec = 946684800

func (m *M) timeNow() Value {
	if m.nowFn != nil {
		return m.call(m.cur, nil, m.nowFn, nil)
	}
	if m.vnowUnk {
		unsupported("time after a sleep of symbolic length")
	}
	return m.virtualNow()
}

func (m *M) virtualNow() Value {
	sec := int64(virtEpochSec) + m.vnow/1e9
	if m.initDep > 0 {
		sec += 830000000 // natively, initialisation happens on the real clock
	}
	nsec := m.vnow % 1e9
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	s := sec + unixToInternal - wallToInternal
	wall := uint64(1)<<63 | uint64(s)<<30 | uint64(nsec)
	loc := m.globalByName("time", "localLoc")
	return Struct{wall, uint64(m.vnow + 1), loc}
}

func (m *M) globalByName(pkg, name string) *Value {
	p := m.P.pkgs[pkg]
	if p == nil {
		return nil
	}
	g := p.Var(name)
	if g == nil {
		return nil
	}
	return m.global(m.P.globalIndex(g)).(*Value)
}

// oneShot is the duration of a timer that fires once. One of symbolic length started while nothing else can run is the
// next thing to happen once all is blocked; no other timer may be started and the clock not be asked for the time then.
func (m *M) oneShot(g *G, v Value) int64 {
	if _, ok := v.(*Term); ok && m.alone(g) {
		m.vnowLater = true
		return 0
	}
	return m.durArg(v)
}

func (m *M) durArg(v Value) int64 {
	switch v := v.(type) {
	case uint64:
		return int64(v)
	case *Term:
		return int64(m.concretize(v))
	}
	panic("durArg")
}

// errorsAs models errors.As.
func (m *M) errorsAs(g *G, err, target Iface) Value {
	if err.t == nil {
		return false
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		unsupported("errors.As target")
	}
	et := canon(pt.Elem())
	_, isI := et.Underlying().(*types.Interface)
	for n := 0; err.t != nil && n < 50; n++ {
		if isI && m.P.implements(err.t, et) {
			m.store(target.v, err)
			return true
		}
		if !isI && err.t == et {
			m.store(target.v, err.v)
			return true
		}
		if r, ok := m.callMethod(g, err, "As", target); ok && m.branch(r) {
			return true
		}
		r, ok := m.callMethod(g, err, "Unwrap")
		if !ok {
			return false
		}
		if l, multi := r.(Slice); multi {
			for _, e := range l {
				if m.errorsAs(g, e.(Iface), target).(bool) {
					return true
				}
			}
			return false
		}
		err = r.(Iface)
	}
	return false
}
