package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *M, g *G, fn *ssa.Function, args []Value) Value

type trailEnt struct {
	p   *Value
	old Value
	f   func()
}

type dec struct {
	k uint8 // 0 branch, 1 branch implied, 2 pick, 3 choose
	v uint64
}

type input struct {
	label string
	kind  string // u, s
	vals  []Value
}

// M is one worker's machine.
type M struct {
	P       *Prog
	ex      *Explorer
	id      int
	c       *TCtx
	s       *Solver
	globals []*Value
	inited  map[*ssa.Package]int
	trail   []trailEnt
	trailOn bool
	initDep int
	side    map[*Value]any
	warn    map[string]bool

	// per path
	pc       []*Term
	pcSet    map[*Term]bool
	prefix   []dec
	pos      int
	decs     []dec
	steps    int
	inputs   []input
	occ      map[string]int
	mapOrder bool
	nFresh   map[string]int
	reached  map[string]bool
	asserts  int
	trace    []traceEnt
	unkOnPth bool
	// goroutines
	gs           []*G
	cur          *G
	killing      bool
	pendAbort    any
	conc         bool
	preemptMx    int
	preempts     int
	nondet       bool
	addrs        map[*Value]uint64
	memPre       bool
	race         *raceState
	vnow         int64
	env          map[string]Value
	vnowUnk      bool // the virtual clock advanced by a symbolic amount
	vnowLater    bool // the timer being started has a symbolic length
	timers       []*timerS
	timerSeq     int
	nowFn        Value
	covered      map[*finfo]bool
	freezeLog    bool
	spin         int
	poolMiss     bool
	leakCheck    bool
	modelIn      map[string]uint64
	modelChecked bool
	digits       map[string][]Value
	digEnts      []digEnt
	defs         []*defn
	uf           []ufEnt
	ftext        []ftextEnt
}

type traceEnt struct {
	label string
	v     Value
}

type frame struct {
	fi        *finfo
	m         *M
	g         *G
	caller    *frame
	regs      []Value
	blk       int
	prev      int
	defers    []deferred
	dstack    *[]deferred
	result    Value
	panicking bool
	panicVal  any
	tolerant  bool
}

type poison struct{ why string }

// execTolerant is exec for package initialisers: what cannot be computed poisons only its result.
func (fr *frame) execTolerant(ci *cins) (r int) {
	depth := fr.g.depth
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		why := ""
		switch x := e.(type) {
		case pathAbort:
			if x.kind != "unsupported" && x.kind != "bound" {
				panic(e)
			}
			why = x.msg
		case targetPanic:
			why = "panic " + fr.m.show(x.v, 0)
		case runtime.Error:
			why = x.Error()
		default:
			panic(e)
		}
		switch ci.ins.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			panic(e)
		}
		fr.g.depth = depth
		if ci.dst >= 0 {
			fr.regs[ci.dst] = poison{why}
		}
		pos := ""
		if _, ok := ci.ins.(*ssa.Store); !ok {
			pos = ci.ins.String()
		}
		fr.m.warnf("init of %s: %s: %s", fr.fi.pkg.Pkg.Path(), pos, why)
		r = 0
	}()
	return fr.exec(ci)
}

type deferred struct {
	fn   Value
	args []Value
}

func (m *M) undo(f func()) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{f: f})
	}
}

func (m *M) set(p *Value, v Value) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (m *M) rollback() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		t := &m.trail[i]
		if t.f != nil {
			t.f()
		} else {
			*t.p = t.old
		}
	}
	m.trail = m.trail[:0]
}

// store writes v to *p in place (keeping interior pointers valid).
func (m *M) store(pv Value, v Value) {
	switch p := pv.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.store1(p, v)
	case *SymPtr:
		n := len(p.elems)
		for i := 0; i < n; i++ {
			if uint64(i) < p.idx.umin || uint64(i) > p.idx.umax {
				continue
			}
			cond := m.c.Eq(p.idx, m.c.Const(p.idx.w, uint64(i)))
			old := p.elems[i]
			w := m.iteV(cond, v, old)
			m.set(&p.elems[i], w)
		}
	case *Func:
		// native pointer cell
		unsupported("store through %T", pv)
	default:
		unsupported("store through %T", pv)
	}
}

func (m *M) store1(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				m.store1(&d[i], x[i])
			}
			return
		}
		m.set(p, copyVal(v))
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				m.store1(&d[i], x[i])
			}
			return
		}
		m.set(p, copyVal(v))
	default:
		m.set(p, v)
	}
}

// iteV builds a conditional scalar.
func (m *M) iteV(cond *Term, a, b Value) Value {
	if a == b {
		return a
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 && !ok2 {
		switch x := a.(type) {
		case bool:
			return fromTerm(m.c.Ite(cond, m.c.Bool(x), m.c.Bool(b.(bool))))
		}
		unsupported("ite needs a width")
	}
	var w uint8
	var fp bool
	if ok1 {
		w, fp = at.w, at.fp
	} else {
		w, fp = bt.w, bt.fp
	}
	mk := func(v Value) *Term {
		switch v := v.(type) {
		case *Term:
			return v
		case uint64:
			return m.c.Const(w, v)
		case bool:
			return m.c.Bool(v)
		case float64:
			return m.c.FConst(w, v)
		}
		unsupported("ite of %T", v)
		return nil
	}
	_ = fp
	return fromTerm(m.c.Ite(cond, mk(a), mk(b)))
}

func (m *M) load(pv Value, t types.Type) Value {
	switch p := pv.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		v := *p
		switch x := v.(type) {
		case Struct, Array:
			return copyVal(v)
		case Slice:
			if isString(t) {
				return &ViewStr{x}
			}
		}
		return v
	case *SymPtr:
		return m.selectElem(p.elems, p.idx, t)
	}
	unsupported("load through %T", pv)
	return nil
}

// selectElem reads elems[idx] for a symbolic in-range idx.
func (m *M) selectElem(elems []Value, idx *Term, t types.Type) Value {
	lo, hi := idx.umin, idx.umax
	if hi >= uint64(len(elems)) {
		hi = uint64(len(elems)) - 1
	}
	first := elems[lo]
	same := true
	scalar := true
	for i := lo; i <= hi; i++ {
		switch elems[i].(type) {
		case uint64, *Term, bool, float64:
			if elems[i] != first {
				same = false
			}
		default:
			scalar = false
		}
	}
	if scalar && same {
		return first
	}
	if scalar {
		w, _, isInt := intInfo(t)
		if isInt {
			if hi-lo < maxTab {
				vals := make([]uint64, 0, hi-lo+1)
				for i := lo; i <= hi; i++ {
					if k, ok := elems[i].(uint64); ok {
						vals = append(vals, k)
					} else {
						break
					}
				}
				if uint64(len(vals)) == hi-lo+1 {
					return fromTerm(m.c.Table(idx, lo, vals, w))
				}
			}
			// group equal values to keep the chain short
			var res *Term
			if hi-lo < 1024 {
				type grp struct {
					v  Value
					lo uint64
					hi uint64
				}
				var gs []grp
				for i := lo; i <= hi; i++ {
					if n := len(gs); n > 0 && gs[n-1].v == elems[i] {
						gs[n-1].hi = i
					} else {
						gs = append(gs, grp{elems[i], i, i})
					}
				}
				mk := func(v Value) *Term {
					if x, ok := v.(*Term); ok {
						return x
					}
					return m.c.Const(w, v.(uint64))
				}
				res = mk(gs[len(gs)-1].v)
				for k := len(gs) - 2; k >= 0; k-- {
					cond := m.c.Ult(idx, m.c.Const(idx.w, gs[k].hi+1))
					res = m.c.Ite(cond, mk(gs[k].v), res)
				}
				return fromTerm(res)
			}
		}
		if isBoolT(t) && hi-lo < 1024 {
			res := m.term(elems[hi], t)
			for i := int(hi) - 1; i >= int(lo); i-- {
				res = m.c.Ite(m.c.Eq(idx, m.c.Const(idx.w, uint64(i))), m.term(elems[i], t), res)
			}
			return fromTerm(res)
		}
	}
	i := m.concretize(idx)
	return copyVal(elems[i])
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case okSlot:
		return fr.regs[o.slot]
	case okConst:
		if pa, ok := o.v.(pathAbort); ok {
			panic(pa)
		}
		return o.v
	case okConstAgg:
		return copyVal(o.v)
	case okGlobal:
		return fr.m.global(o.slot)
	}
	return nil
}

// call invokes fn (a *Func or builtin) with args.
func (m *M) call(g *G, caller *frame, fv Value, args []Value) Value {
	f, ok := fv.(*Func)
	if !ok {
		if b, ok := fv.(*ssa.Builtin); ok {
			return m.builtin(g, caller, b, args, nil)
		}
		panic(fmt.Sprintf("call of %T", fv))
	}
	if f == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		return f.native(m, g, args)
	}
	return m.callFn(g, caller, f.fn, args, f.env)
}

func (m *M) callFn(g *G, caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	if m.initDep > 0 && caller != nil && fn.Synthetic == "package initializer" {
		// imports' initialisers are run on demand
		if fn.Pkg != nil {
			m.initImport(fn.Pkg)
		}
		return nil
	}
	fi := m.P.info(fn)
	if fi.redirect != nil {
		fi = m.P.info(fi.redirect)
	}
	if fi.intr != nil {
		if m.ex != nil {
			g.callerFrame = caller
		}
		return fi.intr(m, g, fn, args)
	}
	if fi.external || !fi.built {
		unsupported("external function %s", fi.name)
	}
	g.depth++
	if g.depth > 2000 {
		panic(pathAbort{"bound", "call depth in " + fi.name})
	}
	if fi.repo && m.trailOn && !m.covered[fi] {
		m.covered[fi] = true
	}
	fr := &frame{fi: fi, m: m, g: g, caller: caller, regs: make([]Value, fi.nslots)}
	for i, s := range fi.params {
		fr.regs[s] = args[i]
	}
	for i, s := range fi.free {
		fr.regs[s] = env[i]
	}
	if fi.hasDefer {
		fr.dstack = &fr.defers
		d := g.depth
		for {
			m.runDeferFrame(fr, d)
			if fr.blk < 0 {
				break
			}
		}
	} else {
		fr.run()
	}
	g.depth--
	return fr.result
}

// runDeferFrame runs the frame, handling target panics by running the defers.
func (m *M) runDeferFrame(fr *frame, depth int) {
	defer func() {
		if fr.blk < 0 {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.g.depth = depth
		fr.panicking = true
		fr.panicVal = tp
		fr.runDefers()
		// recovered
		if fr.fi.recover < 0 {
			// return zero values
			fr.result = zeroResults(fr.fi.fn)
			fr.blk = -1
			return
		}
		fr.prev = -1
		fr.blk = fr.fi.recover
	}()
	fr.run()
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		n := len(fr.defers) - 1
		d := fr.defers[n]
		fr.defers = fr.defers[:n]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	depth := fr.g.depth
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.g.depth = depth
			fr.panicking = true
			fr.panicVal = tp
		}
	}()
	fr.m.call(fr.g, fr, d.fn, d.args)
	ok = true
}

func (fr *frame) run() {
	m := fr.m
	for {
		b := &fr.fi.blocks[fr.blk]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.blk.Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if pi < 0 {
				panic("phi pred")
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].ops[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].ops[pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		m.steps += len(b.code)
		if m.steps > m.ex.maxSteps && m.trailOn {
			panic(pathAbort{"bound", "step limit in " + fr.fi.name})
		}
		if m.steps&0x3fff < len(b.code) && m.ex.stopped() && m.trailOn {
			panic(pathAbort{"time", "time budget"})
		}
	code:
		for k := range b.code {
			ci := &b.code[k]
			if fr.tolerant {
				switch fr.execTolerant(ci) {
				case 0:
				case 1:
					break code
				case 2:
					return
				}
				continue
			}
			switch fr.exec(ci) {
			case 0:
			case 1:
				break code
			case 2:
				return
			}
		}
		if fr.blk < 0 {
			return
		}
	}
}

func asInt(v Value, t types.Type) (int64, bool) {
	u, ok := v.(uint64)
	if !ok {
		return 0, false
	}
	w, signed, _ := intInfo(t)
	if signed {
		return sext64(u, w), true
	}
	if u > 1<<62 {
		return 1 << 62, true
	}
	return int64(u), true
}

// indexIn bounds-checks idx against n and returns a concrete index or a symbolic term.
func (m *M) indexIn(v Value, t types.Type, n int) (int, *Term) {
	if i, ok := asInt(v, t); ok {
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	x := v.(*Term)
	w, signed, _ := intInfo(t)
	// out-of-range as unsigned comparison after widening
	if w < 64 {
		if signed {
			x = m.c.Sext(x, 64)
		} else {
			x = m.c.Zext(x, 64)
		}
	}
	if !m.branch(fromTerm(m.c.Ult(x, m.c.Const(64, uint64(n))))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	if n == 1 {
		return 0, nil
	}
	return 0, x
}

func (m *M) needInt(v Value, t types.Type) int64 {
	if i, ok := asInt(v, t); ok {
		return i
	}
	w, signed, _ := intInfo(t)
	u := m.concretize(v.(*Term))
	if signed {
		return sext64(u, w)
	}
	return int64(u)
}

// exec: 0 next, 1 jumped, 2 returned
func (fr *frame) exec(ci *cins) int {
	m := fr.m
	switch ins := ci.ins.(type) {
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch ins.Op {
		case token.MUL:
			if m.memPre && fr.fi.repo {
				m.memPoint(fr.g, x)
			}
			if m.race != nil {
				fr.racePoint(x, false)
			}
			fr.regs[ci.dst] = m.load(x, ins.Type())
		case token.ARROW:
			v, ok := m.chanRecv(fr.g, x.(*Chan))
			if v == nil {
				v = zero(ins.X.Type().Underlying().(*types.Chan).Elem())
			}
			if ins.CommaOk {
				fr.regs[ci.dst] = Tuple{v, ok}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			fr.regs[ci.dst] = m.unop(ins.Op, ci.t, x)
		}
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(ins.Op, ci.t, ci.t2, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Call:
		if ci.dead {
			fr.regs[ci.dst] = ""
			return 0
		}
		fv, args := fr.prepCall(ci, &ins.Call)
		if b, ok := fv.(*ssa.Builtin); ok {
			if m.race != nil {
				raceBuiltin(fr, b.Name(), args, nil)
			}
			fr.regs[ci.dst] = m.builtin(fr.g, fr, b, args, &ins.Call)
		} else {
			fr.regs[ci.dst] = m.call(fr.g, fr, fv, args)
		}
	case *ssa.FieldAddr:
		x := fr.get(&ci.ops[0])
		p, ok := x.(*Value)
		if !ok {
			unsupported("field address of %T", x)
		}
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			if _, isN := (*p).(*Native); isN {
				unsupported("field %d of native object %s", ins.Field, ins.X.Type())
			}
			unsupported("field address into %T (%s)", *p, ins.X.Type())
		}
		fr.regs[ci.dst] = &s[ins.Field]
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			unsupported("field of %T", fr.get(&ci.ops[0]))
		}
		fr.regs[ci.dst] = s[ins.Field]
	case *ssa.Store:
		p := fr.get(&ci.ops[0])
		if m.memPre && fr.fi.repo {
			m.memPoint(fr.g, p)
		}
		if m.race != nil {
			fr.racePoint(p, true)
		}
		m.store(p, fr.get(&ci.ops[1]))
	case *ssa.If:
		c := fr.get(&ci.ops[0])
		fr.prev = fr.blk
		var t bool
		if b, ok := c.(bool); ok {
			t = b
		} else {
			t = m.branch(c)
		}
		succs := ins.Block().Succs
		if t {
			fr.blk = succs[0].Index
		} else {
			fr.blk = succs[1].Index
		}
		return 1
	case *ssa.Jump:
		fr.prev = fr.blk
		fr.blk = ins.Block().Succs[0].Index
		return 1
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
		case 1:
			fr.result = fr.get(&ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = fr.get(&ci.ops[i])
			}
			fr.result = t
		}
		fr.blk = -1
		return 2
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(ci.t)
		fr.regs[ci.dst] = p
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{ci.t, fr.get(&ci.ops[0])}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(ci.t, ci.t2, fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(ci.t, ci.t2, fr.get(&ci.ops[0]))
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[ins.Index]
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		iv := fr.get(&ci.ops[1])
		var el []Value
		switch x := x.(type) {
		case Slice:
			el = x
		case *Value:
			if x == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			el = (*x).(Array)
		default:
			unsupported("index address of %T", x)
		}
		i, st := m.indexIn(iv, ci.t, len(el))
		if st != nil {
			fr.regs[ci.dst] = m.symElem(el, st, ins)
		} else {
			fr.regs[ci.dst] = &el[i]
			if ci.base {
				m.sideSet(&el[i], Slice(el[i:cap(el)]))
			}
		}
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		iv := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case Array:
			i, st := m.indexIn(iv, ci.t, len(x))
			if st != nil {
				fr.regs[ci.dst] = m.selectElem(x, st, ins.Type())
			} else {
				fr.regs[ci.dst] = x[i]
			}
		default:
			i, st := m.indexIn(iv, ci.t, strLen(x))
			if st != nil {
				fr.regs[ci.dst] = m.selectElem(strBytes(x), st, ins.Type())
			} else {
				fr.regs[ci.dst] = strAt(x, i)
			}
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case *Map:
			if m.race != nil {
				fr.racePoint(x, false)
			}
			e := m.mapFind(x, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(ins.X.Type().Underlying().(*types.Map).Elem())
			}
			if ins.CommaOk {
				fr.regs[ci.dst] = Tuple{v, e != nil}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			i, st := m.indexIn(k, ins.Index.Type(), strLen(x))
			if st != nil {
				fr.regs[ci.dst] = m.selectElem(strBytes(x), st, types.Typ[types.Uint8])
			} else {
				fr.regs[ci.dst] = strAt(x, i)
			}
		}
	case *ssa.MapUpdate:
		mp := fr.get(&ci.ops[0]).(*Map)
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		if m.race != nil {
			fr.racePoint(mp, true)
		}
		m.mapSet(mp, fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])))
	case *ssa.Phi:
		panic("phi in code")
	case *ssa.Slice:
		fr.regs[ci.dst] = fr.slice(ci, ins)
	case *ssa.MakeSlice:
		l := m.needInt(fr.get(&ci.ops[0]), ins.Len.Type())
		c := m.needInt(fr.get(&ci.ops[1]), ins.Cap.Type())
		if l < 0 || l > c {
			m.rtPanic("makeslice: len out of range")
		}
		if c > 1<<22 {
			unsupported("makeslice of %d", c)
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		z := zero(et)
		agg := isAgg(z)
		for i := range s {
			if agg {
				s[i] = zero(et)
			} else {
				s[i] = z
			}
		}
		fr.regs[ci.dst] = s[:l]
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap(ins.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeChan:
		n := m.needInt(fr.get(&ci.ops[0]), ins.Size.Type())
		fr.regs[ci.dst] = m.newChan(int(n))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		fr.regs[ci.dst] = &Func{fn: ins.Fn.(*ssa.Function), env: env}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(ins, ci.t, fr.get(&ci.ops[0]).(Iface))
	case *ssa.Range:
		if m.race != nil {
			if mp, ok := fr.get(&ci.ops[0]).(*Map); ok {
				fr.racePoint(mp, false)
			}
		}
		fr.regs[ci.dst] = m.newIter(fr.get(&ci.ops[0]))
	case *ssa.Next:
		fr.regs[ci.dst] = m.next(fr.get(&ci.ops[0]), ins)
	case *ssa.Go:
		fv, args := fr.prepCall(ci, &ins.Call)
		m.spawn(fr.g, fv, args, &ins.Call)
	case *ssa.Defer:
		fv, args := fr.prepCall(ci, &ins.Call)
		ds := fr.dstack
		if ci.flag {
			args = args[:len(args)-1]
			ds = fr.get(&ci.ops[len(ci.ops)-1]).(*Native).v.(*[]deferred)
		}
		if b, ok := fv.(*ssa.Builtin); ok {
			com := &ins.Call
			fv = &Func{name: b.Name(), native: func(m *M, g *G, a []Value) Value { return m.builtin(g, fr, b, a, com) }}
		}
		*ds = append(*ds, deferred{fv, args})
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(&ci.ops[0]).(Iface)
		if v.t == nil {
			m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(targetPanic{v})
	case *ssa.Send:
		m.chanSend(fr.g, fr.get(&ci.ops[0]).(*Chan), copyVal(fr.get(&ci.ops[1])))
	case *ssa.Select:
		fr.regs[ci.dst] = fr.sel(ci, ins)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		if s == nil {
			fr.regs[ci.dst] = (*Value)(nil)
		} else {
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[ci.dst] = p
		}
	default:
		unsupported("instruction %T", ins)
	}
	return 0
}

func (m *M) symElem(el []Value, st *Term, ins *ssa.IndexAddr) Value {
	scalar := true
	if len(el) > 4096 {
		scalar = false
	} else {
		switch el[0].(type) {
		case uint64, bool, float64, *Term:
		default:
			scalar = false
		}
	}
	if !scalar {
		return &el[m.concretize(st)]
	}
	return &SymPtr{el, st}
}

func (fr *frame) slice(ci *cins, ins *ssa.Slice) Value {
	m := fr.m
	x := fr.get(&ci.ops[0])
	idx := func(k int, def int) (int, bool) {
		if ci.ops[k].kind == okNone {
			return def, false
		}
		var t types.Type
		switch k {
		case 1:
			t = ins.Low.Type()
		case 2:
			t = ins.High.Type()
		case 3:
			t = ins.Max.Type()
		}
		return int(m.needInt(fr.get(&ci.ops[k]), t)), true
	}
	switch x := x.(type) {
	case string, *SymStr, *ViewStr:
		n := strLen(x)
		lo, _ := idx(1, 0)
		hi, _ := idx(2, n)
		if lo < 0 || hi > n || lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSub(x, lo, hi)
	case Slice:
		lo, _ := idx(1, 0)
		hi, _ := idx(2, len(x))
		mx, has := idx(3, cap(x))
		if lo < 0 || hi > cap(x) || lo > hi || mx > cap(x) || hi > mx {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(x)))
		}
		if has {
			return x[lo:hi:mx]
		}
		return x[lo:hi]
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := Slice((*x).(Array))
		lo, _ := idx(1, 0)
		hi, _ := idx(2, len(a))
		mx, _ := idx(3, len(a))
		if lo < 0 || hi > len(a) || lo > hi || mx > len(a) || hi > mx {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with array length %d", lo, hi, len(a)))
		}
		return a[lo:hi:mx]
	}
	unsupported("slice of %T", x)
	return nil
}

func (fr *frame) prepCall(ci *cins, call *ssa.CallCommon) (Value, []Value) {
	m := fr.m
	v := fr.get(&ci.ops[0])
	n := len(ci.ops) - 1
	if call.Method == nil {
		args := make([]Value, n)
		for i := 0; i < n; i++ {
			args[i] = fr.get(&ci.ops[i+1])
		}
		return v, args
	}
	args := make([]Value, n+1)
	for i := 0; i < n; i++ {
		args[i+1] = fr.get(&ci.ops[i+1])
	}
	recv, ok := v.(Iface)
	if !ok {
		unsupported("invoke on %T", v)
	}
	return m.methodOf(recv, call.Method, args), args
}

func (m *M) methodOf(recv Iface, meth *types.Func, args []Value) Value {
	if recv.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	args[0] = recv.v
	if n, ok := recv.v.(*Native); ok && n != nil {
		if f := nativeMethod(n, meth.Name()); f != nil {
			return &Func{name: meth.Name(), native: f}
		}
	}
	fn := m.P.method(recv.t, meth)
	if fn == nil {
		unsupported("method %s of %s", meth, recv.t)
	}
	return &Func{fn: fn}
}

// callMethod calls a method by name on an interface value.
func (m *M) callMethod(g *G, recv Iface, name string, args ...Value) (Value, bool) {
	if recv.t == nil {
		return nil, false
	}
	fn := m.P.methodByName(recv.t, name)
	if fn == nil {
		return nil, false
	}
	return m.callFn(g, nil, fn, append([]Value{recv.v}, args...), nil), true
}

func (m *M) typeAssert(ins *ssa.TypeAssert, at types.Type, x Iface) Value {
	var v Value
	ok := false
	if it, isI := at.Underlying().(*types.Interface); isI {
		if x.t != nil && (it.NumMethods() == 0 || m.P.implements(x.t, at)) {
			ok = true
		}
		if ok {
			v = x
		} else {
			v = Iface{}
		}
	} else {
		if x.t == at {
			ok = true
			v = copyVal(x.v)
		}
	}
	if !ok && !ins.CommaOk {
		what := "nil"
		if x.t != nil {
			what = x.t.String()
		}
		m.rtPanicT("TypeAssertionError", fmt.Sprintf("interface conversion: interface is %s, not %s", what, at))
	}
	if ins.CommaOk {
		if !ok {
			v = zero(at)
		}
		return Tuple{v, ok}
	}
	return v
}

// rtPanic raises a Go runtime error.
func (m *M) rtPanic(msg string) { m.rtPanicT("errorString", msg) }

func (m *M) rtPanicT(_ string, msg string) {
	if m.initDep > 0 {
		unsupported("runtime panic during initialisation: %s", msg)
	}
	pkg := m.P.pkgs["runtime"]
	var t types.Type
	if pkg != nil {
		if o := pkg.Pkg.Scope().Lookup("errorString"); o != nil {
			t = canon(o.Type())
		}
	}
	if t == nil {
		t = canon(types.Typ[types.String])
	}
	panic(targetPanic{Iface{t, msg}})
}

// ---------------------------------------------------------------- iterators

type iter struct {
	str  Value
	pos  int
	mp   *Map
	todo []*mapEnt
}

func (m *M) newIter(x Value) Value {
	switch x := x.(type) {
	case *Map:
		it := &iter{mp: x}
		if x != nil {
			it.todo = append(it.todo, x.ents...)
		}
		return it
	}
	return &iter{str: normStr(x)}
}

func (m *M) next(v Value, ins *ssa.Next) Value {
	it := v.(*iter)
	if !ins.IsString {
		// drop deleted
		var live []*mapEnt
		for _, e := range it.todo {
			if !e.del {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			it.todo = nil
			mt := ins.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			return Tuple{false, zero(mt.Key()), zero(mt.Elem())}
		}
		i := 0
		if m.mapOrder && len(live) > 1 {
			i = m.choose("maporder", len(live))
		}
		e := live[i]
		rest := append([]*mapEnt{}, live[:i]...)
		it.todo = append(rest, live[i+1:]...)
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	if it.pos >= strLen(it.str) {
		return Tuple{false, uint64(0), uint64(0)}
	}
	p := it.pos
	if s, ok := it.str.(string); ok {
		r, n := utf8.DecodeRuneInString(s[p:])
		it.pos += n
		return Tuple{true, uint64(p), uint64(uint32(r))}
	}
	r, n := m.decodeRune(it.str, p)
	it.pos += n
	return Tuple{true, uint64(p), r}
}

// ---------------------------------------------------------------- builtins

func (m *M) builtin(g *G, caller *frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr, *ViewStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		default:
			add = strBytes(y)
		}
		return m.appendVals(s, add, call)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = strBytes(y)
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.store1(&dst[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		if mp := args[0].(*Map); mp != nil {
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			m.mapClear(x)
		case Slice:
			var et types.Type
			if call != nil {
				et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
			}
			for i := range x {
				m.store1(&x[i], zero(et))
			}
		}
		return nil
	case "close":
		m.chanClose(g, args[0].(*Chan))
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v})
	case "recover":
		return m.doRecover(caller)
	case "print", "println":
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, a := range args[1:] {
			var lt Value
			if b.Name() == "min" {
				lt = m.binop(token.LSS, t, t, a, r)
			} else {
				lt = m.binop(token.LSS, t, t, r, a)
			}
			if m.branch(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic(fmt.Sprintf("value method %s.%s called using nil pointer", m.show(args[1], 0), m.show(args[2], 0)))
		}
		return args[0]
	case "ssa:deferstack":
		return &Native{"deferstack", caller.dstack}
	case "String": // unsafe.String(ptr, len)
		return m.unsafeString(args[0], args[1])
	case "StringData":
		s := normStr(args[0])
		bs := strBytes(s)
		if len(bs) == 0 {
			return (*Value)(nil)
		}
		cp := make([]Value, len(bs))
		copy(cp, bs)
		m.side[&cp[0]] = Slice(cp)
		return &cp[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		full := s[:cap(s)]
		p := &full[0]
		m.sideSet(p, full)
		return p
	case "Slice":
		p, _ := args[0].(*Value)
		n := int(args[1].(uint64))
		if p == nil {
			return Slice(nil)
		}
		if s, ok := m.side[p].(Slice); ok && len(s) >= n {
			return s[:n:n]
		}
		unsupported("unsafe.Slice")
	}
	if b.Name() == "Sizeof" || b.Name() == "Alignof" {
		sz := types.SizesFor("gc", "amd64")
		t := call.Args[0].Type()
		if tp, ok := t.(*types.TypeParam); ok {
			f := caller.fi.fn
			for i, p := 0, f.TypeParams(); p != nil && i < p.Len(); i++ {
				if p.At(i) == tp && i < len(f.TypeArgs()) {
					t = f.TypeArgs()[i]
				}
			}
		}
		if _, ok := t.(*types.TypeParam); !ok {
			if b.Name() == "Sizeof" {
				return uint64(sz.Sizeof(t))
			}
			return uint64(sz.Alignof(t))
		}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (m *M) sideSet(p *Value, v any) {
	old, had := m.side[p]
	m.side[p] = v
	m.undo(func() {
		if had {
			m.side[p] = old
		} else {
			delete(m.side, p)
		}
	})
}

func (m *M) unsafeString(pv, nv Value) Value {
	n, ok := nv.(uint64)
	if !ok {
		n = m.concretize(nv.(*Term))
	}
	p, _ := pv.(*Value)
	if p == nil || n == 0 {
		return ""
	}
	if s, ok := m.side[p].(Slice); ok && uint64(len(s)) >= n {
		return &ViewStr{s[:n]}
	}
	if n == 1 {
		return &ViewStr{Slice{*p}}
	}
	unsupported("unsafe.String of unknown memory")
	return nil
}

func (m *M) appendVals(s Slice, add []Value, call *ssa.CallCommon) Value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range add {
			m.store1(&r[len(s)+i], tmp[i])
		}
		return r
	}
	esz := int64(8)
	var zt types.Type
	if call != nil {
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		esz = gosizes.Sizeof(et)
		zt = et
	}
	c := growCap(cap(s), len(s), n, int(esz))
	r := make(Slice, c)
	copy(r, s)
	// aggregates must not be shared between old and new backing arrays
	if len(s) > 0 && isAgg(s[0]) {
		for i := range s {
			r[i] = copyVal(s[i])
		}
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	if c > n {
		var z Value
		if zt != nil {
			z = zero(zt)
		} else {
			z = zeroLike(add[0])
		}
		for i := n; i < c; i++ {
			r[i] = copyVal(z)
		}
	}
	return r[:n]
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case uint64:
		return uint64(0)
	case *Term:
		if v.w == 0 {
			return false
		}
		if v.fp {
			return float64(0)
		}
		return uint64(0)
	case bool:
		return false
	case string, *SymStr, *ViewStr:
		return ""
	case Iface:
		return Iface{}
	case *Value:
		return (*Value)(nil)
	}
	return nil
}

var gosizes = types.SizesFor("gc", "amd64")

// growCap mirrors runtime.growslice (including size classes).
func growCap(oldCap, oldLen, newLen, esz int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = double
		} else {
			for uint(newcap) < uint(newLen) {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	if esz == 0 {
		return newcap
	}
	mem := newcap * esz
	for _, c := range sizeClasses {
		if mem <= c {
			return c / esz
		}
	}
	mem = (mem + 8191) &^ 8191
	return mem / esz
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func (m *M) doRecover(caller *frame) Value {
	// caller is the deferred function's frame; its caller is the panicking frame
	if caller != nil && caller.caller != nil {
		p := caller.caller
		if p.panicking {
			tp, ok := p.panicVal.(targetPanic)
			if ok {
				p.panicking = false
				p.panicVal = nil
				return tp.v
			}
		}
	}
	return Iface{}
}

// ---------------------------------------------------------------- globals and initialisation

func (m *M) global(i int) Value {
	for len(m.globals) <= i {
		m.globals = append(m.globals, nil)
	}
	if p := m.globals[i]; p != nil {
		return p
	}
	g := m.P.globalAt(i)
	m.ensureInit(g.Pkg, g)
	if p := m.globals[i]; p != nil {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	if g.Name() == "ErrClosed" && g.Pkg != nil && g.Pkg.Pkg.Path() == "net" {
		if tp := m.P.tpkgs["internal/poll"]; tp != nil { // package net is not initialised
			if o := tp.Types.Scope().Lookup("errNetClosing"); o != nil {
				*p = Iface{canon(o.Type()), zero(o.Type().Underlying())}
			}
		}
	}
	for len(m.globals) <= i {
		m.globals = append(m.globals, nil)
	}
	m.globals[i] = p
	return p
}

func (m *M) ensureInit(pkg *ssa.Package, g *ssa.Global) {
	if pkg == nil || m.inited[pkg] != 0 {
		return
	}
	path := pkg.Pkg.Path()
	if skipInit(path) {
		m.inited[pkg] = 3
		return
	}
	m.initPkg(pkg)
}

func (m *M) initImport(pkg *ssa.Package) {
	if m.inited[pkg] != 0 || !eagerInit(pkg.Pkg.Path()) {
		return
	}
	m.initPkg(pkg)
}

// initPkg runs a package initialiser outside the undo trail.
func (m *M) initPkg(pkg *ssa.Package) {
	m.inited[pkg] = 1
	f := pkg.Func("init")
	if f == nil {
		return
	}
	pkg.Build()
	savedTrail, savedCur, savedConc, savedMem := m.trailOn, m.cur, m.conc, m.memPre
	savedPre := m.steps
	m.trailOn, m.conc, m.memPre = false, false, false
	m.initDep++
	g := &G{id: -1, m: m}
	defer func() {
		m.trailOn, m.cur, m.conc, m.memPre = savedTrail, savedCur, savedConc, savedMem
		m.steps = savedPre
		m.initDep--
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathAbort:
				if x.kind != "unsupported" && x.kind != "bound" {
					panic(r)
				}
				m.warnf("init of %s incomplete: %s", pkg.Pkg.Path(), x.msg)
			case targetPanic:
				m.warnf("init of %s panicked: %s", pkg.Pkg.Path(), m.show(x.v, 0))
			default:
				panic(r)
			}
			m.inited[pkg] = 3
		}
	}()
	fi := m.P.info(f)
	if !fi.built {
		return
	}
	fr := &frame{fi: fi, m: m, g: g, regs: make([]Value, fi.nslots)}
	fr.dstack = &fr.defers
	fr.tolerant = true
	fr.run()
	m.inited[pkg] = 2
}

func (m *M) warnf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if !m.warn[s] {
		m.warn[s] = true
	}
}

var pathCount atomic.Int64
