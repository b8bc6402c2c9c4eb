package main

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var dumpQ io.Writer

type work struct {
	prefix []dec
	model  map[string]uint64
}

type candidate struct {
	Harness string              `json:"harness"`
	Kind    string              `json:"kind"` // assert | finding | panic | deadlock | fatal | livelock
	ID      string              `json:"id,omitempty"`
	Msg     string              `json:"msg"`
	Inputs  map[string][]string `json:"inputs"`
	Sched   []int               `json:"sched,omitempty"`
	Trace   []string            `json:"trace,omitempty"`
	Conc    bool                `json:"conc,omitempty"`
}

// Explorer explores all paths of one harness with several workers.
type Explorer struct {
	P        *Prog
	fn       *ssa.Function
	name     string
	maxSteps int
	deadline time.Time
	started  bool
	timeUp   bool // the last run ended at the deadline: it can go on
	maxPaths int
	nwork    int
	machines []*M

	mu    sync.Mutex
	cond  *sync.Cond
	queue []*work
	busy  int
	stop  atomic.Bool

	paths      int
	completed  int
	aborted    map[string]int // kind: msg -> count
	assumeEnd  int
	infeasible int
	asserts    int
	discharged int // assertions decided by a solver query or concretely
	unknown    int
	decisions  int
	steps      int
	reached    map[string]int
	cands      map[string][]*candidate
	ncand      int
	samples    []*candidate // path models for native validation
	fallback   []*candidate // models of aborted paths
	maxSample  int
	seen       int
	left       int
	warns      map[string]bool
	covered    map[string]bool
	rng        uint64
}

func newExplorer(P *Prog, fn *ssa.Function, nwork int, machines []*M) *Explorer {
	e := &Explorer{P: P, fn: fn, name: fn.Name(), nwork: nwork, maxSteps: 60_000_000, maxPaths: 2_000_000,
		aborted: map[string]int{}, reached: map[string]int{}, cands: map[string][]*candidate{}, machines: machines,
		maxSample: 24, warns: map[string]bool{}, covered: map[string]bool{}, rng: 88172645463325252}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) stopped() bool { return e.stop.Load() }

func newMachine(P *Prog, id int, timeoutMs int) *M {
	m := &M{P: P, id: id, inited: map[*ssa.Package]int{}, side: map[*Value]any{}, warn: map[string]bool{}}
	m.c = newTCtx()
	m.s = newSolver(m.c, timeoutMs)
	return m
}

func (m *M) resetTerms() {
	old := m.s
	m.c = newTCtx()
	m.s = newSolver(m.c, old.timeout)
	m.s.cmd, m.s.in, m.s.out, m.s.inC = old.cmd, old.in, old.out, old.inC
	m.s.queries, m.s.nSat, m.s.nUnsat, m.s.nUnknown, m.s.hits = old.queries, old.nSat, old.nUnsat, old.nUnknown, old.hits
	m.s.dur, m.s.errs, m.s.lastErr = old.dur, old.errs, old.lastErr
}

func (e *Explorer) run() {
	if !e.started {
		e.queue = []*work{{}}
		e.started = true
	}
	e.timeUp = false
	e.stop.Store(false)
	timer := time.AfterFunc(time.Until(e.deadline), func() {
		e.mu.Lock()
		if !e.stop.Load() {
			e.timeUp = true
		}
		e.mu.Unlock()
		e.stop.Store(true)
		e.cond.Broadcast()
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	for i := 0; i < e.nwork; i++ {
		wg.Add(1)
		go func(m *M) {
			defer wg.Done()
			e.worker(m)
		}(e.machines[i])
	}
	wg.Wait()
	e.left = len(e.queue)
}

func (e *Explorer) worker(m *M) {
	m.ex = e
	// initialise the packages of the code under test once per machine
	m.initRepo()
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.busy > 0 && !e.stopped() {
			e.cond.Wait()
		}
		if e.stopped() || len(e.queue) == 0 {
			e.mu.Unlock()
			e.cond.Broadcast()
			for w := range m.warn {
				e.mu.Lock()
				e.warns[w] = true
				e.mu.Unlock()
			}
			return
		}
		w := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.busy++
		e.mu.Unlock()
		alts := m.runPath(w)
		_ = alts
		e.mu.Lock()
		e.busy--
		if e.busy == 0 || len(e.queue) > 0 {
			e.cond.Broadcast()
		}
		e.paths++
		if e.paths >= e.maxPaths {
			e.stop.Store(true)
			e.cond.Broadcast()
		}
		e.mu.Unlock()
		if m.c.n > 1_500_000 {
			m.resetTerms()
		}
	}
}

func (e *Explorer) push(w *work) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.cond.Signal()
	e.mu.Unlock()
}

// initRepo runs initialisers of the eager packages (dependencies first, by the init chain of the harness package).
func (m *M) initRepo() {
	pkg := m.ex.fn.Pkg
	if m.inited[pkg] == 0 {
		m.initPkg(pkg)
	}
}

func (m *M) runPath(w *work) int {
	e := m.ex
	m.pc, m.pcSet = m.pc[:0], map[*Term]bool{}
	m.prefix, m.pos, m.decs = w.prefix, 0, append([]dec{}, w.prefix...)
	m.decs = m.decs[:0]
	m.steps = 0
	m.inputs = nil
	m.occ = map[string]int{}
	m.nFresh = map[string]int{}
	m.reached = map[string]bool{}
	m.asserts = 0
	m.trace = nil
	m.mapOrder, m.conc, m.memPre, m.poolMiss, m.nondet, m.addrs = false, false, false, false, false, nil
	m.race = nil
	m.preempts, m.preemptMx = 0, 0
	m.vnow, m.vnowUnk, m.vnowLater = 0, false, false
	m.env = nil
	m.timers, m.timerSeq = nil, 0
	m.nowFn = nil
	m.pendAbort = nil
	m.spin = 0
	m.unkOnPth = false
	m.digits, m.digEnts, m.uf, m.ftext, m.defs = nil, nil, nil, nil, nil
	m.covered = map[*finfo]bool{}
	for i := range m.c.model {
		m.c.model[i] = m.c.vars[i].t.umin
	}
	for n, v := range w.model {
		if t, ok := m.c.byName[n]; ok {
			m.setModel(int(t.k), v)
		}
	}
	m.modelIn = w.model
	m.c.newModel()
	m.modelChecked = len(w.prefix) == 0

	g0 := &G{id: 0, m: m, wake: make(chan struct{}), started: true}
	m.gs = []*G{g0}
	m.cur = g0
	m.trailOn = true

	kind, msg := "done", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathAbort:
				kind, msg = x.kind, x.msg
			case targetPanic:
				kind, msg = "panic", m.panicText(x.v)
			case runtime.Error:
				kind = "unsupported"
				st := string(debug.Stack())
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintln(os.Stderr, x.Error(), st)
				}
				msg = "engine: " + x.Error() + " at " + engineFrame(st)
			default:
				kind = "unsupported"
				st := string(debug.Stack())
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintln(os.Stderr, x, st)
				}
				msg = fmt.Sprint("engine: ", x, " at ", engineFrame(st))
			}
		}()
		m.call(g0, nil, &Func{fn: e.fn}, nil)
		m.ensureModel()
	}()
	if kind == "done" && m.leakCheck {
		// nothing
	}
	var cand *candidate
	switch kind {
	case "panic", "deadlock", "fatal", "livelock", "race":
		if m.modelOK() {
			cand = m.candidate(kind, "", kind+": "+msg)
		} else {
			kind, msg = "unsupported", "no model for "+kind+": "+msg
		}
	}
	var sample *candidate
	if kind == "done" && m.modelOK() {
		sample = m.candidate("sample", "", "")
	}
	var fb *candidate
	if kind == "unsupported" || kind == "bound" {
		if m.modelOK() {
			fb = m.candidate("fallback", "", kind+": "+msg)
		}
	}
	var resume map[string]uint64
	if kind == "time" {
		resume = m.snapshot()
	}
	m.killAll()
	m.trailOn = false
	m.rollback()

	e.mu.Lock()
	defer e.mu.Unlock()
	e.steps += m.steps
	e.decisions += len(m.decs)
	e.asserts += m.asserts
	for fi := range m.covered {
		e.covered[fi.name] = true
	}
	switch kind {
	case "done":
		e.completed++
		for l := range m.reached {
			e.reached[l]++
		}
		e.seen++
		// reservoir sample
		if len(e.samples) < e.maxSample {
			e.samples = append(e.samples, sample)
		} else {
			e.rng ^= e.rng << 13
			e.rng ^= e.rng >> 7
			e.rng ^= e.rng << 17
			if j := int(e.rng % uint64(e.seen)); j < e.maxSample {
				e.samples[j] = sample
			}
		}
	case "assume":
		e.assumeEnd++
	case "assertfail":
		e.completed++
		for l := range m.reached {
			e.reached[l]++
		}
	case "infeasible":
		e.infeasible++
	case "time":
		// to go on from here, if there is time later
		if m.pos < len(m.prefix) {
			e.queue = append(e.queue, w)
		} else {
			e.queue = append(e.queue, &work{append([]dec(nil), m.decs...), resume})
		}
	default:
		if cand != nil {
			e.completed++
			e.addCand(cand)
		} else {
			if len(msg) > 160 {
				msg = msg[:160]
			}
			e.aborted[kind+": "+msg]++
			if fb != nil && len(e.fallback) < 40 {
				e.fallback = append(e.fallback, fb)
			}
		}
	}
	return 0
}

func engineFrame(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/engine/") || strings.Contains(l, "gosym/") {
			i := strings.LastIndex(l, "/")
			l = l[i+1:]
			if j := strings.Index(l, " "); j > 0 {
				l = l[:j]
			}
			if strings.HasPrefix(l, "explore.go") {
				continue
			}
			out = append(out, l)
			if len(out) >= 4 {
				break
			}
		}
	}
	return strings.Join(out, "<")
}

func (m *M) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	s := ""
	func() {
		defer func() { recover() }()
		g := m.gs[0]
		if m.P.methodByName(i.t, "Error") != nil && strings.Contains(i.t.String(), "errorString") && strings.HasPrefix(i.t.String(), "runtime.") {
			s = "runtime error: " + m.show(i.v, 0)
			return
		}
		if r, ok := m.callMethod(g, i, "Error"); ok {
			s = m.show(r, 0)
		}
	}()
	if s == "" {
		s = m.show(v, 0)
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func (e *Explorer) addCand(c *candidate) {
	k := c.Kind + "|" + c.ID + "|" + c.Msg
	l := e.cands[k]
	if len(l) < 6 {
		e.cands[k] = append(l, c)
	}
	if c.Kind != "finding" {
		e.ncand++
		if e.ncand >= 40 {
			e.stop.Store(true)
			e.cond.Broadcast()
		}
	}
}

func (m *M) report(kind, id, msg string) {
	c := m.candidate(kind, id, msg)
	m.ex.mu.Lock()
	m.ex.addCand(c)
	m.ex.mu.Unlock()
}

// candidate captures the inputs of the current path under the current model.
func (m *M) candidate(kind, id, msg string) *candidate {
	c := &candidate{Harness: m.ex.name, Kind: kind, ID: id, Msg: msg, Inputs: map[string][]string{}, Conc: m.conc || m.race != nil || m.nondet}
	for _, in := range m.inputs {
		var s string
		if in.kind == "s" {
			b := make([]byte, len(in.vals))
			for i, v := range in.vals {
				b[i] = byte(m.evalV(v))
			}
			s = fmt.Sprintf("%x", b)
		} else {
			s = strconv.FormatUint(m.evalV(in.vals[0]), 10)
		}
		c.Inputs[in.label] = append(c.Inputs[in.label], s)
	}
	for _, t := range m.trace {
		c.Trace = append(c.Trace, t.label+"="+m.traceVal(t.v))
	}
	return c
}

func (m *M) traceVal(v Value) string {
	switch v := v.(type) {
	case string, *SymStr, *ViewStr:
		return m.show(v, 0)
	case bool:
		return strconv.FormatBool(v)
	case *Term:
		if v.w == 0 {
			return strconv.FormatBool(m.c.Eval(v) != 0)
		}
		return strconv.FormatUint(m.c.Eval(v), 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	}
	return m.show(v, 0)
}

// ---------------------------------------------------------------- decisions

func (m *M) setModel(i int, v uint64) {
	for len(m.c.model) <= i {
		k := len(m.c.model)
		d := uint64(0)
		if k < len(m.c.vars) {
			d = m.c.vars[k].t.umin
		}
		m.c.model = append(m.c.model, d)
	}
	m.c.model[i] = v
}

// newVar registers a variable and gives it its model value.
func (m *M) newVar(name string, w uint8, fp bool) *Term {
	t := m.c.Var(name, w, fp)
	if v, ok := m.modelIn[name]; ok {
		m.setModel(int(t.k), v)
	} else if int(t.k) >= len(m.c.model) {
		m.setModel(int(t.k), t.umin)
	}
	return t
}

func (m *M) snapshot() map[string]uint64 {
	r := make(map[string]uint64, 16)
	for i, v := range m.c.model {
		if v != m.c.vars[i].t.umin {
			r[m.c.vars[i].name] = v
		}
	}
	return r
}

// ensureModel makes the current model satisfy the path condition (after prefix replay).
func (m *M) ensureModel() {
	if m.modelChecked {
		return
	}
	m.modelChecked = true
	m.fixDefs()
	if m.modelOK() {
		return
	}
	r, mod := m.s.Check(m.pc, m.defs, m.pc...)
	switch r {
	case Sat:
		m.applyModel(mod)
		if !m.modelOK() {
			panic(pathAbort{"unsupported", "model does not evaluate the path condition to true"})
		}
	case Unsat:
		panic(pathAbort{"infeasible", ""})
	default:
		m.ex.noteUnknown()
		panic(pathAbort{"bound", "solver gave no answer for a path prefix"})
	}
}

func (e *Explorer) noteUnknown() {
	e.mu.Lock()
	e.unknown++
	e.mu.Unlock()
}

func (m *M) modelOK() bool {
	for _, t := range m.pc {
		if m.c.Eval(t) == 0 {
			return false
		}
	}
	for _, d := range m.defs {
		for _, t := range d.facts {
			if m.c.Eval(t) == 0 {
				return false
			}
		}
	}
	return true
}

func (m *M) applyModel(mod map[int]uint64) {
	for i, v := range mod {
		m.setModel(i, v)
	}
	m.c.newModel()
	m.fixDefs()
}

// defn is a conservative definition of fresh variables by a term: for every value of the term the
// facts have a solution, computed by fix. It is sent to the solver only when a defined variable is
// involved in the query.
type defn struct {
	vars  []uint64 // bit set of the defined variables
	facts []*Term
	fix   func()
}

func (m *M) fixDefs() {
	for _, d := range m.defs {
		d.fix()
		m.c.newModel()
	}
}

func (m *M) addDef(outs []*Term, facts []*Term, fix func()) {
	d := &defn{facts: facts, fix: fix}
	for _, o := range outs {
		for i, v := range o.vars {
			for len(d.vars) <= i {
				d.vars = append(d.vars, 0)
			}
			d.vars[i] |= v
		}
	}
	m.defs = append(m.defs, d)
	if m.modelChecked {
		fix()
		m.c.newModel()
	}
}

func (m *M) addPC(t *Term) {
	if t.isConst() || m.pcSet[t] {
		return
	}
	if t.op == OBAnd {
		m.pcSet[t] = true
		m.addPC(t.a)
		m.addPC(t.b)
		return
	}
	m.pcSet[t] = true
	m.pc = append(m.pc, t)
}

func (m *M) decide(d dec) { m.decs = append(m.decs, d) }

func (m *M) fork(d dec, mod map[int]uint64) {
	p := make([]dec, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = d
	saved := m.snapshot()
	for i, v := range mod {
		saved[m.c.vars[i].name] = v
	}
	m.ex.push(&work{p, saved})
}

// branch decides a condition, forking when both sides are feasible.
func (m *M) branch(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	t := v.(*Term)
	if t.isConst() {
		return t.k == 1
	}
	if m.pcSet[t] {
		return true
	}
	nt := m.c.Not(t)
	if m.pcSet[nt] {
		return false
	}
	if m.initDep > 0 {
		unsupported("symbolic condition during initialisation")
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.k > 1 {
			panic(pathAbort{"unsupported", "engine: decision log out of step"})
		}
		m.decide(d)
		c := t
		if d.v == 0 {
			c = nt
		}
		if d.k == 1 {
			m.pcSet[c] = true
		} else {
			m.addPC(c)
		}
		return d.v == 1
	}
	m.ensureModel()
	if m.ex.stopped() {
		panic(pathAbort{"time", "time budget"})
	}
	if len(m.decs) > 20000 {
		panic(pathAbort{"bound", "decision limit"})
	}
	cur := m.c.Eval(t) != 0
	c, o := t, nt
	if !cur {
		c, o = nt, t
	}
	r, mod := m.s.Check(m.pc, m.defs, o)
	switch r {
	case Unsat:
		m.decide(dec{1, b2u(cur)})
		m.pcSet[c] = true
		return cur
	case Sat:
		m.fork(dec{0, b2u(!cur)}, mod)
	default:
		m.ex.noteUnknown()
	}
	m.decide(dec{0, b2u(cur)})
	m.addPC(c)
	return cur
}

// concretize enumerates the feasible values of t, one per path.
func (m *M) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	for n := 0; ; n++ {
		if n > 5000 {
			panic(pathAbort{"bound", "more than 5000 values for one concretised term"})
		}
		var v uint64
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			if d.k != 2 {
				panic(pathAbort{"unsupported", "engine: decision log out of step"})
			}
			v = d.v
			m.decide(d)
		} else {
			m.ensureModel()
			v = m.c.Eval(t)
			m.decide(dec{2, v})
		}
		if m.branch(fromTerm(m.c.Eq(t, m.c.Const(t.w, v)))) {
			return v
		}
	}
}

// choose is an n-way choice represented by a fresh symbolic variable.
func (m *M) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if m.initDep > 0 {
		return 0
	}
	k := m.nFresh["#"+label]
	m.nFresh["#"+label]++
	name := fmt.Sprintf("#%s#%d<%d", label, k, n)
	_, had := m.c.byName[name]
	t := m.c.Var(name, 16, false)
	if !had {
		m.c.setURange(t, 0, uint64(n-1))
	}
	return m.chooseVar(t, n)
}

func (m *M) chooseVar(t *Term, n int) int {
	pick := func(v uint64) int {
		m.setModel(int(t.k), v)
		m.c.newModel()
		m.addPC(m.c.Eq(t, m.c.Const(t.w, v)))
		return int(v)
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.k != 3 {
			panic(pathAbort{"unsupported", "engine: decision log out of step"})
		}
		m.decide(d)
		return pick(d.v)
	}
	m.ensureModel()
	if m.ex.stopped() {
		panic(pathAbort{"time", "time budget"})
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(dec{3, uint64(i)}, map[int]uint64{int(t.k): uint64(i)})
	}
	m.decide(dec{3, 0})
	return pick(0)
}

func (m *M) assume(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(pathAbort{kind: "assume"})
		}
		return
	}
	t := v.(*Term)
	if m.pcSet[t] {
		return
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decide(d)
		m.addPC(t)
		return
	}
	m.ensureModel()
	if m.c.Eval(t) == 0 {
		r, mod := m.s.Check(m.pc, m.defs, t)
		switch r {
		case Unsat:
			panic(pathAbort{kind: "assume"})
		case Unknown:
			m.ex.noteUnknown()
			panic(pathAbort{"bound", "solver gave no answer for an assumption"})
		}
		m.applyModel(mod)
	}
	m.decide(dec{0, 1})
	m.addPC(t)
}

// assert decides an assertion on this path.
func (m *M) assert(v Value, kind, id, msg string) {
	m.asserts++
	m.reached["assert"] = true
	if b, ok := v.(bool); ok {
		if !b {
			m.ensureModel()
			m.report(kind, id, msg)
			if kind == "finding" {
				return
			}
			panic(pathAbort{kind: "assertfail"})
		}
		return
	}
	t := v.(*Term)
	if m.pcSet[t] {
		return
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decide(d)
		if d.k == 1 {
			m.pcSet[t] = true
		} else if d.v == 1 {
			m.addPC(t)
		}
		return
	}
	m.ensureModel()
	nt := m.c.Not(t)
	if m.c.Eval(t) == 0 {
		m.report(kind, id, msg)
		// continue where it holds
		r, mod := m.s.Check(m.pc, m.defs, t)
		if r != Sat {
			if kind == "finding" {
				m.decide(dec{0, 0})
				return
			}
			panic(pathAbort{kind: "assertfail"})
		}
		m.applyModel(mod)
		m.decide(dec{0, 1})
		m.addPC(t)
		return
	}
	r, mod := m.s.Check(m.pc, m.defs, nt)
	switch r {
	case Unsat:
		m.decide(dec{1, 1})
		m.pcSet[t] = true
		return
	case Unknown:
		m.ex.noteUnknown()
		m.ex.mu.Lock()
		m.ex.aborted["assertion undecided: "+msg]++
		m.ex.mu.Unlock()
		m.decide(dec{0, 1})
		m.addPC(t)
		return
	}
	saved := append([]uint64{}, m.c.model...)
	m.applyModel(mod)
	m.report(kind, id, msg)
	m.c.model = saved
	m.c.newModel()
	m.decide(dec{0, 1})
	m.addPC(t)
}

func sortedKeys[V any](mp map[string]V) []string {
	r := make([]string, 0, len(mp))
	for k := range mp {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
