package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// G is a goroutine of the program under test; at most one runs at a time (baton passing).
type G struct {
	id          int
	m           *M
	depth       int
	wake        chan struct{}
	ready       func() bool // nil: runnable
	done        bool
	started     bool
	run         func()
	exited      chan struct{}
	callerFrame *frame
	where       string
	vc          vclock
}

type sudog struct {
	g    *G
	val  Value
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
	val   Value
	ok    bool
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*sudog
	sendq  []*sudog
}

type timerS struct {
	when   int64
	seq    int
	period int64
	active bool
	fire   func(g *G)
	ch     *Chan
}

func (m *M) newChan(n int) *Chan { return &Chan{cap: n} }

func (m *M) save(c *Chan) {
	if !m.trailOn {
		return
	}
	old := *c
	m.undo(func() { *c = old })
}

func (m *M) spawn(g *G, fv Value, args []Value, call *ssa.CallCommon) *G {
	if m.initDep > 0 {
		unsupported("goroutine started during initialisation")
	}
	ng := &G{id: len(m.gs), m: m, wake: make(chan struct{}), exited: make(chan struct{})}
	m.gs = append(m.gs, ng)
	m.raceSpawn(g, ng)
	ng.run = func() {
		if b, ok := fv.(*ssa.Builtin); ok {
			m.builtin(ng, nil, b, args, call)
			return
		}
		m.call(ng, nil, fv, args)
	}
	if m.conc {
		m.preempt(g)
	}
	return ng
}

// host goroutine body
func (m *M) body(g *G) {
	defer close(g.exited)
	<-g.wake
	if m.killing {
		g.done = true
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if pa, ok := r.(pathAbort); ok && pa.kind == "killed" {
				return
			}
			if m.pendAbort == nil {
				m.pendAbort = r
			}
		}()
		g.run()
	}()
	g.done = true
	if m.killing {
		return
	}
	if m.pendAbort != nil {
		m.resume(m.gs[0])
		return
	}
	n := func() (n *G) {
		defer func() {
			if r := recover(); r != nil {
				if m.pendAbort == nil {
					m.pendAbort = r
				}
				n = m.gs[0]
			}
		}()
		return m.pick(g, true)
	}()
	m.resume(n)
}

func (m *M) resume(g *G) {
	m.cur = g
	if !g.started && g.id != 0 {
		g.started = true
		go m.body(g)
	}
	g.wake <- struct{}{}
}

func (m *M) switchTo(from, to *G) {
	if from == to {
		return
	}
	m.resume(to)
	<-from.wake
	m.cur = from
	m.afterWake(from)
}

func (m *M) afterWake(g *G) {
	if m.killing {
		panic(pathAbort{kind: "killed"})
	}
	if m.pendAbort != nil && g.id == 0 {
		r := m.pendAbort
		m.pendAbort = nil
		panic(r)
	}
}

// killAll ends all other goroutines at the end of a path (called on the main goroutine).
func (m *M) killAll() {
	m.killing = true
	for _, g := range m.gs[1:] {
		if g.started && !g.done {
			g.wake <- struct{}{}
			<-g.exited
		} else if g.started {
			<-g.exited
		}
	}
	m.killing = false
	m.gs = m.gs[:1]
}

func (g *G) isReady() bool { return !g.done && (g.ready == nil || g.ready()) }

// pick chooses the next goroutine to run. cur may continue if it is ready.
func (m *M) pick(cur *G, blocked bool) *G {
	for {
		var rs []*G
		for _, g := range m.gs {
			if g.isReady() {
				rs = append(rs, g)
			}
		}
		if len(rs) == 0 {
			if m.fireTimer(true) {
				for m.conc && m.fireTimer(false) {
					// timers of one moment: what they wake runs in any order
				}
				continue
			}
			w := ""
			for _, g := range m.gs {
				if !g.done {
					w += fmt.Sprintf(" g%d@%s", g.id, g.where)
				}
			}
			panic(pathAbort{"deadlock", "all goroutines are asleep - deadlock!" + w})
		}
		if len(rs) == 1 {
			return rs[0]
		}
		if m.conc {
			return rs[m.choose("sched", len(rs))]
		}
		// round robin after cur
		for _, g := range rs {
			if g.id > cur.id {
				return g
			}
		}
		return rs[0]
	}
}

// block parks g until ready() holds.
func (m *M) block(g *G, where string, ready func() bool) {
	if m.initDep > 0 {
		if ready() {
			return
		}
		unsupported("blocking during initialisation")
	}
	g.where = where
	g.ready = ready
	n := m.pick(g, true)
	m.switchTo(g, n)
	g.ready = nil
	m.spin = 0
}

// yield lets other goroutines run (deterministic mode: round robin).
func (m *M) yield(g *G) {
	if m.initDep > 0 || len(m.gs) < 2 {
		return
	}
	g.ready = nil
	n := m.pick(g, false)
	m.switchTo(g, n)
}

// preempt is a possible scheduling point in concurrent mode.
func (m *M) preempt(g *G) {
	if !m.conc || m.initDep > 0 || len(m.gs) < 2 {
		return
	}
	if m.preempts >= m.preemptMx {
		return
	}
	var rs []*G
	for _, x := range m.gs {
		if x != g && x.isReady() {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return
	}
	k := m.choose("preempt", len(rs)+1)
	if k == 0 {
		return
	}
	m.preempts++
	g.ready = nil
	m.switchTo(g, rs[k-1])
}

func (m *M) memPoint(g *G, p Value) {
	if !m.conc || len(m.gs) < 2 {
		return
	}
	if v, ok := p.(*Value); ok {
		if sh, _ := m.side[v].(sharedMark); sh {
			m.preempt(g)
		}
	}
}

type sharedMark bool

// markShared marks every field of the object p points to as shared (preemption point on access).
func (m *M) markShared(p *Value, depth int) {
	if p == nil || depth > 3 {
		return
	}
	if _, ok := m.side[p]; !ok {
		m.sideSet(p, sharedMark(true))
	}
	switch s := (*p).(type) {
	case Struct:
		for i := range s {
			m.markShared(&s[i], depth+1)
		}
	case Array:
		for i := range s {
			m.markShared(&s[i], depth+1)
		}
	}
}

// ---------------------------------------------------------------- channels

func popWaiter(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		s := (*q)[0]
		*q = (*q)[1:]
		if s.done || (s.sel != nil && s.sel.fired) || s.g.done {
			continue
		}
		return s
	}
	return nil
}

func (c *Chan) hasWaiter(q []*sudog) bool {
	for _, s := range q {
		if !(s.done || (s.sel != nil && s.sel.fired) || s.g.done) {
			return true
		}
	}
	return false
}

func (s *sudog) finish(v Value, ok bool) {
	s.done = true
	s.val, s.ok = v, ok
	if s.sel != nil {
		s.sel.fired = true
		s.sel.idx = s.idx
		s.sel.val, s.sel.ok = v, ok
	}
}

func (m *M) trySend(c *Chan, v Value) bool {
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	m.save(c)
	if r := popWaiter(&c.recvq); r != nil {
		r.finish(v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		return true
	}
	return false
}

func (m *M) tryRecv(c *Chan) (v Value, ok, done bool) {
	m.save(c)
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if s := popWaiter(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			s.finish(nil, true)
		}
		return v, true, true
	}
	if s := popWaiter(&c.sendq); s != nil {
		v = s.val
		s.finish(nil, true)
		return v, true, true
	}
	if c.closed {
		m.spin++
		return nil, false, true
	}
	return nil, false, false
}

func (m *M) chanSend(g *G, c *Chan, v Value) {
	m.preempt(g)
	m.syn(g, c)
	if c == nil {
		m.block(g, "nil chan send", func() bool { return false })
	}
	if m.trySend(c, v) {
		return
	}
	s := &sudog{g: g, val: v}
	m.save(c)
	c.sendq = append(c.sendq[:len(c.sendq):len(c.sendq)], s)
	m.block(g, "chan send", func() bool { return s.done || c.closed })
	m.acq(g, c)
	if !s.done {
		m.rtPanic("send on closed channel")
	}
}

func (m *M) chanRecv(g *G, c *Chan) (Value, bool) {
	m.preempt(g)
	if c == nil {
		m.block(g, "nil chan receive", func() bool { return false })
	}
	m.rel(g, c)
	v, ok, done := m.tryRecv(c)
	if done {
		m.acq(g, c)
		m.spinCheck(g)
		return v, ok
	}
	s := &sudog{g: g}
	m.save(c)
	c.recvq = append(c.recvq[:len(c.recvq):len(c.recvq)], s)
	m.block(g, "chan receive", func() bool { return s.done || c.closed })
	m.acq(g, c)
	if s.done {
		return s.val, s.ok
	}
	return nil, false
}

// spinCheck: a goroutine that keeps receiving from closed channels never blocks; let others run.
func (m *M) spinCheck(g *G) {
	if m.spin > 0 && m.spin%8 == 0 && len(m.gs) > 1 {
		m.yieldSpin(g)
	}
	if m.spin > 400 {
		panic(pathAbort{"livelock", fmt.Sprintf("goroutine %d spins on a closed channel without ever blocking", g.id)})
	}
}

func (m *M) yieldSpin(g *G) {
	sp := m.spin
	var rs []*G
	for _, x := range m.gs {
		if x != g && x.isReady() {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return
	}
	m.switchTo(g, rs[0])
	m.spin = sp
}

func (m *M) chanClose(g *G, c *Chan) {
	m.preempt(g)
	if c == nil {
		m.rtPanic("close of nil channel")
	}
	if c.closed {
		m.rtPanic("close of closed channel")
	}
	m.rel(g, c)
	m.save(c)
	c.closed = true
	for {
		r := popWaiter(&c.recvq)
		if r == nil {
			break
		}
		r.finish(nil, false)
	}
}

func (fr *frame) sel(ci *cins, ins *ssa.Select) Value {
	m, g := fr.m, fr.g
	m.preempt(g)
	type scase struct {
		c    *Chan
		send bool
		v    Value
		et   types.Type
	}
	n := len(ins.States)
	cases := make([]scase, n)
	for i, st := range ins.States {
		cases[i].c = fr.get(&ci.ops[2*i]).(*Chan)
		cases[i].et = st.Chan.Type().Underlying().(*types.Chan).Elem()
		if st.Dir == types.SendOnly {
			cases[i].send = true
			cases[i].v = copyVal(fr.get(&ci.ops[2*i+1]))
		}
	}
	result := func(idx int, v Value, ok bool) Value {
		t := Tuple{uint64(int64(idx)), ok}
		for i := range cases {
			if cases[i].send {
				continue
			}
			if i == idx && v != nil {
				t = append(t, v)
			} else {
				t = append(t, zero(cases[i].et))
			}
		}
		return t
	}
	var ready []int
	for i := range cases {
		c := cases[i].c
		if c == nil {
			continue
		}
		if cases[i].send {
			if c.closed || c.hasWaiter(c.recvq) || len(c.buf) < c.cap {
				ready = append(ready, i)
			}
		} else if len(c.buf) > 0 || c.closed || c.hasWaiter(c.sendq) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[m.choose("select", len(ready))]
			m.nondet = true
		}
		m.syn(g, cases[i].c)
		if cases[i].send {
			m.trySend(cases[i].c, cases[i].v)
			return result(i, nil, false)
		}
		v, ok, _ := m.tryRecv(cases[i].c)
		m.spinCheck(g)
		return result(i, v, ok)
	}
	if !ins.Blocking {
		return result(-1, nil, false)
	}
	st := &selState{}
	for i := range cases {
		c := cases[i].c
		if c == nil {
			continue
		}
		m.rel(g, c)
		s := &sudog{g: g, sel: st, idx: i, val: cases[i].v}
		m.save(c)
		if cases[i].send {
			c.sendq = append(c.sendq[:len(c.sendq):len(c.sendq)], s)
		} else {
			c.recvq = append(c.recvq[:len(c.recvq):len(c.recvq)], s)
		}
	}
	closedSend := func() bool {
		for i := range cases {
			if cases[i].send && cases[i].c != nil && cases[i].c.closed {
				return true
			}
		}
		return false
	}
	m.block(g, "select", func() bool { return st.fired || closedSend() })
	if !st.fired {
		m.rtPanic("send on closed channel")
	}
	m.acq(g, cases[st.idx].c)
	if cases[st.idx].send {
		return result(st.idx, nil, false)
	}
	return result(st.idx, st.val, st.ok)
}

// ---------------------------------------------------------------- sync primitives

type muState struct {
	locked  bool
	readers int
	writerW int
}

func (m *M) mu(p *Value) *muState {
	if s, ok := m.side[p].(*muState); ok {
		return s
	}
	s := &muState{}
	m.sideSet(p, s)
	return s
}

func (m *M) saveMu(s *muState) {
	if m.trailOn {
		old := *s
		m.undo(func() { *s = old })
	}
}

func (m *M) lock(g *G, p *Value) {
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.preempt(g)
	s := m.mu(p)
	if s.locked || s.readers > 0 {
		m.block(g, "mutex lock", func() bool { return !s.locked && s.readers == 0 })
	}
	m.saveMu(s)
	s.locked = true
	m.acq(g, p)
	m.acq(g, rwKey{p})
}

func (m *M) unlock(g *G, p *Value) {
	s := m.mu(p)
	if !s.locked {
		panic(pathAbort{"fatal", "sync: unlock of unlocked mutex"})
	}
	m.saveMu(s)
	s.locked = false
	m.rel(g, p)
	m.preempt(g)
}

func (m *M) rlock(g *G, p *Value) {
	m.preempt(g)
	s := m.mu(p)
	if s.locked {
		m.block(g, "rwmutex rlock", func() bool { return !s.locked })
	}
	m.saveMu(s)
	s.readers++
	m.acq(g, p)
}

func (m *M) runlock(g *G, p *Value) {
	s := m.mu(p)
	if s.readers == 0 {
		panic(pathAbort{"fatal", "sync: RUnlock of unlocked RWMutex"})
	}
	m.saveMu(s)
	s.readers--
	m.rel(g, rwKey{p})
	m.preempt(g)
}

// ---------------------------------------------------------------- timers

func (m *M) addTimer(when int64, period int64, fire func(g *G), ch *Chan) *timerS {
	if m.vnowUnk && !m.alone(m.cur) {
		unsupported("timer after a sleep of symbolic length")
	}
	m.timerSeq++
	t := &timerS{when: when, seq: m.timerSeq, period: period, active: true, fire: fire, ch: ch}
	m.timers = append(m.timers, t)
	m.vnowUnk, m.vnowLater = m.vnowUnk || m.vnowLater, false
	m.rel(m.cur, t)
	if ch != nil {
		m.rel(m.cur, ch)
	}
	return t
}

// alone reports that no other goroutine and no timer can run.
func (m *M) alone(g *G) bool {
	for _, x := range m.gs {
		if x != g && !x.done {
			return false
		}
	}
	for _, t := range m.timers {
		if t.active {
			return false
		}
	}
	return true
}

// fireTimer fires the earliest timer, and advances the virtual clock to it if asked to; false if there is none.
func (m *M) fireTimer(advance bool) bool {
	var best *timerS
	for _, t := range m.timers {
		if t.active && (best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	if best == nil || !advance && best.when > m.vnow {
		return false
	}
	if best.when > m.vnow {
		m.vnow = best.when
	}
	if best.period > 0 {
		best.when += best.period
		m.timerSeq++
		best.seq = m.timerSeq
	} else {
		best.active = false
	}
	if best.ch != nil {
		if len(best.ch.buf) == 0 || best.ch.hasWaiter(best.ch.recvq) {
			m.trySend(best.ch, m.virtualNow())
		}
	} else {
		best.fire(m.cur)
	}
	return true
}
