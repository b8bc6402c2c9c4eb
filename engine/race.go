package main

import (
	"go/types"
	"path/filepath"
	"strings"
)

// Happens-before data race detection (zzsym.Races): two accesses of one memory cell or map by different goroutines, at
// least one of them a write, that no synchronisation orders. Only accesses made by the code under test (not by harness code) and by
// the string and buffer packages it uses are looked at. Orderings are over-approximated (a channel orders all its users), so that
// a report is a race of that execution; every report is replayed natively under the race detector.

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vjoin(a, b vclock) vclock {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(vclock, n)
	for i := range r {
		r[i] = max(a.at(i), b.at(i))
	}
	return r
}

type acc struct {
	g    int
	c    uint32
	name string
}

type shadow struct {
	w acc
	r []acc
}

type raceState struct {
	cells map[any]*shadow
	objs  map[any]vclock
}

func (m *M) raceOn() {
	if m.race == nil {
		m.race = &raceState{cells: map[any]*shadow{}, objs: map[any]vclock{}}
		for _, g := range m.gs {
			g.tick()
		}
	}
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	v := append(vclock{}, g.vc...)
	v[g.id]++
	g.vc = v
}

// acq: what was released on key happens before what g does next.
func (m *M) acq(g *G, key any) {
	if m.race == nil || g == nil || g.id < 0 {
		return
	}
	if v, ok := m.race.objs[key]; ok {
		g.vc = vjoin(g.vc, v)
	}
}

// rel: what g did happens before what is acquired on key later.
func (m *M) rel(g *G, key any) {
	if m.race == nil || g == nil || g.id < 0 {
		return
	}
	m.race.objs[key] = vjoin(m.race.objs[key], g.vc)
	g.tick()
}

func (m *M) syn(g *G, key any) { m.acq(g, key); m.rel(g, key) }

func (m *M) raceSpawn(g, ng *G) {
	if m.race == nil {
		return
	}
	if g != nil && g.id >= 0 {
		ng.vc = append(vclock{}, g.vc...)
		g.tick()
	}
	ng.tick()
}

type rwKey struct{ p *Value }

// access records one access of a cell.
func (m *M) access(g *G, key any, write bool, name string) {
	s := m.race.cells[key]
	if s == nil {
		s = &shadow{w: acc{g: -1}}
		m.race.cells[key] = s
	}
	before := func(a acc) bool { return a.g < 0 || a.g == g.id || a.c <= g.vc.at(a.g) }
	if !before(s.w) {
		m.raceFound(s.w.name+" (write)", name, write)
	}
	me := acc{g.id, g.vc.at(g.id), name}
	if write {
		for _, r := range s.r {
			if !before(r) {
				m.raceFound(r.name+" (read)", name, write)
			}
		}
		s.w, s.r = me, nil
		return
	}
	for i := range s.r {
		if s.r[i].g == g.id {
			s.r[i] = me
			return
		}
	}
	s.r = append(s.r, me)
}

func (m *M) raceFound(a, b string, write bool) {
	k := " (read)"
	if write {
		k = " (write)"
	}
	panic(pathAbort{"race", "unsynchronised access: " + a + " / " + b + k})
}

// accessV records an access of every cell of the value p points to.
func (m *M) accessV(g *G, p *Value, write bool, name string) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			m.accessV(g, &x[i], write, name)
		}
	case Array:
		for i := range x {
			m.accessV(g, &x[i], write, name)
		}
	default:
		m.access(g, p, write, name)
	}
}

func (fr *frame) racePoint(pv Value, write bool) {
	m := fr.m
	if len(m.gs) < 2 || fr.g.id < 0 || !fr.fi.tracked {
		return
	}
	switch p := pv.(type) {
	case *Value:
		if p != nil {
			m.accessV(fr.g, p, write, fr.fi.name)
		}
	case *Map:
		if p != nil {
			m.access(fr.g, p, write, fr.fi.name)
		}
	case Slice:
		for i := range p {
			m.accessV(fr.g, &p[i], write, fr.fi.name)
		}
	}
}

// tracked tells whether the accesses of a function are looked at.
func (P *Prog) isTracked(fi *finfo) bool {
	if fi.pkg == nil {
		return false
	}
	p := fi.pkg.Pkg.Path()
	if p == "strings" || p == "bytes" {
		return true
	}
	if !fi.repo || strings.Contains(p, "/internal/zz") {
		return false
	}
	fn := fi.fn
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pos().IsValid() {
		return !strings.HasPrefix(filepath.Base(fn.Prog.Fset.Position(fn.Pos()).Filename), "zz_")
	}
	return true
}

func raceBuiltin(fr *frame, name string, args []Value, t types.Type) {
	switch name {
	case "copy":
		d := args[0].(Slice)
		n := len(d)
		if s, ok := args[1].(Slice); ok {
			n = min(n, len(s))
			fr.racePoint(s[:n], false)
		} else {
			n = min(n, strLen(args[1]))
		}
		fr.racePoint(d[:n], true)
	case "append":
		s := args[0].(Slice)
		n := 0
		if a, ok := args[1].(Slice); ok {
			fr.racePoint(a, false)
			n = len(a)
		} else {
			n = strLen(args[1])
		}
		if len(s)+n <= cap(s) {
			fr.racePoint(s[len(s):len(s)+n], true)
		} else {
			fr.racePoint(s, false)
		}
	case "delete", "clear":
		fr.racePoint(args[0], true)
	case "len":
		if mp, ok := args[0].(*Map); ok {
			fr.racePoint(mp, false)
		}
	}
}
