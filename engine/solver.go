package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over a pipe.  Every query is self-contained (reset + declare + assert),
// restricted to the constraints that share variables with the goal.

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	c       *TCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	inC     io.WriteCloser
	gen     int
	timeout int // ms
	cache   map[string]cached
	// stats
	queries  int
	nSat     int
	nUnsat   int
	nUnknown int
	hits     int
	dur      time.Duration
	errs     int
	lastErr  string
	bin      []string
}

type cached struct {
	r Result
	m map[int]uint64
}

func newSolver(c *TCtx, timeoutMs int) *Solver {
	s := &Solver{c: c, timeout: timeoutMs, cache: map[string]cached{}}
	s.bin = []string{"z3-new", "-in", "-smt2"}
	if _, err := exec.LookPath("z3-new"); err != nil {
		s.bin[0] = "z3"
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func overlap(a, b []uint64) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// slicePC returns the conjuncts of pc and the definitions transitively sharing variables with goal.
// A definition whose variables occur neither in pc nor in goal (nor in another such definition)
// has a solution for every value of the rest, and is left out.
func slicePC(pc []*Term, defs []*defn, goal []*Term) []*Term {
	var all, vars []uint64
	add := func(s *[]uint64, t *Term) {
		for len(*s) < len(t.vars) {
			*s = append(*s, 0)
		}
		for i, v := range t.vars {
			(*s)[i] |= v
		}
	}
	cs := append(make([]*Term, 0, len(pc)+len(defs)), pc...)
	if len(defs) > 0 {
		for _, t := range pc {
			add(&all, t)
		}
		for _, t := range goal {
			add(&all, t)
		}
		usedD := make([]bool, len(defs))
		for again := true; again; {
			again = false
			for i, d := range defs {
				if !usedD[i] && overlap(all, d.vars) {
					usedD[i] = true
					again = true
					for _, t := range d.facts {
						cs = append(cs, t)
						add(&all, t)
					}
				}
			}
		}
	}
	for _, g := range goal {
		add(&vars, g)
	}
	used := make([]bool, len(cs))
	var res []*Term
	for again := true; again; {
		again = false
		for i, t := range cs {
			if !used[i] && overlap(vars, t.vars) {
				used[i] = true
				res = append(res, t)
				add(&vars, t)
				again = true
			}
		}
	}
	return res
}

// Check decides satisfiability of pc ∧ goal. On Sat the returned map gives values of the involved variables.
func (s *Solver) Check(pc []*Term, defs []*defn, goal ...*Term) (Result, map[int]uint64) {
	var g []*Term
	for _, t := range goal {
		if t.isConst() {
			if t.k == 0 {
				return Unsat, nil
			}
			continue
		}
		g = append(g, t)
	}
	cs := slicePC(pc, defs, g)
	inG := map[*Term]bool{}
	for _, t := range g {
		inG[t] = true
	}
	for _, t := range cs {
		if t.op == ONot && inG[t.a] {
			return Unsat, nil
		}
		if inG[s.c.Not(t)] {
			return Unsat, nil
		}
	}
	cs = append(cs, g...)
	ids := make([]int, len(cs))
	for i, t := range cs {
		ids[i] = t.id
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			kb.WriteString(strconv.Itoa(i))
			kb.WriteByte(' ')
		}
		last = i
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.hits++
		return r.r, r.m
	}
	r, m := s.query(cs, s.timeout)
	s.cache[key] = cached{r, m}
	return r, m
}

func (s *Solver) query(cs []*Term, timeout int) (Result, map[int]uint64) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	txt, lvars, arith := liaText(cs, timeout)
	res, m := Unknown, map[int]uint64(nil)
	if arith && txt != "" {
		res, m = s.lia(cs, lvars, strings.Replace(txt, fmt.Sprint(timeout), "1500", 1))
	}
	if res == Unknown {
		res, m = s.run(s.bvText(cs, timeout), timeout)
	}
	if res == Unknown && txt != "" {
		res, m = s.lia(cs, lvars, txt)
	}
	switch res {
	case Unsat:
		s.nUnsat++
	case Unknown:
		s.nUnknown++
	default:
		s.nSat++
	}
	return res, m
}

// lia decides the integer form.
func (s *Solver) lia(cs []*Term, vars []*Term, txt string) (Result, map[int]uint64) {
	res, m := s.run(txt, s.timeout)
	if res != Sat {
		return res, nil
	}
	for _, v := range vars {
		if v.w > 0 {
			m[int(v.k)] &= maskw(v.w)
		}
	}
	if !s.c.Satisfies(cs, m) {
		s.errs++
		s.lastErr = "integer model does not satisfy the constraints"
		return Unknown, nil
	}
	return Sat, m
}

func (s *Solver) bvText(cs []*Term, timeout int) string {
	s.gen++
	var sb, body strings.Builder
	declared := map[*Term]bool{}
	var order []*Term
	decl := func(v *Term) {
		if declared[v] {
			return
		}
		declared[v] = true
		order = append(order, v)
	}
	var asserts []string
	for _, t := range cs {
		asserts = append(asserts, s.c.smt(t, &body, s.gen, decl))
	}
	fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n", timeout)
	for _, v := range order {
		fmt.Fprintf(&sb, "(declare-const v%d %s)\n", v.k, sortOf(v))
		if v.w > 0 && !v.fp {
			if v.umin > 0 {
				fmt.Fprintf(&sb, "(assert (bvule %s v%d))\n", bvc(v.w, v.umin), v.k)
			}
			if v.umax < maskw(v.w) {
				fmt.Fprintf(&sb, "(assert (bvule v%d %s))\n", v.k, bvc(v.w, v.umax))
			}
			if v.smin > minS(v.w) {
				fmt.Fprintf(&sb, "(assert (bvsle %s v%d))\n", bvc(v.w, uint64(v.smin)), v.k)
			}
			if v.smax < maxS(v.w) {
				fmt.Fprintf(&sb, "(assert (bvsle v%d %s))\n", v.k, bvc(v.w, uint64(v.smax)))
			}
		}
	}
	sb.WriteString(body.String())
	for _, a := range asserts {
		sb.WriteString("(assert " + a + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(order) > 0 {
		sb.WriteString("(echo \"M\")\n(get-value (")
		for _, v := range order {
			if v.fp {
				fmt.Fprintf(&sb, "v%d ", v.k)
			} else {
				fmt.Fprintf(&sb, "v%d ", v.k)
			}
		}
		sb.WriteString("))\n")
	}
	sb.WriteString("(echo \"END\")\n")
	return sb.String()
}

// run sends one self-contained query.
func (s *Solver) run(txt string, timeout int) (Result, map[int]uint64) {
	if s.cmd == nil {
		s.start()
	}
	if dumpQ != nil {
		fmt.Fprintln(dumpQ, txt)
	}
	s.in.WriteString(txt)
	if err := s.in.Flush(); err != nil {
		s.errs++
		s.lastErr = err.Error()
		s.close()
		return Unknown, nil
	}
	res := Unknown
	var model strings.Builder
	inM := false
	done := make(chan struct{})
	cmd := s.cmd
	go func() { // hard watchdog
		select {
		case <-done:
		case <-time.After(time.Duration(timeout)*time.Millisecond*3 + 20*time.Second):
			cmd.Process.Kill()
		}
	}()
	defer close(done)
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.errs++
			s.lastErr = "solver died: " + err.Error()
			s.close()
			return Unknown, nil
		}
		l := strings.TrimSpace(line)
		if l == "END" {
			break
		}
		if inM && res == Sat {
			model.WriteString(line)
			continue
		}
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case l == "unknown" || l == "timeout":
			res = Unknown
		case l == "M":
			inM = true
		case strings.HasPrefix(l, "(error"):
			if res != Sat && inM {
				// get-value without a model
				continue
			}
			s.errs++
			s.lastErr = l
			res = Unknown
		}
	}
	if strings.Contains(model.String(), "(error") {
		s.errs++
		s.lastErr = model.String()
		res = Unknown
	}
	if res != Sat {
		return res, nil
	}
	m := map[int]uint64{}
	parseModel(model.String(), m)
	return Sat, m
}

// parseModel reads ((v1 #x..) (v2 true) (v3 (fp #b0 #b.. #b..)) (v4 (_ bv5 8)) (v5 (_ NaN 11 53)) ...)
func parseModel(src string, m map[int]uint64) {
	toks := tokenize(src)
	i := 0
	var parse func() any
	parse = func() any {
		if toks[i] == "(" {
			i++
			var l []any
			for i < len(toks) && toks[i] != ")" {
				l = append(l, parse())
			}
			i++
			return l
		}
		i++
		return toks[i-1]
	}
	for i < len(toks) {
		e := parse()
		l, _ := e.([]any)
		for _, p := range l {
			pr, _ := p.([]any)
			if len(pr) != 2 {
				continue
			}
			name, _ := pr[0].(string)
			if !strings.HasPrefix(name, "v") {
				continue
			}
			id, err := strconv.Atoi(name[1:])
			if err != nil {
				continue
			}
			m[id] = parseVal(pr[1])
		}
	}
}

func parseVal(v any) uint64 {
	switch v := v.(type) {
	case string:
		switch {
		case v == "true":
			return 1
		case v == "false":
			return 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			return u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			return u
		case v != "" && v[0] >= '0' && v[0] <= '9':
			u, _ := strconv.ParseUint(v, 10, 64)
			return u
		}
	case []any:
		if len(v) == 2 && v[0] == "-" {
			return -parseVal(v[1])
		}
		if len(v) == 3 && v[0] == "_" {
			s := v[1].(string)
			if strings.HasPrefix(s, "bv") {
				u, _ := strconv.ParseUint(s[2:], 10, 64)
				return u
			}
		}
		if len(v) == 4 && v[0] == "fp" {
			s, e, f := parseVal(v[1]), parseVal(v[2]), parseVal(v[3])
			eb := len(v[2].(string))
			if strings.HasPrefix(v[2].(string), "#b") {
				eb = len(v[2].(string)) - 2
			}
			if eb == 8 {
				return s<<31 | e<<23 | f
			}
			return s<<63 | e<<52 | f
		}
		if len(v) == 4 && v[0] == "_" {
			eb := v[2].(string)
			d := eb != "8"
			switch v[1].(string) {
			case "NaN":
				if d {
					return 0x7ff8000000000001
				}
				return 0x7fc00000
			case "+oo":
				if d {
					return 0x7ff << 52
				}
				return 0xff << 23
			case "-oo":
				if d {
					return 0xfff << 52
				}
				return 0x1ff << 23
			case "+zero":
				return 0
			case "-zero":
				if d {
					return 1 << 63
				}
				return 1 << 31
			}
		}
	}
	return 0
}

func tokenize(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		switch {
		case s[i] == '(' || s[i] == ')':
			r = append(r, s[i:i+1])
			i++
		case s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}
