package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native execution of harnesses against the real code (go test binary built with an overlay).

type outcome struct {
	I        int               `json:"i"`
	Start    bool              `json:"start,omitempty"`
	Outcome  string            `json:"outcome"`
	Msg      string            `json:"msg,omitempty"`
	Findings map[string]string `json:"findings,omitempty"`
	Trace    []string          `json:"trace,omitempty"`
	Diverged string            `json:"diverged,omitempty"`
}

func (o *outcome) bad() bool {
	switch o.Outcome {
	case "assert", "panic", "crash", "timeout":
		return true
	}
	return false
}

type native struct {
	c    *config
	ov   map[string][]byte
	hs   []*harness
	dir  string
	err  string
	done map[string]chan struct{}
	bin  map[string]string
	mu   sync.Mutex
}

func newNative(c *config, ov map[string][]byte, hs []*harness) *native {
	return &native{c: c, ov: ov, hs: hs, done: map[string]chan struct{}{}, bin: map[string]string{}}
}

const nativeMain = `package zzmain

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"runtime"
	"runtime/debug"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb/internal/zzsym"
IMPORTS
)

var funcs = map[string]func(){
FUNCS
}

type outcome struct {
	I        int               ` + "`json:\"i\"`" + `
	Start    bool              ` + "`json:\"start,omitempty\"`" + `
	Outcome  string            ` + "`json:\"outcome\"`" + `
	Msg      string            ` + "`json:\"msg,omitempty\"`" + `
	Findings map[string]string ` + "`json:\"findings,omitempty\"`" + `
	Trace    []string          ` + "`json:\"trace,omitempty\"`" + `
	Diverged string            ` + "`json:\"diverged,omitempty\"`" + `
}

var out *os.File

func emit(o *outcome) {
	b, _ := json.Marshal(o)
	out.Write(append(b, '\n'))
}

func one(f func(), o *outcome) {
	defer func() {
		r := recover()
		if r != nil {
			if s, ok := r.(zzsym.Stop); ok {
				switch s.Kind {
				case "assume":
					o.Outcome = "skip"
				default:
					o.Outcome, o.Msg = "assert", s.Msg
				}
			} else {
				o.Outcome, o.Msg = "panic", fmt.Sprint(r)
				if os.Getenv("ZZSTACK") != "" {
					o.Msg += "\n" + string(debug.Stack())
				}
			}
		}
		if zzsym.Fail != "" {
			o.Outcome, o.Msg = "assert", zzsym.Fail
		}
		o.Findings, o.Trace, o.Diverged = zzsym.Findings, zzsym.TraceOut(), zzsym.Diverged
	}()
	o.Outcome = "ok"
	f()
}

func TestZZ(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("ZZIN"))
	if err != nil {
		t.Fatal(err)
	}
	var cases []*zzsym.Case
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	out, err = os.OpenFile(os.Getenv("ZZOUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	start, _ := strconv.Atoi(os.Getenv("ZZSTART"))
	iters, _ := strconv.Atoi(os.Getenv("ZZITERS"))
	tmo, _ := time.ParseDuration(os.Getenv("ZZTIMEOUT"))
	th := os.Getenv("ZZTIER") == "thorough"
	for i := start; i < len(cases); i++ {
		c := cases[i]
		f, bubble := funcs[c.Harness], false
		if f == nil {
			f, bubble = funcs["T:"+c.Harness], true
		}
		if f == nil {
			t.Fatal("no harness " + c.Harness)
		}
		emit(&outcome{I: i, Start: true})
		dl := time.Now().Add(tmo)
		o := &outcome{I: i}
		fin := make(chan struct{})
		// wall-clock watchdog, outside any bubble
		go func() {
			select {
			case <-fin:
			case <-time.After(tmo + 5*time.Second):
				emit(&outcome{I: i, Outcome: "timeout", Msg: "no result after " + tmo.String()})
				os.Exit(3)
			}
		}()
		for k := 0; k < iters; k++ {
			zzsym.Begin(c, th)
			*o = outcome{I: i}
			if bubble {
				synctest.Test(t, func(t *testing.T) {
					zzsym.Start(synctest.Wait)
					one(f, o)
					emit(o)
					os.Exit(0)
				})
			}
			zzsym.Start(nil)
			one(f, o)
			if o.Outcome != "ok" || len(o.Findings) > 0 || time.Now().After(dl) {
				break
			}
			if k%16 == 15 {
				runtime.Gosched()
			}
		}
		close(fin)
		emit(o)
		os.Exit(0) // every case has a process of its own
	}
}
`

func (n *native) startBuild() {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		n.err = err.Error()
		return
	}
	n.dir = dir
	repl := map[string]string{}
	i := 0
	for p, b := range n.ov {
		if strings.Contains(p, "/internal/zzstub/") {
			continue
		}
		i++
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		os.WriteFile(f, b, 0o644)
		repl[p] = f
	}
	imps, fns := "", ""
	al := map[string]string{}
	for _, h := range n.hs {
		a := al[h.pkg]
		if a == "" {
			a = fmt.Sprintf("p%d", len(al))
			al[h.pkg] = a
			imps += fmt.Sprintf("\t%s %q\n", a, h.pkg)
		}
		pre := ""
		if h.bubble {
			pre = "T:"
		}
		fns += fmt.Sprintf("\t%q: %s.%s,\n", pre+h.name, a, h.name)
	}
	src := strings.Replace(strings.Replace(nativeMain, "IMPORTS", imps, 1), "FUNCS", fns, 1)
	f := filepath.Join(dir, "main_test.go")
	os.WriteFile(f, []byte(src), 0o644)
	repl[filepath.Join(n.c.repo, "internal/zzmain/zz_test.go")] = f
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
	n.build("")
}

func (n *native) build(mode string) chan struct{} {
	n.mu.Lock()
	defer n.mu.Unlock()
	if d, ok := n.done[mode]; ok {
		return d
	}
	d := make(chan struct{})
	n.done[mode] = d
	go func() {
		defer close(d)
		race, jit := strings.Contains(mode, "race"), strings.Contains(mode, "jit")
		bin := filepath.Join(n.dir, "zz"+mode+".test")
		ovf := "overlay.json"
		if jit {
			ovf = "overlay-jit.json"
			n.jitter(filepath.Join(n.dir, ovf))
		}
		args := []string{"test", "-c", "-vet=off", "-ldflags=-checklinkname=0", "-tags=verif", "-overlay", filepath.Join(n.dir, ovf), "-o", bin}
		if race {
			args = append(args, "-race")
		}
		args = append(args, "./internal/zzmain")
		cmd := exec.Command("go", args...)
		cmd.Dir = n.c.repo
		cmd.Env = goEnv()
		if race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		outb, err := cmd.CombinedOutput()
		if err != nil {
			n.mu.Lock()
			if !jit {
				n.err = err.Error() + ": " + string(outb)
			} else if n.c.debug {
				fmt.Fprintln(os.Stderr, "jitter build:", string(outb))
			}
			n.mu.Unlock()
			return
		}
		n.mu.Lock()
		n.bin[mode] = bin
		n.mu.Unlock()
	}()
	return d
}

// jitter writes an overlay in which every statement of the package under test is preceded by a random delay, so that
// narrow schedules occur.
func (n *native) jitter(overlay string) {
	var ov struct{ Replace map[string]string }
	b, _ := os.ReadFile(filepath.Join(n.dir, "overlay.json"))
	json.Unmarshal(b, &ov)
	files := map[string]bool{}
	for _, h := range n.hs {
		m, _ := filepath.Glob(filepath.Join(n.c.repo, h.rel, "*.go"))
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				files[f] = true
			}
		}
	}
	for f := range ov.Replace {
		if strings.Contains(f, "/internal/zz") && !strings.Contains(f, "/zzsym/") && !strings.Contains(f, "/zzmain/") {
			files[f] = true
		}
	}
	i := 0
	for _, f := range sortedKeys(files) {
		src := f
		if r := ov.Replace[f]; r != "" {
			src = r
		}
		text, err := os.ReadFile(src)
		if err != nil {
			continue
		}
		if text = jitterText(text); text == nil {
			continue
		}
		i++
		to := filepath.Join(n.dir, fmt.Sprintf("j%d.go", i))
		os.WriteFile(to, text, 0o644)
		ov.Replace[f] = to
	}
	b, _ = json.Marshal(ov)
	os.WriteFile(overlay, b, 0o644)
}

func jitterText(text []byte) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", text, 0)
	if err != nil {
		return nil
	}
	at := map[int]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			at[fs.Position(s.Pos()).Offset] = true
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncDecl:
			return x.Name.Name != "init"
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	var out []byte
	name := fs.Position(f.Name.End()).Offset
	for i, c := range text {
		if i == name {
			out = append(out, "; import zzjitter \"github.com/effective-security/xdb/internal/zzsym\""...)
		}
		if at[i] {
			out = append(out, "zzjitter.Jitter(); "...)
		}
		out = append(out, c)
	}
	return out
}

func (n *native) bubbles() map[string]bool {
	r := map[string]bool{}
	for _, h := range n.hs {
		if h.bubble {
			r[h.name] = true
		}
	}
	return r
}

func (n *native) cleanup() {
	for _, d := range n.done {
		<-d
	}
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

var nativeSeq int

// run executes the cases natively; a case that ends the process is reported as "crash".
func (n *native) run(cases []*candidate, mode string, iters int, tmo, total time.Duration) []*outcome {
	outs := make([]*outcome, len(cases))
	for i := range outs {
		outs[i] = &outcome{I: i, Outcome: "notrun"}
	}
	<-n.build(mode)
	bin := n.bin[mode]
	if bin == "" {
		return outs
	}
	n.mu.Lock()
	nativeSeq++
	seq := nativeSeq
	n.mu.Unlock()
	in := filepath.Join(n.dir, fmt.Sprintf("in%d.json", seq))
	b, _ := json.Marshal(cases)
	os.WriteFile(in, b, 0o644)
	end := time.Now().Add(total)
	work := filepath.Join(n.dir, "cwd")
	os.MkdirAll(work, 0o755)
	par := 1
	if iters == 1 {
		par = n.c.workers
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := range cases {
		sem <- struct{}{}
		if !time.Now().Before(end) {
			<-sem
			break
		}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			attempt := func(try int) (res *outcome, ok bool) {
				res = &outcome{I: i, Outcome: "notrun"}
				of := filepath.Join(n.dir, fmt.Sprintf("out%d-%d-%d.json", seq, i, try))
				ctx, cancel := context.WithDeadline(context.Background(), end.Add(10*time.Second))
				defer cancel()
				cmd := exec.CommandContext(ctx, bin, "-test.run=^TestZZ$", "-test.timeout=0")
				cmd.Dir = work
				cmd.Env = append(goEnv(), "ZZIN="+in, "ZZOUT="+of, fmt.Sprintf("ZZSTART=%d", i), fmt.Sprintf("ZZITERS=%d", iters), "ZZTIMEOUT="+tmo.String(), "ZZTIER="+n.c.tier,
					"GORACE=halt_on_error=1 exitcode=66")
				var eb bytes.Buffer
				cmd.Stderr = &eb
				cmd.Stdout = &eb
				err := cmd.Run()
				started := false
				if f, e := os.Open(of); e == nil {
					sc := bufio.NewScanner(f)
					sc.Buffer(make([]byte, 1<<20), 1<<26)
					for sc.Scan() {
						var o outcome
						if json.Unmarshal(sc.Bytes(), &o) != nil {
							continue
						}
						if o.Start {
							started = true
							continue
						}
						oo := o
						res = &oo
					}
					f.Close()
					os.Remove(of)
				}
				if !started {
					n.mu.Lock()
					n.err = fmt.Sprintf("native binary did not start: %v %s", err, tail(eb.String(), 800))
					n.mu.Unlock()
					return res, false
				}
				if res.Outcome == "notrun" {
					if ctx.Err() != nil {
						res = &outcome{I: i, Outcome: "timeout", Msg: "no result"}
					} else {
						res = &outcome{I: i, Outcome: "crash", Msg: crashMsg(eb.String())}
					}
				}
				return res, true
			}
			// an error inside Go's runtime counts only if it happens every time
			once := attempt
			attempt = func(try int) (res *outcome, ok bool) {
				for k := 0; k < 4; k++ {
					if res, ok = once(try*4 + k); res.Outcome != "crash" || !runtimeFault(res.Msg) {
						break
					}
				}
				return
			}
			// a case in a bubble runs once per process; schedules are retried in new processes
			tries, width := 1, 1
			if iters > 1 && n.bubbles()[cases[i].Harness] {
				tries, width = 1000, n.c.workers
			}
			until := time.Now().Add(tmo)
			var tw sync.WaitGroup
			var tmu sync.Mutex
			next, stop := 0, false
			for w := 0; w < width; w++ {
				tw.Add(1)
				go func() {
					defer tw.Done()
					for {
						tmu.Lock()
						if stop || next == tries || next > 0 && time.Now().After(until) {
							tmu.Unlock()
							return
						}
						t := next
						next++
						tmu.Unlock()
						o, ok := attempt(t)
						tmu.Lock()
						if !stop {
							outs[i] = o
							stop = !ok || o.bad() || len(o.Findings) > 0
						}
						tmu.Unlock()
					}
				}()
			}
			tw.Wait()
		}()
	}
	wg.Wait()
	return outs
}

// runtimeFault tells whether a crash is one that programs do not cause: not a panic, deadlock, race or misuse of a map or a lock.
func runtimeFault(msg string) bool {
	m, ok := strings.CutPrefix(msg, "fatal error: ")
	if !ok {
		return false
	}
	for _, u := range []string{"deadlock", "concurrent map", "stack overflow", "sync:", "out of memory", "all goroutines", "unlock", "nil deref", "checkptr"} {
		if strings.Contains(m, u) {
			return false
		}
	}
	return true
}

func crashMsg(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") || strings.Contains(l, "deadlock:") {
			return l
		}
	}
	return tail(s, 300)
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

// runReplay re-runs one recorded counterexample against the real code.
func runReplay(c *config, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property string     `json:"property"`
		Case     *candidate `json:"case"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.id = r.Property
	ov, rels, err := buildOverlay(c)
	if err == nil {
		err = generated(c, ov)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pats := []string{"./internal/zzsym"}
	for _, x := range rels {
		pats = append(pats, "./"+x)
	}
	P, err := loadProg(c.repo, ov, pats, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := newNative(c, ov, findHarnesses(c, P, rels))
	n.startBuild()
	defer n.cleanup()
	iters := 1
	if r.Case.Conc {
		iters = 4000
	}
	o := n.run([]*candidate{r.Case}, "", iters, 30*time.Second, time.Minute)[0]
	if iters > 1 && !o.bad() {
		o = n.run([]*candidate{r.Case}, "jit", iters, 30*time.Second, time.Minute)[0]
	}
	if n.err != "" {
		fmt.Fprintln(os.Stderr, n.err)
		return 2
	}
	jb, _ := json.MarshalIndent(o, "", " ")
	fmt.Println(string(jb))
	if o.bad() || len(o.Findings) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		return 1
	}
	return 0
}
