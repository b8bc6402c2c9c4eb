package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harness struct {
	name   string
	pkg    string // import path
	rel    string
	fn     *ssa.Function
	doc    string
	bubble bool
}

type config struct {
	repo, verif, id, tier, only, workDir string
	seed, workers, timeoutMs             int
	budget                               time.Duration
	debug                                bool
}

const modPath = "github.com/effective-security/xdb"

// buildOverlay collects the harness files of one property.
func buildOverlay(c *config) (ov map[string][]byte, rels []string, err error) {
	ov = map[string][]byte{}
	for _, p := range []string{"zzsym", "zzstub", "zzdrv", "zzsql"} {
		d := filepath.Join(c.verif, "harness", p)
		if _, e := os.Stat(d); e != nil {
			continue
		}
		if err = readOverlayDir(d, filepath.Join(c.repo, "internal", p), ov); err != nil {
			return
		}
	}
	base := filepath.Join(c.verif, "harness", "pkgs")
	id := strings.ToLower(c.id)
	err = filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		ents, err := os.ReadDir(p)
		if err != nil {
			return err
		}
		has := false
		for _, e := range ents {
			if strings.HasPrefix(e.Name(), id) && strings.HasSuffix(e.Name(), ".go") {
				has = true
			}
		}
		if !has {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		dst := rel
		if rel == "_root" {
			dst = "."
		}
		rels = append(rels, dst)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || !(strings.HasPrefix(e.Name(), id) || strings.HasPrefix(e.Name(), "common")) {
				continue
			}
			b, err := os.ReadFile(filepath.Join(p, e.Name()))
			if err != nil {
				return err
			}
			ov[filepath.Join(c.repo, dst, "zz_"+strings.TrimSuffix(e.Name(), ".go")+"_verif.go")] = b
		}
		if b, err := os.ReadFile(filepath.Join(p, "imports.json")); err == nil {
			return substImports(c, dst, b, ov)
		}
		return nil
	})
	sort.Strings(rels)
	if err == nil && len(rels) == 0 {
		err = fmt.Errorf("no harness for %s", c.id)
	}
	return
}

// substImports redirects imports of the package's files (read from the working tree) to model packages, as
// imports.json says: {"github.com/lib/pq": "zzpq"} (a directory of harness/).
func substImports(c *config, dst string, spec []byte, ov map[string][]byte) error {
	m := map[string]string{}
	if err := json.Unmarshal(spec, &m); err != nil {
		return err
	}
	for _, z := range m {
		if err := readOverlayDir(filepath.Join(c.verif, "harness", z), filepath.Join(c.repo, "internal", z), ov); err != nil {
			return err
		}
	}
	ents, err := os.ReadDir(filepath.Join(c.repo, dst))
	if err != nil {
		return err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		p := filepath.Join(c.repo, dst, e.Name())
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, b, parser.ImportsOnly)
		if err != nil {
			return err
		}
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			path, _ := strconv.Unquote(im.Path.Value)
			if z := m[path]; z != "" {
				lo, hi := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
				b = append(append(append([]byte{}, b[:lo]...), strconv.Quote(modPath+"/internal/"+z)...), b[hi:]...)
				ov[p] = b
			}
		}
	}
	return nil
}

func findHarnesses(c *config, P *Prog, rels []string) []*harness {
	var out []*harness
	re := regexp.MustCompile("^ZZ" + c.id + "T?_")
	for _, rel := range rels {
		path := modPath
		if rel != "." {
			path += "/" + rel
		}
		sp := P.pkgs[path]
		tp := P.tpkgs[path]
		if sp == nil {
			continue
		}
		docs := map[string]string{}
		for _, f := range tp.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil {
					docs[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
				}
			}
		}
		for n, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !re.MatchString(n) || f.Signature.Params().Len() != 0 {
				continue
			}
			if c.only != "" && !strings.Contains(n, c.only) {
				continue
			}
			out = append(out, &harness{name: n, pkg: path, rel: rel, fn: f, doc: docs[n], bubble: strings.HasPrefix(n, "ZZ"+c.id+"T_")})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

type known struct{ prop, id, text string }

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(l[6:])
		k := known{}
		rest := []string{}
		for _, x := range f {
			switch {
			case strings.HasPrefix(x, "property=") && k.prop == "":
				k.prop = x[9:]
			case strings.HasPrefix(x, "finding=") && k.id == "":
				k.id = x[8:]
			default:
				rest = append(rest, x)
			}
		}
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return out
}

func main() {
	c := &config{}
	flag.StringVar(&c.repo, "repo", "/repo", "")
	flag.StringVar(&c.verif, "verif", "/verif", "")
	flag.StringVar(&c.id, "id", "", "property id")
	flag.StringVar(&c.tier, "tier", "quick", "")
	flag.StringVar(&c.only, "only", "", "harness name filter")
	flag.IntVar(&c.seed, "seed", 1, "")
	flag.IntVar(&c.workers, "workers", 8, "")
	flag.IntVar(&c.timeoutMs, "qt", 0, "solver timeout per query (ms)")
	flag.DurationVar(&c.budget, "budget", 0, "")
	flag.BoolVar(&c.debug, "debug", false, "")
	dump := flag.String("dump", "", "dump queries")
	replay := flag.String("replay", "", "replay one recorded counterexample natively")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(18 << 30)
	if *dump != "" {
		f, _ := os.Create(*dump)
		dumpQ = f
	}
	thorough = c.tier == "thorough"
	if c.budget == 0 {
		c.budget = 170 * time.Second
		if thorough {
			c.budget = 700 * time.Second
		}
	}
	if c.timeoutMs == 0 {
		c.timeoutMs = 10000
		if thorough {
			c.timeoutMs = 40000
		}
	}
	rc := 2
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintln(os.Stderr, "engine failure:", r)
				debug.PrintStack()
				rc = 2
			}
		}()
		if *replay != "" {
			rc = runReplay(c, *replay)
			return
		}
		rc = runCheck(c)
	}()
	os.Exit(rc)
}

type hres struct {
	h    *harness
	e    *Explorer
	wall time.Duration
	kept []*candidate
}

func runCheck(c *config) int {
	t0 := time.Now()
	ov, rels, err := buildOverlay(c)
	if err == nil {
		err = generated(c, ov)
	}
	if g, ok := err.(*genError); ok {
		return genViolation(c, g.msg, t0)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pats := []string{"./internal/zzstub", "./internal/zzsym"}
	for _, r := range rels {
		if r == "." {
			pats = append(pats, ".")
		} else {
			pats = append(pats, "./"+r)
		}
	}
	P, err := loadProg(c.repo, ov, pats, "")
	if err != nil {
		if m := genFault(c, err); m != "" {
			return genViolation(c, m, t0)
		}
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hs := findHarnesses(c, P, rels)
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness functions for", c.id)
		return 2
	}
	loadT := time.Since(t0)
	nat := newNative(c, ov, hs)
	nat.startBuild()
	defer nat.cleanup()

	var ms []*M
	for i := 0; i < c.workers; i++ {
		ms = append(ms, newMachine(P, i, c.timeoutMs))
	}
	end := t0.Add(c.budget)
	var res []*hres
	for i, h := range hs {
		left := time.Until(end)
		if left < time.Second {
			left = time.Second
		}
		share := left / time.Duration(len(hs)-i) * 3 / 2
		if share > left {
			share = left
		}
		e := newExplorer(P, h.fn, c.workers, ms)
		e.rng ^= uint64(c.seed) * 0x9e3779b97f4a7c15
		if e.rng == 0 {
			e.rng = 1
		}
		e.deadline = time.Now().Add(share)
		ts := time.Now()
		e.run()
		r := &hres{h: h, e: e, wall: time.Since(ts)}
		res = append(res, r)
		if c.debug {
			printRes(r)
		}
	}
	// what is left of the time goes to the explorations that were cut short
	for time.Until(end) > 2*time.Second {
		var open []*hres
		for _, r := range res {
			if r.e.timeUp && r.e.left > 0 {
				open = append(open, r)
			}
		}
		if len(open) == 0 {
			break
		}
		for i, r := range open {
			left := time.Until(end)
			if left < time.Second {
				break
			}
			r.e.deadline = time.Now().Add(left / time.Duration(len(open)-i))
			ts := time.Now()
			r.e.run()
			r.wall += time.Since(ts)
			if c.debug {
				printRes(r)
			}
		}
	}
	var nq, nsat, nuns, nunk, hits int
	var qdur time.Duration
	for _, m := range ms {
		nq += m.s.queries
		nsat += m.s.nSat
		nuns += m.s.nUnsat
		nunk += m.s.nUnknown
		hits += m.s.hits
		qdur += m.s.dur
		m.s.close()
	}

	// ---- native replay of counterexamples, of sampled path models and of models of aborted paths
	type job struct {
		c    *candidate
		r    *hres
		kind string
	}
	var jobs []job
	for _, r := range res {
		for _, k := range sortedKeys(r.e.cands) {
			for _, cd := range r.e.cands[k] {
				jobs = append(jobs, job{cd, r, "cand"})
			}
		}
		for _, s := range r.e.samples {
			jobs = append(jobs, job{s, r, "sample"})
		}
		for _, s := range r.e.fallback {
			jobs = append(jobs, job{s, r, "fallback"})
		}
	}
	var seq, conc []int
	for i, j := range jobs {
		if j.c.Conc {
			if j.kind == "cand" {
				conc = append(conc, i)
			}
			continue
		}
		seq = append(seq, i)
	}
	outs := make([]*outcome, len(jobs))
	if len(seq) > 0 {
		var cs []*candidate
		for _, i := range seq {
			cs = append(cs, jobs[i].c)
		}
		for k, o := range nat.run(cs, "", 1, 20*time.Second, 3*time.Minute) {
			outs[seq[k]] = o
		}
	}
	concEnd := time.Now().Add(100 * time.Second)
	confirmedKey := map[string]bool{}
	for _, i := range conc {
		j := jobs[i]
		key := j.c.Harness + "|" + j.c.Kind + "|" + j.c.ID + "|" + j.c.Msg
		if confirmedKey[key] || time.Now().After(concEnd) {
			continue
		}
		for _, mode := range []string{"", "jit", "race", "jitrace"} {
			o := nat.run([]*candidate{j.c}, mode, 4000, 8*time.Second, 18*time.Second)[0]
			if o.Outcome == "notrun" {
				continue
			}
			outs[i] = o
			if o.bad() || len(o.Findings) > 0 {
				confirmedKey[key] = true
				break
			}
		}
	}
	if nat.err != "" {
		fmt.Fprintln(os.Stderr, "native build:", nat.err)
		return 2
	}

	validated, mismatched, unreproduced, skipped := 0, 0, 0, 0
	type viol struct {
		key  string
		c    *candidate
		o    *outcome
		fid  string
		fmsg string
	}
	var viols []*viol
	seen := map[string]bool{}
	var notes []string
	addV := func(cd *candidate, o *outcome, fid, msg string) {
		k := cd.Harness + "|" + fid + "|" + msg
		if fid != "" {
			k = "finding|" + fid
		}
		if seen[k] {
			return
		}
		seen[k] = true
		viols = append(viols, &viol{k, cd, o, fid, msg})
	}
	reproduced := map[string]bool{}
	for i, j := range jobs {
		o := outs[i]
		if o == nil {
			continue
		}
		for _, f := range sortedKeys(o.Findings) {
			addV(j.c, o, f, o.Findings[f])
			reproduced["f|"+f] = true
		}
		switch {
		case o.bad():
			if j.kind != "cand" {
				// confirm on its own before believing it
				again := false
				for k := 0; k < 4 && !again; k++ {
					again = nat.run([]*candidate{j.c}, "", 1, 40*time.Second, 60*time.Second)[0].bad()
				}
				if !again {
					notes = append(notes, "unstable native outcome: "+j.c.Harness+": "+o.Msg)
					continue
				}
				notes = append(notes, fmt.Sprintf("native run of a %s model failed where the engine saw no failure: %s", j.kind, o.Msg))
			}
			addV(j.c, o, "", o.Outcome+": "+o.Msg)
			if j.kind == "cand" {
				reproduced[j.c.Harness+"|"+j.c.Kind+"|"+j.c.ID+"|"+j.c.Msg] = true
			}
		case j.kind == "sample" && o.Outcome == "ok":
			if o.Diverged != "" {
				mismatched++
				notes = append(notes, "diverged: "+j.c.Harness+": "+o.Diverged)
				if c.debug {
					b, _ := json.Marshal(j.c.Inputs)
					fmt.Println("DIVERGED", j.c.Harness, o.Diverged, string(b))
				}
				continue
			}
			if d := traceDiff(j.c.Trace, o.Trace); d != "" {
				mismatched++
				notes = append(notes, "trace differs: "+j.c.Harness+": "+d)
				if c.debug {
					b, _ := json.Marshal(j.c.Inputs)
					fmt.Println("TRACE DIFF", j.c.Harness, d, string(b))
				}
				continue
			}
			validated++
		case o.Outcome == "skip":
			skipped++
			if j.kind == "sample" {
				mismatched++
				notes = append(notes, "assumption false natively: "+j.c.Harness)
			}
		}
	}
	for _, r := range res {
		for _, k := range sortedKeys(r.e.cands) {
			cd := r.e.cands[k][0]
			if cd.Kind == "finding" {
				if !reproduced["f|"+cd.ID] {
					unreproduced++
					notes = append(notes, "not reproduced natively: "+cd.ID+" "+cd.Msg)
				}
				continue
			}
			if !reproduced[r.h.name+"|"+cd.Kind+"|"+cd.ID+"|"+cd.Msg] {
				// a violation may reproduce natively under another message
				rep := false
				for i, j := range jobs {
					if j.r == r && j.kind == "cand" && outs[i] != nil && outs[i].bad() {
						rep = true
					}
				}
				if !rep {
					unreproduced++
					b, _ := json.Marshal(cd.Inputs)
					notes = append(notes, fmt.Sprintf("not reproduced natively: %s %s %s inputs %.300s", r.h.name, cd.Kind, cd.Msg, b))
				}
			}
		}
	}

	// ---- verdict
	knowns := readKnown(filepath.Join(c.verif, "known_findings.txt"))
	rc := 0
	var violOut []any
	repDir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	n := 0
	for _, v := range viols {
		isKnown := false
		if v.fid != "" {
			for _, k := range knowns {
				if k.prop == c.id && k.id == v.fid {
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s): %s\n", c.id, v.fid, k.text, v.fmsg)
					isKnown = true
				}
			}
		}
		n++
		p := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", c.id, n))
		b, _ := json.MarshalIndent(map[string]any{"property": c.id, "case": v.c, "native": v.o, "finding": v.fid, "message": v.fmsg,
			"how": "bash /verif/check " + c.id + " quick --replay " + p}, "", " ")
		os.WriteFile(p, b, 0o644)
		if isKnown {
			continue
		}
		rc = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, p)
		fmt.Printf("  %s: %s %s\n", v.c.Harness, v.fid, v.fmsg)
		violOut = append(violOut, map[string]any{"harness": v.c.Harness, "message": v.fmsg, "inputs": v.c.Inputs, "replay": p})
	}

	// ---- evidence
	var paths, completed, aborted, left, asserts, unknown, decisions, assumeEnd, infeas, vac int
	steps := 0
	covered := map[string]bool{}
	var hout []any
	var samples []any
	complete := true
	for _, r := range res {
		e := r.e
		paths += e.paths
		completed += e.completed
		left += e.left
		asserts += e.asserts
		unknown += e.unknown
		decisions += e.decisions
		assumeEnd += e.assumeEnd
		infeas += e.infeasible
		steps += e.steps
		for f := range e.covered {
			covered[f] = true
		}
		na := 0
		for _, v := range e.aborted {
			na += v
		}
		aborted += na
		if e.reached["assert"] == 0 && len(e.cands) == 0 {
			vac++
		}
		if na > 0 || e.left > 0 || e.unknown > 0 {
			complete = false
		}
		ab := []string{}
		for _, k := range sortedKeys(e.aborted) {
			ab = append(ab, fmt.Sprintf("%s x%d", k, e.aborted[k]))
		}
		if len(ab) > 20 {
			ab = ab[:20]
		}
		hout = append(hout, map[string]any{"harness": r.h.name, "bounds": r.h.doc, "paths": e.paths, "completed": e.completed,
			"cut_by_assumption": e.assumeEnd, "infeasible": e.infeasible, "aborted": ab, "unexplored": e.left, "asserts": e.asserts, "solver_unknown": e.unknown,
			"reached_assertion_paths": e.reached["assert"], "wall_s": round(r.wall.Seconds()), "exhausted": na == 0 && e.left == 0 && e.unknown == 0})
		for i, s := range e.samples {
			if i < 2 {
				samples = append(samples, s)
			}
		}
	}
	if len(samples) == 0 {
		for _, r := range res {
			for _, k := range sortedKeys(r.e.cands) {
				samples = append(samples, r.e.cands[k][0])
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	if len(samples) > 30 {
		samples = samples[:30]
	}
	var fns, lib []string
	for f := range covered {
		if strings.Contains(f, "effective-security/xdb") && (!strings.Contains(f, "/internal/zz") || strings.Contains(f, "/internal/zzpg") || strings.Contains(f, "/internal/zzms") || strings.Contains(f, "/internal/zzod")) && !strings.Contains(f, ".ZZ") {
			fns = append(fns, strings.ReplaceAll(f, modPath, "xdb"))
		} else {
			lib = append(lib, f)
		}
	}
	sort.Strings(fns)
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": completed, "transitions": decisions, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":          "states = completed symbolic paths (each one stands for all inputs satisfying its path condition); transitions = symbolic decisions taken on them",
			"all_paths_exhausted":  complete,
			"paths":                paths,
			"instructions":         steps,
			"assertions_checked":   asserts,
			"paths_aborted":        aborted,
			"paths_unexplored":     left,
			"paths_cut_by_assume":  assumeEnd,
			"solver":               map[string]any{"queries": nq, "sat": nsat, "unsat": nuns, "unknown": nunk, "cache_hits": hits, "seconds": round(qdur.Seconds()), "binary": "z3-new"},
			"functions_encoded":    fns,
			"library_functions":    len(lib),
			"harnesses":            hout,
			"vacuous_harnesses":    vac,
			"native_mismatches":    mismatched,
			"not_reproduced":       unreproduced,
			"native_runs":          len(jobs),
			"notes":                notes,
			"load_s":               round(loadT.Seconds()),
			"solver_unknown_paths": unknown,
		},
		"assumptions": []string{"bounds of each harness as listed under coverage.harnesses", "library stubs and environment models as listed in DESIGN.md"},
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  violOut,
	}
	if violOut == nil {
		ev["violations"] = []any{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if c.only == "" {
		os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d completed, %d aborted, %d unexplored), %d assertions, %d queries (%.1fs), native: %d validated, %d mismatched, %d not reproduced; wall %.1fs\n",
		c.id, c.tier, len(hs), paths, completed, aborted, left, asserts, nq, qdur.Seconds(), validated, mismatched, unreproduced, time.Since(t0).Seconds())
	if c.debug {
		for _, s := range notes {
			fmt.Println("note:", s)
		}
		for _, v := range viols {
			b, _ := json.Marshal(v.c)
			fmt.Printf("viol %s\n   %.1500s\n", v.key, b)
		}
	}
	return rc
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

func traceDiff(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries predicted, %d seen", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("predicted %q, real %q", a[i], b[i])
		}
	}
	return ""
}

func printRes(r *hres) {
	e := r.e
	fmt.Printf("%-40s paths %d completed %d assume %d infeas %d left %d asserts %d unknown %d steps %d  %.1fs\n", r.h.name, e.paths, e.completed, e.assumeEnd, e.infeasible, e.left, e.asserts, e.unknown, e.steps, r.wall.Seconds())
	for _, k := range sortedKeys(e.aborted) {
		fmt.Printf("    aborted %s x%d\n", k, e.aborted[k])
	}
	for _, k := range sortedKeys(e.cands) {
		fmt.Printf("    candidate %s x%d\n", k, len(e.cands[k]))
	}
	for _, k := range sortedKeys(e.warns) {
		fmt.Printf("    warn %s\n", k)
	}
	if e.reached["assert"] == 0 {
		fmt.Printf("    VACUOUS: no completed path reached an assertion\n")
	}
	for _, k := range sortedKeys(e.reached) {
		if k != "assert" {
			fmt.Printf("    reached %s x%d\n", k, e.reached[k])
		}
	}
}
