package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Prog is the loaded program, shared by all workers.
type Prog struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	tpkgs  map[string]*packages.Package
	finfos sync.Map // *ssa.Function -> *finfo
	gmu    sync.Mutex
	gidx   map[*ssa.Global]int
	gl     []*ssa.Global
	repo   string // module path of the code under test
	dir    string
	meths  sync.Map // methKey -> *ssa.Function
	impls  sync.Map // implKey -> bool
	npkgs  int
}

type methKey struct {
	t    types.Type
	name string
}
type implKey struct {
	t types.Type
	i types.Type
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	get := func(k, d string) {
		if os.Getenv(k) == "" {
			set(k, d)
		}
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("GONOSUMDB", "*")
	set("GONOSUMCHECK", "1")
	set("GOFLAGS", "-mod=mod")
	set("GOWORK", "off")
	set("TZ", "UTC")
	get("HOME", "/root")
	get("GOPATH", "/root/go")
	get("GOMODCACHE", "/root/go/pkg/mod")
	get("GOCACHE", "/root/.cache/go-build")
	return env
}

// loadProg loads patterns (in module dir) with the overlay (absolute path -> content).
func loadProg(dir string, overlay map[string][]byte, patterns []string, modfile string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	if modfile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+modfile)
	}
	cfg.BuildFlags = append(cfg.BuildFlags, "-tags=verif")
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if len(errs) < 10 && strings.HasPrefix(p.PkgPath, "github.com/effective-security/xdb") {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	P := &Prog{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, gidx: map[*ssa.Global]int{}, dir: dir}
	prog := ssa.NewProgram(pk[0].Fset, ssa.InstantiateGenerics)
	P.prog = prog
	packages.Visit(pk, nil, func(p *packages.Package) {
		if p.Types == nil || p.IllTyped && len(p.Syntax) == 0 {
			return
		}
		P.npkgs++
		s := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		P.pkgs[p.PkgPath] = s
		P.tpkgs[p.PkgPath] = p
	})
	P.repo = "github.com/effective-security/xdb"
	return P, nil
}

func readOverlayDir(src, dst string, overlay map[string][]byte) error {
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		overlay[filepath.Join(dst, e.Name())] = b
	}
	return nil
}

// ---------------------------------------------------------------- compiled functions

const (
	okSlot = iota
	okConst
	okConstAgg
	okGlobal
	okNone
)

type opnd struct {
	kind uint8
	slot int
	v    Value
}

type cins struct {
	base  bool // address passed to unsafe.String or unsafe.Slice
	ins   ssa.Instruction
	dst   int
	ops   []opnd
	t     types.Type // auxiliary type (operand / result), canonical where relevant
	t2    types.Type
	n     int
	flag  bool
	cache any
	dead  bool // a pure text that only a log call gets
}

// onlyLogged reports whether v is a text made by a pure standard-library formatter and used for nothing but an
// argument of a log call (log calls are not executed).
func onlyLogged(v *ssa.Call) bool {
	f, ok := v.Call.Value.(*ssa.Function)
	if !ok {
		return false
	}
	switch f.String() {
	case "(time.Time).Format", "(time.Time).String", "(time.Duration).String":
	default:
		return false
	}
	isLog := func(c ssa.CallInstruction) bool {
		f := c.Common().StaticCallee()
		if f == nil {
			return false
		}
		p := f.Pkg
		if p == nil && f.Signature.Recv() != nil && f.Object() != nil {
			return f.Object().Pkg() != nil && f.Object().Pkg().Path() == "github.com/effective-security/xlog"
		}
		return p != nil && p.Pkg.Path() == "github.com/effective-security/xlog"
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		mi, ok := r.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		for _, r := range *mi.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			st, ok := r.(*ssa.Store)
			if !ok {
				return false
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.IndexAddr:
					for _, r2 := range *r.Referrers() {
						if _, ok := r2.(*ssa.Store); !ok {
							return false
						}
					}
				case *ssa.Slice:
					for _, r2 := range *r.Referrers() {
						c, ok := r2.(ssa.CallInstruction)
						if !ok || !(isLog(c) || c.Common().IsInvoke() && logType(c.Common().Value.Type())) {
							return false
						}
					}
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		}
	}
	return true
}

func logType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/effective-security/xlog"
}

type cblock struct {
	phis []cins
	code []cins
	blk  *ssa.BasicBlock
}

type finfo struct {
	fn       *ssa.Function
	name     string
	nslots   int
	blocks   []cblock
	params   []int
	free     []int
	hasDefer bool
	intr     intrinsic
	redirect *ssa.Function
	external bool
	repo     bool
	tracked  bool
	recover  int // block index or -1
	once     sync.Once
	built    bool
	pkg      *ssa.Package
}

func (P *Prog) pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if fn.Parent() != nil {
		return P.pkgOf(fn.Parent())
	}
	return nil
}

func (P *Prog) info(fn *ssa.Function) *finfo {
	if v, ok := P.finfos.Load(fn); ok {
		fi := v.(*finfo)
		fi.once.Do(func() { P.compile(fi) })
		return fi
	}
	v, _ := P.finfos.LoadOrStore(fn, &finfo{fn: fn})
	fi := v.(*finfo)
	fi.once.Do(func() { P.compile(fi) })
	return fi
}

func (P *Prog) globalIndex(g *ssa.Global) int {
	P.gmu.Lock()
	defer P.gmu.Unlock()
	if i, ok := P.gidx[g]; ok {
		return i
	}
	// zzdrv.drivers is linknamed to database/sql.drivers
	if g.Name() == "drivers" && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/internal/zzdrv") {
		if p := P.pkgs["database/sql"]; p != nil && p.Var("drivers") != nil {
			g = p.Var("drivers")
			if i, ok := P.gidx[g]; ok {
				return i
			}
		}
	}
	// the initialisation of package os is not run: its error values are those of io/fs
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
		switch g.Name() {
		case "ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed":
			if p := P.pkgs["io/fs"]; p != nil && p.Var(g.Name()) != nil {
				o := g
				g = p.Var(g.Name())
				if i, ok := P.gidx[g]; ok {
					P.gidx[o] = i
					return i
				}
			}
		}
	}
	i := len(P.gl)
	P.gl = append(P.gl, g)
	P.gidx[g] = i
	return i
}

func (P *Prog) globalAt(i int) *ssa.Global {
	P.gmu.Lock()
	defer P.gmu.Unlock()
	return P.gl[i]
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t.Underlying())
	}
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constBool(c)
		case b.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(b)
			if signed {
				return uint64(c.Int64()) & maskw(w)
			}
			return c.Uint64() & maskw(w)
		case b.Info()&types.IsFloat != 0:
			if b.Kind() == types.Float32 {
				return float64(float32(c.Float64()))
			}
			return c.Float64()
		case b.Info()&types.IsString != 0:
			return constStr(c)
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Kind() == types.UnsafePointer:
			return UPtr{}
		}
	}
	// type parameter'd or interface constants
	return zero(u)
}

func isAgg(v Value) bool {
	switch v.(type) {
	case Struct, Array, Tuple:
		return true
	}
	return false
}

func (P *Prog) compile(fi *finfo) { P.compileX(fi, false) }

func (P *Prog) compileX(fi *finfo, body bool) {
	fn := fi.fn
	fi.name = fn.String()
	fi.recover = -1
	fi.pkg = P.pkgOf(fn)
	if fi.pkg != nil && (strings.HasPrefix(fi.pkg.Pkg.Path(), P.repo)) {
		fi.repo = true
	}
	fi.tracked = P.isTracked(fi)
	name := fi.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok && !body {
		fi.intr = in
		return
	}
	if in := intrinsicByPattern(fn, name); in != nil && !body {
		fi.intr = in
		return
	}
	if r, ok := redirects[name]; ok && !body {
		i := strings.LastIndex(r, ".")
		pkg := P.pkgs[r[:i]]
		if pkg != nil {
			if f := pkg.Func(r[i+1:]); f != nil {
				fi.redirect = f
				return
			}
		}
	}
	if fi.pkg != nil {
		fi.pkg.Build() // waits for a build in progress
	}
	if fn.Blocks == nil {
		fi.external = true
		return
	}
	slots := map[ssa.Value]int{}
	n := 0
	slot := func(v ssa.Value) int {
		if s, ok := slots[v]; ok {
			return s
		}
		slots[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, slot(p))
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{kind: okNone}
		case *ssa.Const:
			var cv Value
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pa, ok := r.(pathAbort); ok {
							cv = pa
							return
						}
						panic(r)
					}
				}()
				cv = constValue(v)
			}()
			if isAgg(cv) {
				return opnd{kind: okConstAgg, v: cv}
			}
			return opnd{kind: okConst, v: cv}
		case *ssa.Global:
			return opnd{kind: okGlobal, slot: P.globalIndex(v)}
		case *ssa.Function:
			return opnd{kind: okConst, v: &Func{fn: v}}
		case *ssa.Builtin:
			return opnd{kind: okConst, v: v}
		}
		return opnd{kind: okSlot, slot: slot(v)}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	var ranges []posRange
	var rdone bool
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.blk = b
		for _, ins := range reorder(fn, b, &ranges, &rdone) {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slot(v)
			}
			var rands []*ssa.Value
			switch x := ins.(type) {
			case *ssa.Call, *ssa.Go, *ssa.Defer:
				call := x.(ssa.CallInstruction).Common()
				ci.ops = append(ci.ops, mkop(call.Value))
				for _, a := range call.Args {
					ci.ops = append(ci.ops, mkop(a))
				}
				if _, ok := x.(*ssa.Defer); ok {
					fi.hasDefer = true
					if d := x.(*ssa.Defer); d.DeferStack != nil {
						ci.flag = true
						ci.ops = append(ci.ops, mkop(d.DeferStack))
					}
				}
			case *ssa.Slice:
				ci.ops = []opnd{mkop(x.X), mkop(x.Low), mkop(x.High), mkop(x.Max)}
			default:
				rands = ins.Operands(nil)
				for _, r := range rands {
					ci.ops = append(ci.ops, mkop(*r))
				}
			}
			if c, ok := ins.(*ssa.Call); ok && fi.repo && onlyLogged(c) {
				ci.dead = true
			}
			switch x := ins.(type) {
			case *ssa.MakeInterface:
				ci.t = canon(x.X.Type())
			case *ssa.BinOp:
				ci.t = x.X.Type()
				ci.t2 = x.Y.Type()
			case *ssa.UnOp:
				ci.t = x.X.Type()
			case *ssa.Convert:
				ci.t, ci.t2 = x.X.Type(), x.Type()
			case *ssa.MultiConvert:
				ci.t, ci.t2 = x.X.Type(), x.Type()
			case *ssa.TypeAssert:
				ci.t = canon(x.AssertedType)
			case *ssa.Alloc:
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Index:
				ci.t = x.Index.Type()
			case *ssa.IndexAddr:
				ci.t = x.Index.Type()
				for _, r := range *x.Referrers() {
					if c, ok := r.(*ssa.Call); ok {
						if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "String" || b.Name() == "Slice") {
							ci.base = true
						}
					}
				}
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.code = append(cb.code, ci)
			}
		}
	}
	fi.nslots = n
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	fi.built = true
}

// method lookup on a concrete (canonical) type
func (P *Prog) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Id()}
	if v, ok := P.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	f := P.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	P.meths.Store(k, f)
	return f
}

func (P *Prog) methodByName(t types.Type, name string) *ssa.Function {
	sel := P.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func (P *Prog) implements(t, i types.Type) bool {
	k := implKey{t, i}
	if v, ok := P.impls.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i.Underlying().(*types.Interface))
	P.impls.Store(k, r)
	return r
}
