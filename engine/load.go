package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/zbdba/db-recovery"

type Program struct {
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	mu       sync.RWMutex
	fns      map[*ssa.Function]*fnInfo
	bodies   map[*ssa.Function]*fnInfo
	built    map[*ssa.Package]bool
	buildMu  sync.Mutex
	methodMu sync.RWMutex
	methods  map[methodKey]*ssa.Function
	globals  map[*ssa.Global]int
	globList []*ssa.Global
	rtErr    types.Type
	errStr   types.Type // *errors.errorString
	overlay  map[string]string
}

type methodKey struct {
	t    types.Type
	name string
}

// harnessOverlay maps virtual file names inside the repository to harness files.
func harnessOverlay(repo, dir string) (map[string]string, error) {
	ov := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(dir, p)
			ov[filepath.Join(repo, "zz_verif", rel)] = p
		}
		return nil
	})
	return ov, err
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		out = append(out, e)
	}
	out = append(out, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	if os.Getenv("HOME") == "" {
		out = append(out, "HOME=/root")
	}
	return out
}

// Load encodes the harnesses and what they reach, with a copy of the command line
// program if it has the form that can be driven.
func Load(repo, harnessDir, scratch string) (*Program, error) {
	ov, err := harnessOverlay(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	if c := cliOverlay(repo, filepath.Join(scratch, "zcli")); c != nil {
		with := map[string]string{}
		for k, v := range ov {
			with[k] = v
		}
		for k, v := range c {
			with[k] = v
		}
		if p, err := load(repo, with, modPath+"/zz_verif/h", cliPkg); err == nil {
			return p, nil
		}
	}
	return load(repo, ov, modPath+"/zz_verif/h")
}

func load(repo string, ov map[string]string, patterns ...string) (*Program, error) {
	overlay := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Fset:    fset,
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 20 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors while loading the program", nerr)
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	p := &Program{prog: prog, fset: fset, pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*fnInfo{}, bodies: map[*ssa.Function]*fnInfo{},
		built: map[*ssa.Package]bool{}, methods: map[methodKey]*ssa.Function{}, globals: map[*ssa.Global]int{}, overlay: ov}
	for _, sp := range prog.AllPackages() {
		if sp.Pkg != nil {
			p.pkgs[sp.Pkg.Path()] = sp
		}
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		p.rtErr = rt.Pkg.Scope().Lookup("errorString").Type()
	}
	if e := p.pkgs["errors"]; e != nil {
		p.errStr = types.NewPointer(e.Pkg.Scope().Lookup("errorString").Type())
	}
	return p, nil
}

func (p *Program) ensureBuilt(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	p.buildMu.Lock()
	if !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
	p.buildMu.Unlock()
}

func isRepoPkg(path string) bool { return strings.HasPrefix(path, modPath) }

// ---- compiled functions ----

type opKind uint8

const (
	okNil opKind = iota
	okReg
	okConst
	okGlobal
)

type opnd struct {
	k opKind
	i int
	c V
	g *ssa.Global
}

type inst struct {
	in  ssa.Instruction
	dst int
	o   []opnd
	kd  kind // operand kind (BinOp, Convert source ...)
	kd2 kind // result kind (Convert)
	typ types.Type
}

type blockInfo struct {
	phis  []inst
	insts []inst
	succ  []int
}

type fnInfo struct {
	fn      *ssa.Function
	nregs   int
	blocks  []*blockInfo
	params  []int
	free    []int
	recover int
	intr    intrinsic
	hasDef  bool
	name    string
	repo    bool
	harness bool
	stopAt  bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.RLock()
	fi := p.fns[fn]
	p.mu.RUnlock()
	if fi != nil {
		return fi
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi = p.fns[fn]; fi != nil {
		return fi
	}
	fi = p.compile(fn, false)
	p.fns[fn] = fi
	return fi
}

func constVal(c *ssa.Const) V {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		k := kindOf(b)
		switch {
		case b.Info()&types.IsBoolean != 0:
			return V{k: b2u(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return V{p: constant.StringVal(c.Value)}
			}
			return V{p: string(rune(c.Int64()))}
		case k.float:
			return floatV(c.Float64(), k.w)
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return V{k: uint64(i) & mask(k.w)}
			}
			u, _ := constant.Uint64Val(v)
			return V{k: u & mask(k.w)}
		}
	case *types.Interface, *types.TypeParam:
	}
	panic(fmt.Sprintf("constVal %v %v", c.Type(), c))
}

func (p *Program) globalIdx(g *ssa.Global) int {
	i, ok := p.globals[g]
	if !ok {
		i = len(p.globList)
		p.globals[g] = i
		p.globList = append(p.globList, g)
	}
	return i
}

// body compiles the code of a function whose intrinsic declined.
func (p *Program) body(fn *ssa.Function) *fnInfo {
	p.mu.RLock()
	fi := p.bodies[fn]
	p.mu.RUnlock()
	if fi != nil {
		return fi
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi = p.bodies[fn]; fi != nil {
		return fi
	}
	fi = p.compile(fn, true)
	p.bodies[fn] = fi
	return fi
}

func (p *Program) compile(fn *ssa.Function, noIntr bool) *fnInfo {
	fi := &fnInfo{fn: fn, recover: -1, name: fn.String()}
	if !noIntr {
		if o := fn.Origin(); o != nil {
			fi.intr = lookupIntrinsic(o.String())
		}
		if fi.intr == nil {
			fi.intr = lookupIntrinsic(fi.name)
		}
	}
	pkg := fn.Package()
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Package()
	}
	if pkg == nil && fn.Parent() != nil {
		for q := fn; q != nil; q = q.Parent() {
			if q.Package() != nil {
				pkg = q.Package()
				break
			}
		}
	}
	if pkg == nil && fn.Signature.Recv() != nil {
		// wrapper
	}
	if pkg != nil {
		fi.repo = isRepoPkg(pkg.Pkg.Path())
		fi.harness = strings.HasPrefix(pkg.Pkg.Path(), modPath+"/zz_verif")
	}
	if fi.intr != nil {
		return fi
	}
	p.ensureBuilt(pkg)
	if fn.Blocks == nil {
		return fi
	}
	regs := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		i := fi.nregs
		fi.nregs++
		regs[v] = i
		return i
	}
	for _, x := range fn.Params {
		fi.params = append(fi.params, alloc(x))
	}
	for _, x := range fn.FreeVars {
		fi.free = append(fi.free, alloc(x))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{k: okConst, c: constVal(v)}
		case *ssa.Global:
			return opnd{k: okGlobal, i: p.globalIdx(v), g: v}
		case *ssa.Function:
			return opnd{k: okConst, c: V{p: v}}
		case *ssa.Builtin:
			return opnd{k: okConst, c: V{p: v}}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, fn))
		}
		return opnd{k: okReg, i: i}
	}
	for _, b := range fn.Blocks {
		bi := &blockInfo{}
		for _, s := range b.Succs {
			bi.succ = append(bi.succ, s.Index)
		}
		for _, in := range b.Instrs {
			ci := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, r := range in.Operands(nil) {
				if r == nil || *r == nil {
					ci.o = append(ci.o, opnd{})
				} else {
					ci.o = append(ci.o, op(*r))
				}
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				ci.kd = kindOf(x.X.Type())
				ci.kd2 = kindOf(x.Y.Type())
				ci.typ = x.X.Type()
			case *ssa.UnOp:
				ci.kd = kindOf(x.X.Type())
				ci.typ = x.Type()
			case *ssa.Convert:
				ci.kd = kindOf(x.X.Type())
				ci.kd2 = kindOf(x.Type())
			case *ssa.IndexAddr:
				ci.kd = kindOf(x.Index.Type())
				ci.typ = x.X.Type().Underlying()
			case *ssa.Index:
				ci.kd = kindOf(x.Index.Type())
				ci.typ = x.X.Type().Underlying()
			case *ssa.Lookup:
				ci.kd = kindOf(x.Index.Type())
				ci.typ = x.X.Type().Underlying()
			case *ssa.MakeSlice:
				ci.kd = kindOf(x.Len.Type())
			case *ssa.Slice:
				ci.typ = x.X.Type().Underlying()
			case *ssa.Defer, *ssa.RunDefers:
				fi.hasDef = true
			case *ssa.Phi:
				bi.phis = append(bi.phis, ci)
				continue
			}
			bi.insts = append(bi.insts, ci)
		}
		fi.blocks = append(fi.blocks, bi)
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
		fi.hasDef = true
	}
	return fi
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := methodKey{t, name}
	p.methodMu.RLock()
	f, ok := p.methods[key]
	p.methodMu.RUnlock()
	if ok {
		return f
	}
	if !token.IsExported(name) {
		// unexported: package qualified
	} else {
		pkg = nil
	}
	f = p.prog.LookupMethod(t, pkg, name)
	p.methodMu.Lock()
	p.methods[key] = f
	p.methodMu.Unlock()
	return f
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}
