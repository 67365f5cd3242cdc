package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a panic of the interpreted program.
type targetPanic struct{ v V } // v is an interface value

// pathEnd aborts the current path.
type pathEnd struct {
	why string // "assume", "limit", "unsupported", "fail", "exit", "internal"
	msg string
}

type Frame struct {
	r         *Run
	fi        *fnInfo
	regs      []V
	caller    *Frame
	defers    []func()
	block     int
	prev      int
	cur       ssa.Instruction
	panicking bool
	panicVal  V
	result    V
	depth     int
}

func (r *Run) unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...) + " at " + r.where()})
}

func (r *Run) where() string {
	for fr := r.top; fr != nil; fr = fr.caller {
		if fr.fi.repo && fr.cur != nil {
			p := r.p.fset.Position(fr.cur.Pos())
			if !p.IsValid() {
				continue
			}
			return fmt.Sprintf("%s:%d", p.Filename, p.Line)
		}
	}
	return "?"
}

func (r *Run) stackTrace() string {
	var b strings.Builder
	n := 0
	for fr := r.top; fr != nil && n < 12; fr = fr.caller {
		pos := "?"
		if fr.cur != nil {
			p := r.p.fset.Position(fr.cur.Pos())
			pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
		}
		fmt.Fprintf(&b, "  %s (%s)\n", fr.fi.name, pos)
		n++
	}
	return b.String()
}

func (fr *Frame) get(o *opnd) V {
	switch o.k {
	case okReg:
		return fr.regs[o.i]
	case okConst:
		return o.c
	case okGlobal:
		return V{p: fr.r.global(o.g, o.i)}
	}
	return V{}
}

func (r *Run) global(g *ssa.Global, i int) *V {
	if i < len(r.globals) && r.globals[i] != nil {
		return r.globals[i]
	}
	for len(r.globals) <= i {
		r.globals = append(r.globals, nil)
	}
	pkg := g.Package()
	std := !isRepoPkg(pkg.Pkg.Path())
	if std {
		w := r.w
		if c, ok := w.stdGlobals[g]; ok {
			r.globals[i] = c
			return c
		}
		first := !w.stdDone[pkg]
		w.stdInit(r, pkg)
		if first && pkg.Pkg.Path() == "time" {
			r.timeGlobals(pkg)
		}
		if first && pkg.Pkg.Path() == "os" {
			for _, name := range []string{"Stdout", "Stderr", "Stdin"} {
				nv := newFileVal(&fhandle{std: strings.ToLower(name), f: &vfile{path: "/dev/" + strings.ToLower(name)}})
				w.stdGlobals[pkg.Var(name)] = &nv
			}
			if r.p.pkgs["io/fs"] != nil {
				for _, name := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
					nv := *r.stdGlobal("io/fs", name)
					w.stdGlobals[pkg.Var(name)] = &nv
				}
			}
		}
		c, ok := w.stdGlobals[g]
		if !ok {
			nv := zero(g.Type().(*types.Pointer).Elem())
			c = &nv
			w.stdGlobals[g] = c
		}
		r.globals[i] = c
		return c
	}
	nv := zero(g.Type().(*types.Pointer).Elem())
	r.globals[i] = &nv
	return &nv
}

// stdInit runs the variable initialisers of a library package once per worker.
func (w *Worker) stdInit(r *Run, pkg *ssa.Package) {
	if w.stdDone[pkg] {
		return
	}
	w.stdDone[pkg] = true
	r.p.ensureBuilt(pkg)
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			nv := zero(g.Type().(*types.Pointer).Elem())
			w.stdGlobals[g] = &nv
		}
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	// run without step accounting
	steps := r.steps
	r.initDepth++
	func() {
		defer func() {
			if e := recover(); e != nil {
				if pe, ok := e.(pathEnd); ok {
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "std init of", pkg.Pkg.Path(), "stopped:", pe.msg)
					}
					return
				}
				if _, ok := e.(targetPanic); ok {
					return
				}
				panic(e)
			}
		}()
		r.call(init, nil, nil)
	}()
	r.initDepth--
	r.steps = steps
}

func (r *Run) callValue(fn V, args []V) V {
	switch f := fn.p.(type) {
	case *ssa.Function:
		return r.call(f, args, nil)
	case *Closure:
		return r.call(f.fn, args, f.free)
	case *ssa.Builtin:
		return r.builtin(f, args, nil)
	case nil:
		r.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call of %T", fn.p))
}

// rtPanic raises a Go run-time panic.
func (r *Run) rtPanic(msg string) {
	panic(targetPanic{V{p: Iface{r.p.rtErr, V{p: msg}}}})
}

func (r *Run) call(fn *ssa.Function, args []V, free []V) V {
	fi := r.p.info(fn)
	if fi.intr != nil {
		v, ok := fi.intr(r, fn, args)
		if ok {
			return v
		}
	}
	if fi.blocks == nil {
		if fn.Name() == "init" {
			return V{}
		}
		if fi.intr != nil {
			// intrinsic declined: compile the body
			fi = r.p.body(fn)
		}
		if fi.blocks == nil {
			r.unsupported("no body for %s", fi.name)
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Package() != nil {
		if r.top != nil && r.top.fi.fn.Name() == "init" && fn.Package() != r.top.fi.fn.Package() {
			// import initialisation: repository packages only, in order
			if !isRepoPkg(fn.Package().Pkg.Path()) {
				return V{}
			}
		}
	}
	r.depth++
	if r.depth > 4000 {
		panic(pathEnd{"limit", "call depth at " + r.where()})
	}
	fr := &Frame{r: r, fi: fi, caller: r.top, regs: make([]V, fi.nregs), depth: r.depth}
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.free {
		fr.regs[p] = free[i]
	}
	r.top = fr
	if fi.repo {
		r.w.hit(fi)
	}
	if fi.hasDef {
		r.runDeferFrame(fr)
	} else {
		fr.run()
	}
	r.top = fr.caller
	r.depth--
	return fr.result
}

func (r *Run) runDeferFrame(fr *Frame) {
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			tp, ok := e.(targetPanic)
			if !ok {
				panic(e)
			}
			r.top = fr
			r.depth = fr.depth
			fr.panicking = true
			fr.panicVal = tp.v
			fr.runDefers()
			if fr.panicking {
				panic(targetPanic{fr.panicVal})
			}
			// recovered: run the recover block if there is one
			if fr.fi.recover >= 0 {
				fr.block = fr.fi.recover
				fr.prev = -1
				fr.run()
			} else {
				fr.result = zero(fr.fi.fn.Signature.Results())
				if fr.fi.fn.Signature.Results().Len() == 1 {
					fr.result = zero(fr.fi.fn.Signature.Results().At(0).Type())
				}
			}
		}()
		fr.run()
	}()
}

func (fr *Frame) runDefers() {
	r := fr.r
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				e := recover()
				if e == nil {
					return
				}
				tp, ok := e.(targetPanic)
				if !ok {
					panic(e)
				}
				r.top = fr
				r.depth = fr.depth
				fr.panicking = true
				fr.panicVal = tp.v
			}()
			d()
		}()
	}
}

func (fr *Frame) run() {
	r := fr.r
	for {
		b := fr.fi.blocks[fr.block]
		if len(b.phis) > 0 {
			ssab := fr.fi.fn.Blocks[fr.block]
			pi := -1
			for i, p := range ssab.Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				ph := &b.phis[0]
				fr.regs[ph.dst] = fr.get(&ph.o[pi])
			} else {
				var tmp [8]V
				vals := tmp[:0]
				for i := range b.phis {
					vals = append(vals, fr.get(&b.phis[i].o[pi]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = vals[i]
				}
			}
		}
		r.steps += int64(len(b.insts))
		if r.steps > r.stepLimit {
			if r.initDepth == 0 {
				panic(pathEnd{"limit", "step limit at " + r.where()})
			} else if r.steps > r.stepLimit+20000000 {
				panic(pathEnd{"unsupported", "init too long"})
			}
		}
		if r.steps > r.nextTick {
			r.tick()
		}
		next := -1
		for i := range b.insts {
			in := &b.insts[i]
			switch x := in.in.(type) {
			case *ssa.Jump:
				next = b.succ[0]
			case *ssa.If:
				fr.cur = x
				c := fr.get(&in.o[0])
				if r.truth(c) {
					next = b.succ[0]
				} else {
					next = b.succ[1]
				}
			case *ssa.Return:
				switch len(in.o) {
				case 0:
				case 1:
					fr.result = fr.get(&in.o[0])
				default:
					t := make(Tuple, len(in.o))
					for j := range in.o {
						t[j] = fr.get(&in.o[j])
					}
					fr.result = V{p: t}
				}
				return
			default:
				fr.exec(in)
			}
		}
		fr.prev = fr.block
		fr.block = next
		if next < 0 {
			panic(fmt.Sprintf("fell off block in %s", fr.fi.name))
		}
	}
}

func (r *Run) truth(c V) bool {
	if c.t == nil {
		return c.k == 1
	}
	return r.branch(c.t)
}

// T gives the term of a scalar of width w.
func (r *Run) T(v V, w uint8) *Term {
	if v.t != nil {
		return v.t
	}
	return r.c.Const(w, v.k)
}

func tv(t *Term) V {
	if t.isConst() {
		return V{k: t.k}
	}
	return V{t: t}
}

func floatV(f float64, w uint8) V {
	if w == 32 {
		return V{k: uint64(math.Float32bits(float32(f)))}
	}
	return V{k: math.Float64bits(f)}
}
func vFloat(v V, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v.k)))
	}
	return math.Float64frombits(v.k)
}

func vBool(b bool) V { return V{k: b2u(b)} }

func (fr *Frame) exec(in *inst) {
	r := fr.r
	switch x := in.in.(type) {
	case *ssa.BinOp:
		fr.cur = x
		fr.regs[in.dst] = r.binop(x.Op, in, fr.get(&in.o[0]), fr.get(&in.o[1]))
	case *ssa.UnOp:
		fr.cur = x
		v := fr.get(&in.o[0])
		switch x.Op {
		case token.MUL:
			fr.regs[in.dst] = r.load(v)
		case token.NOT:
			if v.t != nil {
				fr.regs[in.dst] = tv(r.c.Not(v.t))
			} else {
				fr.regs[in.dst] = V{k: v.k ^ 1}
			}
		case token.SUB:
			if in.kd.float {
				if v.t != nil {
					w := in.kd.w
					fr.regs[in.dst] = tv(r.c.BXor(v.t, r.c.Const(w, 1<<(w-1))))
				} else {
					fr.regs[in.dst] = floatV(-vFloat(v, in.kd.w), in.kd.w)
				}
			} else if v.t != nil {
				fr.regs[in.dst] = tv(r.c.Neg(v.t))
			} else {
				fr.regs[in.dst] = V{k: -v.k & mask(in.kd.w)}
			}
		case token.XOR:
			if v.t != nil {
				fr.regs[in.dst] = tv(r.c.BNot(v.t))
			} else {
				fr.regs[in.dst] = V{k: ^v.k & mask(in.kd.w)}
			}
		default:
			r.unsupported("unop %s", x.Op)
		}
	case *ssa.Alloc:
		nv := zero(x.Type().(*types.Pointer).Elem())
		fr.regs[in.dst] = V{p: &nv}
	case *ssa.Store:
		fr.cur = x
		r.store(fr.get(&in.o[0]), fr.get(&in.o[1]))
	case *ssa.FieldAddr:
		fr.cur = x
		p := fr.get(&in.o[0])
		s := r.structOf(p)
		fr.regs[in.dst] = V{p: &s.f[x.Field]}
	case *ssa.Field:
		fr.regs[in.dst] = fr.get(&in.o[0]).p.(*Struct).f[x.Field]
	case *ssa.IndexAddr:
		fr.cur = x
		fr.regs[in.dst] = r.indexAddr(in, fr.get(&in.o[0]), fr.get(&in.o[1]))
	case *ssa.Index:
		fr.cur = x
		v := fr.get(&in.o[0])
		idx := r.ext64(fr.get(&in.o[1]), in.kd)
		if in.typ != nil {
			if _, ok := in.typ.(*types.Basic); ok {
				fr.regs[in.dst] = r.strIndex(v, idx)
				return
			}
		}
		a := v.p.(*Arr)
		r.boundsCheck(idx, V{k: uint64(a.n)})
		fr.regs[in.dst] = r.arrGet(a, idx)
	case *ssa.Lookup:
		fr.cur = x
		v := fr.get(&in.o[0])
		key := fr.get(&in.o[1])
		if _, ok := in.typ.(*types.Basic); ok {
			fr.regs[in.dst] = r.strIndex(v, r.ext64(key, in.kd))
			return
		}
		mt := in.typ.(*types.Map)
		var e *MapEnt
		if m, _ := v.p.(*MapV); m != nil {
			e = r.mapFind(m, key, mt.Key())
		}
		var val V
		if e != nil {
			val = copyVal(e.v)
		} else {
			val = zero(mt.Elem())
		}
		if x.CommaOk {
			fr.regs[in.dst] = V{p: Tuple{val, vBool(e != nil)}}
		} else {
			fr.regs[in.dst] = val
		}
	case *ssa.MapUpdate:
		fr.cur = x
		m, _ := fr.get(&in.o[0]).p.(*MapV)
		if m == nil {
			panic(targetPanic{V{p: Iface{r.p.rtErr, V{p: "assignment to entry in nil map"}}}})
		}
		mt := x.Map.Type().Underlying().(*types.Map)
		r.mapSet(m, fr.get(&in.o[1]), fr.get(&in.o[2]), mt.Key())
	case *ssa.MakeMap:
		fr.regs[in.dst] = V{p: &MapV{idx: map[any]*MapEnt{}, repo: fr.fi.repo}}
	case *ssa.MakeSlice:
		fr.cur = x
		n := r.ext64(fr.get(&in.o[0]), in.kd)
		cp := r.ext64(fr.get(&in.o[1]), kindOf(x.Cap.Type()))
		nn := int64(r.concretize(n, 64, "make"))
		cc := int64(r.concretize(cp, 64, "make"))
		if nn < 0 || nn > 1<<40 {
			r.rtPanic("makeslice: len out of range")
		}
		if cc < nn || cc > 1<<40 {
			r.rtPanic("makeslice: cap out of range")
		}
		if cc > 1<<28 {
			panic(pathEnd{"limit", fmt.Sprintf("allocation of %d elements at %s", cc, r.where())})
		}
		a := newArr(x.Type().Underlying().(*types.Slice).Elem(), int(cc))
		r.steps += cc / 64
		fr.regs[in.dst] = V{p: &Slice{arr: a, ln: nn, cp: cc}}
	case *ssa.Slice:
		fr.cur = x
		fr.regs[in.dst] = r.slice(in, x, fr.get(&in.o[0]), fr.opt(&in.o[1], x.Low), fr.opt(&in.o[2], x.High), fr.opt(&in.o[3], x.Max))
	case *ssa.Call:
		fr.cur = x
		fr.regs[in.dst] = fr.callCommon(&x.Call, in)
	case *ssa.Defer:
		fn, args := fr.prepareCall(&x.Call, in)
		fr.defers = append(fr.defers, func() {
			if b, ok := fn.p.(*ssa.Builtin); ok {
				r.builtin(b, args, fr)
				return
			}
			r.callValue(fn, args)
		})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicking {
			v := fr.panicVal
			panic(targetPanic{v})
		}
	case *ssa.Panic:
		fr.cur = x
		panic(targetPanic{fr.get(&in.o[0])})
	case *ssa.MakeInterface:
		v := fr.get(&in.o[0])
		fr.regs[in.dst] = V{p: Iface{x.X.Type(), copyVal(v)}}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[in.dst] = fr.get(&in.o[0])
	case *ssa.Convert:
		fr.cur = x
		fr.regs[in.dst] = r.convert(in, x, fr.get(&in.o[0]))
	case *ssa.MultiConvert:
		fr.cur = x
		r.unsupported("multiconvert")
	case *ssa.Extract:
		fr.regs[in.dst] = fr.get(&in.o[0]).p.(Tuple)[x.Index]
	case *ssa.TypeAssert:
		fr.cur = x
		fr.regs[in.dst] = r.typeAssert(x, fr.get(&in.o[0]))
	case *ssa.MakeClosure:
		var free []V
		for i := 1; i < len(in.o); i++ {
			free = append(free, fr.get(&in.o[i]))
		}
		fr.regs[in.dst] = V{p: &Closure{fn: x.Fn.(*ssa.Function), free: free}}
	case *ssa.Range:
		v := fr.get(&in.o[0])
		switch x.X.Type().Underlying().(type) {
		case *types.Map:
			m, _ := v.p.(*MapV)
			it := &MapIter{m: m}
			if m != nil && r.mapOrder && m.repo && m.n > 1 {
				for _, e := range m.ents {
					if !e.dead {
						it.todo = append(it.todo, e)
					}
				}
			}
			fr.regs[in.dst] = V{p: it}
		default:
			if r.mayExpand(v) {
				if r.item.explicit {
					v = r.plain(v)
				} else if !r.ranged {
					// one step per number, as long as positions do not matter
					r.ranged, r.rangedAt = true, len(r.dec)
				}
			}
			fr.regs[in.dst] = V{p: &StrIter{s: v}}
		}
	case *ssa.Next:
		fr.cur = x
		switch it := fr.get(&in.o[0]).p.(type) {
		case *MapIter:
			fr.regs[in.dst] = r.mapNext(it, x)
		case *StrIter:
			fr.regs[in.dst] = r.strNext(it)
		}
	case *ssa.Go:
		r.unsupported("go statement")
	case *ssa.SliceToArrayPointer:
		fr.cur = x
		v := fr.get(&in.o[0])
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		s, _ := v.p.(*Slice)
		if s == nil {
			if n == 0 {
				fr.regs[in.dst] = V{}
				return
			}
			r.rtPanic("cannot convert slice with length 0 to array")
		}
		r.concSlice(s)
		if s.ln < n {
			r.rtPanic("cannot convert slice to array: too short")
		}
		if s.off == 0 && int64(s.arr.n) == n {
			fr.regs[in.dst] = V{p: &V{p: s.arr}}
			return
		}
		// read-only view
		a := newArr(s.arr.elem, int(n))
		for i := int64(0); i < n; i++ {
			a.set(i, s.arr.get(s.off+i))
		}
		fr.regs[in.dst] = V{p: &V{p: a}}
	case *ssa.DebugRef:
	default:
		r.unsupported("instruction %T", x)
	}
}

func (fr *Frame) opt(o *opnd, v ssa.Value) *V {
	if v == nil {
		return nil
	}
	x := fr.get(o)
	x = fr.r.ext64(x, kindOf(v.Type()))
	return &x
}

// ext64 widens an integer to 64 bits (sign or zero extension).
func (r *Run) ext64(v V, k kind) V {
	if v.t != nil {
		if k.w == 64 || k.w == 0 {
			return v
		}
		if k.signed {
			return tv(r.c.Sext(v.t, 64))
		}
		return tv(r.c.Zext(v.t, 64))
	}
	if k.signed {
		return V{k: uint64(sx(v.k, k.w))}
	}
	return v
}

func (r *Run) structOf(p V) *Struct {
	switch c := p.p.(type) {
	case *V:
		return c.p.(*Struct)
	case ElemPtr:
		e := r.elemCell(c)
		return e.p.(*Struct)
	case nil:
		r.rtPanic("invalid memory address or nil pointer dereference")
	}
	r.unsupported("field of %T", p.p)
	return nil
}

func (r *Run) elemCell(c ElemPtr) *V {
	i := c.i
	if c.t != nil {
		i = int64(r.concretize(V{t: c.t}, 64, "element"))
	}
	if c.arr.isB {
		r.unsupported("cell of byte array")
	}
	return &c.arr.v[i]
}

func (r *Run) load(p V) V {
	switch c := p.p.(type) {
	case *V:
		return copyVal(*c)
	case ElemPtr:
		if c.t != nil {
			return r.arrGet(c.arr, V{t: c.t})
		}
		return c.arr.get(c.i)
	case nil:
		r.rtPanic("invalid memory address or nil pointer dereference")
	}
	r.unsupported("load through %T", p.p)
	return V{}
}

func (r *Run) store(p V, v V) {
	switch c := p.p.(type) {
	case *V:
		storeInto(c, v)
		return
	case ElemPtr:
		i := c.i
		if c.t != nil {
			if c.arr.isB && c.arr.n <= 256 {
				// write under a symbolic index
				for j := 0; j < c.arr.n; j++ {
					cond := r.c.Eq(c.t, r.c.Const(64, uint64(j)))
					c.arr.set(int64(j), tv(r.c.Ite(cond, r.T(v, 8), r.T(c.arr.get(int64(j)), 8))))
				}
				return
			}
			i = int64(r.concretize(V{t: c.t}, 64, "store index"))
		}
		c.arr.set(i, v)
		return
	case nil:
		r.rtPanic("invalid memory address or nil pointer dereference")
	}
	r.unsupported("store through %T", p.p)
}

func (r *Run) valText(v V) string {
	if v.t != nil {
		return fmt.Sprint(int64(r.eval(v.t)))
	}
	return fmt.Sprint(int64(v.k))
}

func (r *Run) boundsCheck(idx, n V) {
	if idx.t == nil && n.t == nil {
		if idx.k < n.k && int64(idx.k) >= 0 {
			return
		}
	} else if r.branch(r.c.Ult(r.T(idx, 64), r.T(n, 64))) {
		return
	}
	r.rtPanic(fmt.Sprintf("index out of range [%s] with length %s", r.valText(idx), r.valText(n)))
}

func (r *Run) indexAddr(in *inst, x, iv V) V {
	idx := r.ext64(iv, in.kd)
	switch a := x.p.(type) {
	case *Slice:
		r.boundsCheck(idx, V{k: uint64(a.ln), t: a.lnT})
		if idx.t == nil && a.offT == nil {
			i := a.off + int64(idx.k)
			if a.arr.isB {
				return V{p: ElemPtr{arr: a.arr, i: i}}
			}
			return V{p: &a.arr.v[i]}
		}
		t := r.c.Add(r.T(V{k: uint64(a.off), t: a.offT}, 64), r.T(idx, 64))
		if t.isConst() {
			if a.arr.isB {
				return V{p: ElemPtr{arr: a.arr, i: int64(t.k)}}
			}
			return V{p: &a.arr.v[t.k]}
		}
		return V{p: ElemPtr{arr: a.arr, t: t}}
	case *V: // pointer to array
		ar := a.p.(*Arr)
		r.boundsCheck(idx, V{k: uint64(ar.n)})
		if idx.t != nil {
			return V{p: ElemPtr{arr: ar, t: idx.t}}
		}
		if ar.isB {
			return V{p: ElemPtr{arr: ar, i: int64(idx.k)}}
		}
		return V{p: &ar.v[idx.k]}
	case nil:
		if _, ok := in.typ.(*types.Pointer); ok {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		r.boundsCheck(idx, V{k: 0})
	}
	r.unsupported("index of %T", x.p)
	return V{}
}

// arrGet reads element idx (in range) of a.
func (r *Run) arrGet(a *Arr, idx V) V {
	if idx.t == nil {
		return a.get(int64(idx.k))
	}
	if !a.isB {
		ok := a.n > 0 && a.n <= 512
		var w uint8
		if ok {
			k := kindOf(a.elem)
			ok = k.scalar
			w = k.w
		}
		if ok {
			res := r.T(a.v[a.n-1], w)
			for i := a.n - 2; i >= 0; i-- {
				res = r.c.Ite(r.c.Eq(idx.t, r.c.Const(64, uint64(i))), r.T(a.v[i], w), res)
			}
			return tv(res)
		}
		return a.get(int64(r.indexClass(a, idx)))
	}
	return tv(r.selectByte(a, idx.t))
}

// indexClass picks an index for a table whose elements are no numbers. Indexes of
// identical elements are not told apart.
func (r *Run) indexClass(a *Arr, idx V) uint64 {
	type class struct {
		p any
		k uint64
	}
	n := map[class]int{}
	first := map[class]int{}
	var order []class
	of := make([]class, a.n)
	for i := 0; i < a.n; i++ {
		e := a.v[i]
		switch e.p.(type) {
		case nil, *V, string, *ssa.Function, *Closure:
		case *Slice:
		default:
			return r.concretize(idx, 64, "index")
		}
		if e.t != nil || a.n > 1024 {
			return r.concretize(idx, 64, "index")
		}
		cl := class{e.p, e.k}
		of[i] = cl
		if n[cl] == 0 {
			first[cl] = i
			order = append(order, cl)
		}
		n[cl]++
	}
	if len(order) > a.n/2 {
		return r.concretize(idx, 64, "index")
	}
	// the biggest class is what remains
	big := order[0]
	for _, cl := range order {
		if n[cl] > n[big] {
			big = cl
		}
	}
	for _, cl := range order {
		if cl == big {
			continue
		}
		cond := r.c.F
		for i := range of {
			if of[i] == cl {
				cond = r.c.Or(cond, r.c.Eq(idx.t, r.c.Const(64, uint64(i))))
			}
		}
		if r.branch(cond) {
			return uint64(first[cl])
		}
	}
	return uint64(first[big])
}

// selectByte builds an if-then-else tree over the bits of the index.
func (r *Run) selectByte(a *Arr, idx *Term) *Term {
	type key struct {
		a *Arr
		t *Term
	}
	n := a.n
	nb := bits.Len(uint(n - 1))
	if n <= 1 {
		return r.T(a.get(0), 8)
	}
	lo := bits.TrailingZeros64(idx.mb)
	_ = lo
	var rec func(base, bit int) *Term
	rec = func(base, bit int) *Term {
		if base >= n {
			return nil
		}
		if bit == 0 {
			return r.T(a.get(int64(base)), 8)
		}
		if a.s == nil && bit <= 6 {
			// uniform concrete block
			hi := min(base+1<<bit, n)
			b0 := a.bytes[base]
			same := true
			for i := base + 1; i < hi; i++ {
				if a.bytes[i] != b0 {
					same = false
					break
				}
			}
			if same {
				return r.c.bytes[b0]
			}
		}
		half := 1 << (bit - 1)
		var h *Term
		if idx.mb>>(bit-1)&1 == 1 {
			if uint64(base+half) <= idx.umax {
				h = rec(base+half, bit-1)
			}
		}
		l := rec(base, bit-1)
		if h == nil {
			return l
		}
		if l == nil {
			return h
		}
		if h == l {
			return l
		}
		return r.c.Ite(r.c.Eq(r.c.Extract(idx, uint8(bit-1), uint8(bit-1)), r.c.Const(1, 1)), h, l)
	}
	return rec(0, nb)
}

// plain makes the digits of formatted numbers explicit where the code under
// test looks at lengths and positions. (Harness and library code see one
// character per number.)
func (r *Run) plain(v V) V {
	if !r.mayExpand(v) {
		return v
	}
	if r.ranged && !r.item.explicit {
		// an earlier loop over a text took numbers as one step: redo the path
		// from there with all digits explicit
		r.redoExplicit()
	}
	return mkStr(r.expandAtoms(v.p.(*SymStr).b))
}

func (r *Run) mayExpand(v V) bool {
	s, ok := v.p.(*SymStr)
	return ok && r.top != nil && r.top.fi.repo && !r.top.fi.harness && r.hasAtom(s.b)
}

func (r *Run) firstAtom(v V) int {
	for i, t := range v.p.(*SymStr).b {
		if r.atomOf(t) != nil {
			return i
		}
	}
	return -1
}

func (r *Run) redoExplicit() {
	p := append([]Decision(nil), r.prefix...)
	if r.rangedAt >= len(p) {
		p = append([]Decision(nil), r.dec[:r.rangedAt]...)
	} else {
		p = p[:r.rangedAt]
	}
	key := fmt.Sprint(p)
	r.h.mu.Lock()
	if r.h.redone == nil {
		r.h.redone = map[string]bool{}
	}
	done := r.h.redone[key]
	r.h.redone[key] = true
	r.h.mu.Unlock()
	if !done {
		r.w.ex.push(r.w, &Item{h: r.h, prefix: p, model: append(Model(nil), r.model...), explicit: true})
	}
	panic(pathEnd{"assume", "redone"})
}

func (r *Run) strIndex(v V, idx V) V {
	v = r.plain(v)
	n := strLen(v)
	r.boundsCheck(idx, V{k: uint64(n)})
	if idx.t == nil {
		switch s := v.p.(type) {
		case string:
			return V{k: uint64(s[idx.k])}
		case *SymStr:
			return tv(s.b[idx.k])
		}
	}
	b := r.c.strBytes(v)
	res := b[n-1]
	for i := n - 2; i >= 0; i-- {
		res = r.c.Ite(r.c.Eq(idx.t, r.c.Const(64, uint64(i))), b[i], res)
	}
	return tv(res)
}

func (r *Run) concSlice(s *Slice) {
	if s.lnT != nil {
		s.ln = int64(r.concretize(V{t: s.lnT}, 64, "slice length"))
		s.lnT = nil
	}
	if s.cpT != nil {
		s.cp = int64(r.concretize(V{t: s.cpT}, 64, "slice capacity"))
		s.cpT = nil
	}
	if s.offT != nil {
		s.off = int64(r.concretize(V{t: s.offT}, 64, "slice offset"))
		s.offT = nil
	}
}

// sliceBytes gives the bytes of a []byte value (the length is made concrete).
func (r *Run) sliceBytes(v V) []*Term {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	n := s.ln
	if s.lnT != nil {
		n = int64(r.concretize(V{t: s.lnT}, 64, "slice length"))
	}
	out := make([]*Term, n)
	for i := int64(0); i < n; i++ {
		if s.offT != nil {
			out[i] = r.selectByte(s.arr, r.c.Add(s.offT, r.c.Const(64, uint64(i))))
		} else if s.arr.isB && s.arr.s == nil {
			out[i] = r.c.bytes[s.arr.bytes[s.off+i]]
		} else {
			out[i] = r.T(s.arr.get(s.off+i), 8)
		}
	}
	return out
}

func (r *Run) bytesSlice(b []*Term) V {
	a := &Arr{n: len(b), isB: true, bytes: make([]byte, len(b)), elem: types.Typ[types.Uint8]}
	for i, t := range b {
		if t.isConst() {
			a.bytes[i] = byte(t.k)
		} else {
			if a.s == nil {
				a.s = make([]*Term, len(b))
			}
			a.s[i] = t
		}
	}
	return V{p: &Slice{arr: a, ln: int64(len(b)), cp: int64(len(b))}}
}

func (r *Run) slice(in *inst, x *ssa.Slice, v V, lo, hi, mx *V) V {
	c := r.c
	if b, ok := in.typ.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if hi == nil && lo != nil && lo.t == nil && r.mayExpand(v) && int(lo.k) <= r.firstAtom(v) {
			// a tail that starts before the first number
			return c.strSub(v, int(lo.k), strLen(v))
		}
		v = r.plain(v)
		n := strLen(v)
		l, h := V{k: 0}, V{k: uint64(n)}
		if lo != nil {
			l = *lo
		}
		if hi != nil {
			h = *hi
		}
		okc := c.And(c.Ule(r.T(l, 64), r.T(h, 64)), c.Ule(r.T(h, 64), c.Const(64, uint64(n))))
		if !r.truth(tv(okc)) {
			r.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with length %d", r.valText(l), r.valText(h), n))
		}
		li := int(r.concretize(l, 64, "string slice"))
		hi := int(r.concretize(h, 64, "string slice"))
		return c.strSub(v, li, hi)
	}
	var s *Slice
	switch p := v.p.(type) {
	case *Slice:
		s = p
	case *V:
		a, ok := p.p.(*Arr)
		if !ok {
			r.unsupported("slice of pointer to %T", p.p)
		}
		s = &Slice{arr: a, ln: int64(a.n), cp: int64(a.n)}
	case nil:
		if _, ok := in.typ.(*types.Pointer); ok {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = &Slice{}
	default:
		r.unsupported("slice of %T", v.p)
	}
	// concrete fast path
	if s.offT == nil && s.lnT == nil && s.cpT == nil && (lo == nil || lo.t == nil) && (hi == nil || hi.t == nil) && (mx == nil || mx.t == nil) {
		l, h, m := int64(0), s.ln, s.cp
		if lo != nil {
			l = int64(lo.k)
		}
		if hi != nil {
			h = int64(hi.k)
		}
		if mx != nil {
			m = int64(mx.k)
		}
		if l < 0 || h < l || m < h || m > s.cp {
			r.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, s.cp))
		}
		if v.p == nil {
			return V{}
		}
		return V{p: &Slice{arr: s.arr, off: s.off + l, ln: h - l, cp: m - l}}
	}
	T := func(k int64, t *Term) *Term {
		if t != nil {
			return t
		}
		return c.Const(64, uint64(k))
	}
	l, h, m := c.Const(64, 0), T(s.ln, s.lnT), T(s.cp, s.cpT)
	if lo != nil {
		l = r.T(*lo, 64)
	}
	if hi != nil {
		h = r.T(*hi, 64)
	}
	if mx != nil {
		m = r.T(*mx, 64)
	}
	cond := c.Ule(l, h)
	if hi != nil {
		cond = c.And(cond, c.Ule(h, m))
	}
	if mx != nil {
		cond = c.And(cond, c.Ule(m, T(s.cp, s.cpT)))
	}
	if !r.truth(tv(cond)) {
		r.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %s", r.valText(tv(l)), r.valText(tv(h)), r.valText(tv(T(s.cp, s.cpT)))))
	}
	if v.p == nil {
		return V{}
	}
	n := &Slice{arr: s.arr}
	set := func(t *Term, k *int64, d **Term) {
		if t.isConst() {
			*k = int64(t.k)
		} else {
			*d = t
		}
	}
	set(c.Add(T(s.off, s.offT), l), &n.off, &n.offT)
	set(c.Sub(h, l), &n.ln, &n.lnT)
	set(c.Sub(m, l), &n.cp, &n.cpT)
	if !s.arr.isB {
		r.concSlice(n)
	}
	return V{p: n}
}

func (fr *Frame) prepareCall(cc *ssa.CallCommon, in *inst) (V, []V) {
	r := fr.r
	v := fr.get(&in.o[0])
	if cc.IsInvoke() {
		ifc, ok := v.p.(Iface)
		if !ok {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		if nat, ok := ifc.v.p.(*Native); ok {
			_ = nat
		}
		fn := r.p.lookupMethod(ifc.t, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			r.unsupported("method %s of %s", cc.Method.Name(), ifc.t)
		}
		args := make([]V, 0, len(in.o))
		args = append(args, copyVal(ifc.v))
		for i := 1; i < len(in.o); i++ {
			args = append(args, copyVal(fr.get(&in.o[i])))
		}
		return V{p: fn}, args
	}
	args := make([]V, 0, len(in.o))
	for i := 1; i < len(in.o); i++ {
		args = append(args, copyVal(fr.get(&in.o[i])))
	}
	return v, args
}

func (fr *Frame) callCommon(cc *ssa.CallCommon, in *inst) V {
	fn, args := fr.prepareCall(cc, in)
	if b, ok := fn.p.(*ssa.Builtin); ok {
		return fr.r.builtinT(b, args, fr, cc)
	}
	return fr.r.callValue(fn, args)
}

func (r *Run) builtinT(b *ssa.Builtin, args []V, fr *Frame, cc *ssa.CallCommon) V {
	switch b.Name() {
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		return r.appendSlice(st.Elem(), args[0], args[1])
	case "min", "max":
		k := kindOf(cc.Args[0].Type())
		res := args[0]
		for _, a := range args[1:] {
			if k.str || k.float {
				r.unsupported("min/max of this type")
			}
			x, y := r.T(res, k.w), r.T(a, k.w)
			var lt *Term
			if k.signed {
				lt = r.c.Slt(x, y)
			} else {
				lt = r.c.Ult(x, y)
			}
			if b.Name() == "min" {
				res = tv(r.c.Ite(lt, x, y))
			} else {
				res = tv(r.c.Ite(lt, y, x))
			}
		}
		return res
	case "delete":
		if m, _ := args[0].p.(*MapV); m != nil {
			mt := cc.Args[0].Type().Underlying().(*types.Map)
			if e := r.mapFind(m, args[1], mt.Key()); e != nil {
				e.dead = true
				m.n--
				if k, ok := mapKey(args[1]); ok {
					delete(m.idx, k)
				}
			}
		}
		return V{}
	case "clear":
		switch m := args[0].p.(type) {
		case *MapV:
			for _, e := range m.ents {
				e.dead = true
			}
			m.ents, m.idx, m.n = nil, map[any]*MapEnt{}, 0
		case *Slice:
			r.concSlice(m)
			for i := int64(0); i < m.ln; i++ {
				m.arr.set(m.off+i, zero(m.arr.elem))
			}
		}
		return V{}
	}
	return r.builtin(b, args, fr)
}

func (r *Run) builtin(b *ssa.Builtin, args []V, fr *Frame) V {
	switch b.Name() {
	case "len":
		switch x := args[0].p.(type) {
		case string, *SymStr:
			return V{k: uint64(strLen(r.plain(args[0])))}
		case *Slice:
			return V{k: uint64(x.ln), t: x.lnT}
		case *MapV:
			return V{k: uint64(x.n)}
		case *Arr:
			return V{k: uint64(x.n)}
		case *V:
			return V{k: uint64(x.p.(*Arr).n)}
		case nil:
			return V{}
		}
	case "cap":
		switch x := args[0].p.(type) {
		case *Slice:
			return V{k: uint64(x.cp), t: x.cpT}
		case *Arr:
			return V{k: uint64(x.n)}
		case nil:
			return V{}
		}
	case "copy":
		return r.copySlice(args[0], args[1])
	case "recover":
		// the caller of the deferred function
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			c := fr.caller
			c.panicking = false
			v := c.panicVal
			c.panicVal = V{}
			return v
		}
		return V{}
	case "print", "println":
		return V{}
	case "panic":
		panic(targetPanic{args[0]})
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(r.concretize(args[1], 64, "unsafe.String"))
		if n == 0 {
			return V{p: ""}
		}
		e, ok := args[0].p.(ElemPtr)
		if !ok {
			r.unsupported("unsafe.String of %T", args[0].p)
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = r.T(e.arr.get(e.i+int64(i)), 8)
		}
		return mkStr(bs)
	case "SliceData":
		s, _ := args[0].p.(*Slice)
		if s == nil {
			return V{}
		}
		r.concSlice(s)
		if s.arr.isB {
			return V{p: ElemPtr{arr: s.arr, i: s.off}}
		}
		if s.off < int64(s.arr.n) {
			return V{p: &s.arr.v[s.off]}
		}
		return V{}
	case "StringData":
		b := r.c.strBytes(args[0])
		if len(b) == 0 {
			return V{}
		}
		s := r.bytesSlice(b).p.(*Slice)
		return V{p: ElemPtr{arr: s.arr}}
	case "Slice":
		n := int64(r.concretize(args[1], 64, "unsafe.Slice"))
		if e, ok := args[0].p.(ElemPtr); ok {
			return V{p: &Slice{arr: e.arr, off: e.i, ln: n, cp: n}}
		}
		if args[0].p == nil {
			return V{}
		}
	}
	r.unsupported("builtin %s %T", b.Name(), args)
	return V{}
}

func (r *Run) appendSlice(elem types.Type, a, b V) V {
	var bs []V
	switch y := b.p.(type) {
	case nil:
		return a
	case string, *SymStr:
		for _, t := range r.c.strBytes(b) {
			bs = append(bs, tv(t))
		}
	case *Slice:
		if y.arr.isB {
			for _, t := range r.sliceBytes(b) {
				bs = append(bs, tv(t))
			}
		} else {
			r.concSlice(y)
			for i := int64(0); i < y.ln; i++ {
				bs = append(bs, y.arr.get(y.off+i))
			}
		}
	}
	s, _ := a.p.(*Slice)
	if s == nil {
		s = &Slice{}
	} else if s.offT != nil || s.lnT != nil || s.cpT != nil {
		n := *s
		s = &n
		r.concSlice(s)
	}
	if len(bs) == 0 {
		return a
	}
	need := s.ln + int64(len(bs))
	if need <= s.cp {
		n := &Slice{arr: s.arr, off: s.off, ln: need, cp: s.cp}
		for i, v := range bs {
			s.arr.set(s.off+s.ln+int64(i), v)
		}
		return V{p: n}
	}
	// Go's growth policy (capacity affects aliasing)
	nc := growCap(s.cp, need, elem)
	if nc > 1<<28 {
		panic(pathEnd{"limit", "append allocation at " + r.where()})
	}
	r.steps += nc / 64
	na := newArr(elem, int(nc))
	if s.arr != nil {
		if na.isB {
			copy(na.bytes, s.arr.bytes[s.off:s.off+s.ln])
			if s.arr.s != nil {
				na.s = make([]*Term, nc)
				copy(na.s, s.arr.s[s.off:s.off+s.ln])
			}
		} else {
			for i := int64(0); i < s.ln; i++ {
				na.v[i] = copyVal(s.arr.v[s.off+i])
			}
		}
	}
	for i, v := range bs {
		na.set(s.ln+int64(i), v)
	}
	return V{p: &Slice{arr: na, ln: need, cp: nc}}
}

var sizes = types.SizesFor("gc", "amd64")

// growCap follows runtime.growslice including size-class rounding.
func growCap(oldCap, need int64, elem types.Type) int64 {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if nc < need {
		nc = need
	}
	sz := sizes.Sizeof(elem)
	if sz == 0 {
		return nc
	}
	return roundupsize(nc*sz) / sz
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64) int64 {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

func (r *Run) copySlice(dst, src V) V {
	d, _ := dst.p.(*Slice)
	if d == nil || src.p == nil {
		return V{}
	}
	var n int64
	switch s := src.p.(type) {
	case string, *SymStr:
		b := r.c.strBytes(src)
		r.concSlice(d)
		n = min(d.ln, int64(len(b)))
		for i := int64(0); i < n; i++ {
			d.arr.set(d.off+i, tv(b[i]))
		}
	case *Slice:
		dd := *d
		d = &dd
		ss := *s
		s = &ss
		if d.arr.isB && d.offT == nil && s.lnT == nil {
			// length min(d.ln, s.ln)
			if d.lnT != nil {
				d.ln = int64(r.concretize(V{t: d.lnT}, 64, "copy"))
			}
			n = min(d.ln, s.ln)
			s.ln = n
			b := r.sliceBytes(V{p: s})
			for i := int64(0); i < n; i++ {
				d.arr.set(d.off+i, tv(b[i]))
			}
			return V{k: uint64(n)}
		}
		r.concSlice(d)
		r.concSlice(s)
		n = min(d.ln, s.ln)
		tmp := make([]V, n)
		for i := range tmp {
			tmp[i] = s.arr.get(s.off + int64(i))
		}
		for i := range tmp {
			d.arr.set(d.off+int64(i), tmp[i])
		}
	default:
		r.unsupported("copy from %T", src.p)
	}
	return V{k: uint64(n)}
}

// ---- maps ----

func mapKey(v V) (any, bool) {
	if v.t != nil {
		return nil, false
	}
	switch p := v.p.(type) {
	case nil:
		return v.k, true
	case string:
		return p, true
	case *SymStr:
		return nil, false
	case Iface:
		k, ok := mapKey(p.v)
		if !ok {
			return nil, false
		}
		return [2]any{p.t.String(), k}, true
	case *Struct:
		var parts []any
		for i := range p.f {
			k, ok := mapKey(p.f[i])
			if !ok {
				return nil, false
			}
			parts = append(parts, k)
		}
		return fmt.Sprint(parts...), true
	case *V, ElemPtr, *MapV:
		return p, true
	}
	return nil, false
}

func (r *Run) mapFind(m *MapV, key V, kt types.Type) *MapEnt {
	k, ok := mapKey(key)
	if ok {
		if e := m.idx[k]; e != nil && !e.dead {
			return e
		}
		if !m.sym {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, conc := mapKey(e.k); conc {
				continue
			}
		}
		if r.truth(tv(r.equal(kt, key, e.k))) {
			return e
		}
	}
	return nil
}

func (r *Run) mapSet(m *MapV, key, val V, kt types.Type) {
	if e := r.mapFind(m, key, kt); e != nil {
		e.v = copyVal(val)
		return
	}
	e := &MapEnt{k: copyVal(key), v: copyVal(val)}
	m.ents = append(m.ents, e)
	m.n++
	if k, ok := mapKey(key); ok {
		m.idx[k] = e
	} else {
		m.sym = true
	}
}

func (r *Run) mapNext(it *MapIter, x *ssa.Next) V {
	tp := x.Type().(*types.Tuple)
	end := V{p: Tuple{vBool(false), zeroOrNil(tp.At(1).Type()), zeroOrNil(tp.At(2).Type())}}
	if it.m == nil {
		return end
	}
	if it.todo != nil || (r.mapOrder && it.m.repo && it.i < 0) {
		for len(it.todo) > 0 {
			n := len(it.todo)
			c := 0
			if n > 1 {
				c = r.choose(n, "map order")
			}
			e := it.todo[c]
			it.todo = append(append([]*MapEnt(nil), it.todo[:c]...), it.todo[c+1:]...)
			if len(it.todo) == 0 {
				it.i = -1
				it.todo = nil
				if e.dead {
					return end
				}
				it.m = &MapV{} // finished afterwards
				return V{p: Tuple{vBool(true), copyVal(e.k), copyVal(e.v)}}
			}
			if !e.dead {
				return V{p: Tuple{vBool(true), copyVal(e.k), copyVal(e.v)}}
			}
		}
		return end
	}
	for it.i >= 0 && it.i < len(it.m.ents) {
		e := it.m.ents[it.i]
		it.i++
		if !e.dead {
			return V{p: Tuple{vBool(true), copyVal(e.k), copyVal(e.v)}}
		}
	}
	return end
}

func zeroOrNil(t types.Type) V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return V{}
	}
	return zero(t)
}

// strNext decodes one rune.
func (r *Run) strNext(it *StrIter) V {
	n := strLen(it.s)
	if it.i >= n {
		return V{p: Tuple{vBool(false), V{}, V{}}}
	}
	if s, ok := it.s.p.(string); ok {
		c, w := utf8.DecodeRuneInString(s[it.i:])
		i := it.i
		it.i += w
		return V{p: Tuple{vBool(true), V{k: uint64(i)}, V{k: uint64(uint32(c))}}}
	}
	b := it.s.p.(*SymStr).b[it.i:]
	rn, w := r.decodeRune(b)
	i := it.i
	it.i += w
	return V{p: Tuple{vBool(true), V{k: uint64(i)}, tv(rn)}}
}

func (r *Run) decodeRune(b []*Term) (*Term, int) {
	c := r.c
	b0 := b[0]
	if b0.isConst() {
		// concrete prefix
		var x []byte
		for i := 0; i < len(b) && i < 4 && b[i].isConst(); i++ {
			x = append(x, byte(b[i].k))
		}
		if utf8.FullRune(x) || len(x) == len(b) {
			rn, w := utf8.DecodeRune(x)
			return c.Const(32, uint64(uint32(rn))), w
		}
	}
	cc := func(v uint64) *Term { return c.Const(8, v) }
	if r.branch(c.Ult(b0, cc(0x80))) {
		return c.Zext(b0, 32), 1
	}
	rng := func(t *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(cc(lo), t), c.Ule(t, cc(hi)))
	}
	bad := c.Const(32, utf8.RuneError)
	low := func(t *Term, n uint8) *Term { return c.Extract(t, n-1, 0) }
	z := func(parts ...*Term) *Term { return c.Zext(c.Concat(parts...), 32) }
	if len(b) >= 2 && r.branch(c.And(rng(b0, 0xC2, 0xDF), rng(b[1], 0x80, 0xBF))) {
		return z(low(b0, 5), low(b[1], 6)), 2
	}
	if len(b) >= 3 {
		first := c.Or(c.Or(c.And(c.Eq(b0, cc(0xE0)), rng(b[1], 0xA0, 0xBF)), c.And(c.Eq(b0, cc(0xED)), rng(b[1], 0x80, 0x9F))),
			c.And(c.And(rng(b0, 0xE1, 0xEF), c.Not(c.Eq(b0, cc(0xED)))), rng(b[1], 0x80, 0xBF)))
		if r.branch(c.And(first, rng(b[2], 0x80, 0xBF))) {
			return z(low(b0, 4), low(b[1], 6), low(b[2], 6)), 3
		}
	}
	if len(b) >= 4 {
		first := c.Or(c.Or(c.And(c.Eq(b0, cc(0xF0)), rng(b[1], 0x90, 0xBF)), c.And(c.Eq(b0, cc(0xF4)), rng(b[1], 0x80, 0x8F))),
			c.And(rng(b0, 0xF1, 0xF3), rng(b[1], 0x80, 0xBF)))
		if r.branch(c.And(first, c.And(rng(b[2], 0x80, 0xBF), rng(b[3], 0x80, 0xBF)))) {
			return z(low(b0, 3), low(b[1], 6), low(b[2], 6), low(b[3], 6)), 4
		}
	}
	return bad, 1
}

// ---- type assertions, equality, operators ----

func (r *Run) typeAssert(x *ssa.TypeAssert, v V) V {
	ifc, ok := v.p.(Iface)
	good := false
	var res V
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if ok && (it.Empty() || r.p.implements(ifc.t, it)) {
			good = true
			res = v
		}
	} else if ok && types.Identical(ifc.t, x.AssertedType) {
		good = true
		res = copyVal(ifc.v)
	}
	if x.CommaOk {
		if !good {
			res = zero(x.AssertedType)
		}
		return V{p: Tuple{res, vBool(good)}}
	}
	if !good {
		have := "nil"
		if ok {
			have = ifc.t.String()
		}
		r.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, x.AssertedType))
	}
	return res
}

// equal compares two values of static type t.
func (r *Run) equal(t types.Type, a, b V) *Term {
	c := r.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(u)
		if k.str {
			return r.strEq(a, b)
		}
		if k.scalar {
			if k.float && (a.t != nil || b.t != nil) {
				return r.floatEq(a, b, k.w)
			}
			if k.float {
				return c.Bool(vFloat(a, k.w) == vFloat(b, k.w))
			}
			return c.Eq(r.T(a, k.w), r.T(b, k.w))
		}
		return c.Bool(a.p == b.p)
	case *types.Interface:
		x, ok1 := a.p.(Iface)
		y, ok2 := b.p.(Iface)
		if !ok1 || !ok2 {
			return c.Bool(ok1 == ok2)
		}
		if !types.Identical(x.t, y.t) {
			return c.F
		}
		if !types.Comparable(x.t) {
			r.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return r.equal(x.t, x.v, y.v)
	case *types.Struct:
		x, y := a.p.(*Struct), b.p.(*Struct)
		res := c.T
		for i := range x.f {
			if u.Field(i).Name() == "_" {
				continue
			}
			res = c.And(res, r.equal(u.Field(i).Type(), x.f[i], y.f[i]))
		}
		return res
	case *types.Array:
		x, y := a.p.(*Arr), b.p.(*Arr)
		res := c.T
		for i := 0; i < x.n; i++ {
			res = c.And(res, r.equal(u.Elem(), x.get(int64(i)), y.get(int64(i))))
		}
		return res
	case *types.Slice, *types.Map, *types.Signature:
		return c.Bool((a.p == nil) == (b.p == nil) && (a.p == nil || a.p == b.p))
	}
	return c.Bool(a.p == b.p)
}

// isNaN of the bits of a float.
func (r *Run) isNaN(t *Term, w uint8) *Term {
	c := r.c
	man := uint8(52)
	if w == 32 {
		man = 23
	}
	exp := c.Extract(t, w-2, man)
	return c.And(c.Eq(exp, c.Const(exp.w, mask(exp.w))), c.Not(c.Eq(c.Extract(t, man-1, 0), c.Const(man, 0))))
}

func (r *Run) floatLess(a, b V, w uint8) *Term {
	c := r.c
	x, y := r.T(a, w), r.T(b, w)
	top := c.Const(w, 1<<(w-1))
	key := func(t *Term) *Term {
		return c.Ite(c.Eq(c.Extract(t, w-1, w-1), c.Const(1, 1)), c.BNot(t), c.Add(t, top))
	}
	zz := func(t *Term) *Term { return c.Eq(c.Extract(t, w-2, 0), c.Const(w-1, 0)) }
	return c.And(c.And(c.Not(r.isNaN(x, w)), c.Not(r.isNaN(y, w))), c.And(c.Not(c.And(zz(x), zz(y))), c.Ult(key(x), key(y))))
}

func (r *Run) floatEq(a, b V, w uint8) *Term {
	c := r.c
	x, y := r.T(a, w), r.T(b, w)
	nan := func(t *Term) *Term { return r.isNaN(t, w) }
	zz := func(t *Term) *Term { return c.Eq(c.Extract(t, w-2, 0), c.Const(w-1, 0)) }
	return c.And(c.And(c.Not(nan(x)), c.Not(nan(y))), c.Or(c.Eq(x, y), c.And(zz(x), zz(y))))
}

func (r *Run) binop(op token.Token, in *inst, a, b V) V {
	k := in.kd
	c := r.c
	switch op {
	case token.EQL, token.NEQ:
		if k.scalar && !k.float && a.t == nil && b.t == nil {
			return vBool((a.k == b.k) == (op == token.EQL))
		}
		t := r.equal(in.typ, a, b)
		if op == token.NEQ {
			t = c.Not(t)
		}
		return tv(t)
	}
	if k.str {
		switch op {
		case token.ADD:
			return c.strCat(a, b)
		}
		x, ok1 := isConcreteStr(a)
		y, ok2 := isConcreteStr(b)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return vBool(x < y)
			case token.LEQ:
				return vBool(x <= y)
			case token.GTR:
				return vBool(x > y)
			case token.GEQ:
				return vBool(x >= y)
			}
		}
		lt, eq := r.strLess(a, b)
		switch op {
		case token.LSS:
			return tv(lt)
		case token.LEQ:
			return tv(c.Or(lt, eq))
		case token.GTR:
			return tv(c.Not(c.Or(lt, eq)))
		case token.GEQ:
			return tv(c.Not(lt))
		}
	}
	if k.float {
		if a.t != nil || b.t != nil {
			x, y := a, b
			if op == token.GTR || op == token.GEQ {
				x, y = b, a
			}
			switch op {
			case token.LSS, token.GTR:
				return tv(r.floatLess(x, y, k.w))
			case token.LEQ, token.GEQ:
				return tv(c.Or(r.floatLess(x, y, k.w), r.floatEq(x, y, k.w)))
			}
			r.unsupported("symbolic float operation %s", op)
		}
		x, y := vFloat(a, k.w), vFloat(b, k.w)
		switch op {
		case token.ADD:
			return floatV(x+y, k.w)
		case token.SUB:
			return floatV(x-y, k.w)
		case token.MUL:
			return floatV(x*y, k.w)
		case token.QUO:
			return floatV(x/y, k.w)
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
	}
	if !k.scalar {
		r.unsupported("binop %s on %v", op, in.typ)
	}
	w := k.w
	if op == token.SHL || op == token.SHR {
		return r.shift(op, k, in.kd2, a, b)
	}
	if a.t == nil && b.t == nil {
		x, y := a.k, b.k
		m := mask(w)
		switch op {
		case token.ADD:
			return V{k: (x + y) & m}
		case token.SUB:
			return V{k: (x - y) & m}
		case token.MUL:
			return V{k: (x * y) & m}
		case token.AND:
			return V{k: x & y}
		case token.OR:
			return V{k: x | y}
		case token.XOR:
			return V{k: x ^ y}
		case token.AND_NOT:
			return V{k: x &^ y}
		case token.QUO, token.REM:
			if y == 0 {
				r.rtPanic("integer divide by zero")
			}
			if k.signed {
				sa, sb := sx(x, w), sx(y, w)
				if sb == -1 {
					if op == token.QUO {
						return V{k: uint64(-sa) & m}
					}
					return V{}
				}
				if op == token.QUO {
					return V{k: uint64(sa/sb) & m}
				}
				return V{k: uint64(sa%sb) & m}
			}
			if op == token.QUO {
				return V{k: x / y}
			}
			return V{k: x % y}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if k.signed {
				sa, sb := sx(x, w), sx(y, w)
				switch op {
				case token.LSS:
					return vBool(sa < sb)
				case token.LEQ:
					return vBool(sa <= sb)
				case token.GTR:
					return vBool(sa > sb)
				}
				return vBool(sa >= sb)
			}
			switch op {
			case token.LSS:
				return vBool(x < y)
			case token.LEQ:
				return vBool(x <= y)
			case token.GTR:
				return vBool(x > y)
			}
			return vBool(x >= y)
		}
		r.unsupported("binop %s", op)
	}
	x, y := r.T(a, w), r.T(b, w)
	if w == 0 {
		r.unsupported("bool binop %s", op)
	}
	switch op {
	case token.ADD:
		return tv(c.Add(x, y))
	case token.SUB:
		return tv(c.Sub(x, y))
	case token.MUL:
		return tv(c.Mul(x, y))
	case token.AND:
		return tv(c.BAnd(x, y))
	case token.OR:
		return tv(c.BOr(x, y))
	case token.XOR:
		return tv(c.BXor(x, y))
	case token.AND_NOT:
		return tv(c.BAnd(x, c.BNot(y)))
	case token.QUO, token.REM:
		if !r.truth(tv(c.Not(c.Eq(y, c.Const(w, 0))))) {
			r.rtPanic("integer divide by zero")
		}
		if k.signed {
			if op == token.QUO {
				return tv(c.Sdiv(x, y))
			}
			return tv(c.Srem(x, y))
		}
		if op == token.QUO {
			return tv(c.Udiv(x, y))
		}
		return tv(c.Urem(x, y))
	case token.LSS:
		return tv(r.lt(k, x, y))
	case token.LEQ:
		return tv(c.Not(r.lt(k, y, x)))
	case token.GTR:
		return tv(r.lt(k, y, x))
	case token.GEQ:
		return tv(c.Not(r.lt(k, x, y)))
	}
	r.unsupported("binop %s", op)
	return V{}
}

func (r *Run) lt(k kind, x, y *Term) *Term {
	if k.signed {
		return r.c.Slt(x, y)
	}
	return r.c.Ult(x, y)
}

func (r *Run) shift(op token.Token, k, ks kind, a, b V) V {
	c := r.c
	w := k.w
	if ks.signed {
		neg := c.Slt(r.T(b, ks.w), c.Const(ks.w, 0))
		if r.truth(tv(neg)) {
			r.rtPanic("negative shift amount")
		}
	}
	if a.t == nil && b.t == nil {
		s := b.k
		if op == token.SHL {
			if s >= uint64(w) {
				return V{}
			}
			return V{k: a.k << s & mask(w)}
		}
		if k.signed {
			if s > 63 {
				s = 63
			}
			return V{k: uint64(sx(a.k, w)>>s) & mask(w)}
		}
		if s >= uint64(w) {
			return V{}
		}
		return V{k: a.k >> s}
	}
	x, s := r.T(a, w), r.T(b, ks.w)
	if s.w > w {
		big := c.Ult(c.Const(s.w, uint64(w)), s)
		s = c.Ite(big, c.Const(w, uint64(w)), c.Trunc(s, w))
	} else if s.w < w {
		s = c.Zext(s, w)
	}
	switch {
	case op == token.SHL:
		return tv(c.Shl(x, s))
	case k.signed:
		return tv(c.Ashr(x, s))
	}
	return tv(c.Lshr(x, s))
}

func (r *Run) convert(in *inst, x *ssa.Convert, v V) V {
	c := r.c
	from, to := in.kd, in.kd2
	ut := x.Type().Underlying()
	uf := x.X.Type().Underlying()
	switch {
	case from.scalar && to.scalar && !from.float && !to.float:
		if v.t == nil {
			k := v.k
			if from.signed {
				k = uint64(sx(k, from.w))
			}
			return V{k: k & mask(to.w)}
		}
		if to.w <= from.w {
			return tv(c.Trunc(v.t, to.w))
		}
		if from.signed {
			return tv(c.Sext(v.t, to.w))
		}
		return tv(c.Zext(v.t, to.w))
	case from.float && to.float:
		if v.t != nil {
			if from.w == to.w {
				return v
			}
			if to.w == 64 {
				return tv(r.widen(v.t))
			}
			if x := r.widened[v.t]; x != nil {
				return tv(x)
			}
			r.unsupported("symbolic float conversion")
		}
		return floatV(vFloat(v, from.w), to.w)
	case from.scalar && to.scalar:
		if v.t != nil {
			r.unsupported("symbolic int/float conversion")
		}
		if to.float {
			if from.signed {
				return floatV(float64(sx(v.k, from.w)), to.w)
			}
			return floatV(float64(v.k), to.w)
		}
		f := vFloat(v, from.w)
		if to.signed {
			return V{k: uint64(int64(f)) & mask(to.w)}
		}
		return V{k: uint64(f) & mask(to.w)}
	case to.str:
		if from.scalar {
			k := r.concretize(v, from.w, "rune to string")
			return V{p: string(rune(sx(k, from.w)))}
		}
		if sl, ok := uf.(*types.Slice); ok {
			if byteElem(sl.Elem()) {
				return mkStr(r.sliceBytes(v))
			}
			s, _ := v.p.(*Slice)
			if s == nil {
				return V{p: ""}
			}
			r.concSlice(s)
			var out []rune
			for i := int64(0); i < s.ln; i++ {
				out = append(out, rune(int32(r.concretize(s.arr.get(s.off+i), 32, "rune"))))
			}
			return V{p: string(out)}
		}
		if from.str {
			return v
		}
	case from.str:
		if sl, ok := ut.(*types.Slice); ok {
			if byteElem(sl.Elem()) {
				b := r.c.strBytes(v)
				return r.bytesSlice(append([]*Term(nil), b...))
			}
			it := &StrIter{s: v}
			var rs []V
			for {
				t := r.strNext(it).p.(Tuple)
				if t[0].k == 0 {
					break
				}
				rs = append(rs, t[2])
			}
			a := newArr(sl.Elem(), len(rs))
			for i, x := range rs {
				a.v[i] = x
			}
			return V{p: &Slice{arr: a, ln: int64(len(rs)), cp: int64(len(rs))}}
		}
	}
	// unsafe.Pointer and named pointer conversions
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	r.unsupported("conversion %v to %v", x.X.Type(), x.Type())
	return V{}
}
