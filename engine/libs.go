package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions that the library writes with reflection, and of the
// standard streams.

func (r *Run) errMethod(e Iface, name string) *ssa.Function {
	ms := r.p.prog.MethodSets.MethodSet(e.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return r.p.lookupMethod(e.t, nil, name)
}

// errChain visits an error and what it wraps until f says it is done.
func (r *Run) errChain(e V, f func(Iface) bool) bool {
	for {
		ifc, ok := e.p.(Iface)
		if !ok {
			return false
		}
		if f(ifc) {
			return true
		}
		m := r.errMethod(ifc, "Unwrap")
		if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
			return false
		}
		res := r.call(m, []V{ifc.v}, nil)
		if _, many := m.Signature.Results().At(0).Type().Underlying().(*types.Slice); many {
			for _, x := range r.ifaceArgs(res) {
				if r.errChain(x, f) {
					return true
				}
			}
			return false
		}
		e = res
	}
}

// widen gives the bits of the float64 that equals a float32.
func (r *Run) widen(t *Term) *Term {
	c := r.c
	sign, exp, man := c.Extract(t, 31, 31), c.Extract(t, 30, 23), c.Extract(t, 22, 0)
	cat := func(e, m *Term) *Term { return c.Concat(sign, c.Concat(e, m)) }
	zeros := func(n int) *Term { return c.Const(uint8(n), 0) }
	wide := c.Concat(man, zeros(29))
	e11 := c.Zext(exp, 11)
	res := cat(c.Add(e11, c.Const(11, 896)), wide)
	// infinities, and numbers that are none: these become quiet
	isZero := c.Eq(man, zeros(23))
	quiet := c.Concat(c.Const(1, 1), c.Extract(wide, 50, 0))
	res = c.Ite(c.Eq(exp, c.Const(8, 255)), cat(c.Const(11, 2047), c.Ite(isZero, wide, quiet)), res)
	// zero and subnormal numbers
	sub := cat(zeros(11), zeros(52))
	for p := 0; p < 23; p++ {
		m := zeros(52)
		if p > 0 {
			m = c.Concat(c.Extract(man, uint8(p-1), 0), zeros(52-p))
		}
		sub = c.Ite(c.Eq(c.Extract(man, uint8(p), uint8(p)), c.Const(1, 1)), cat(c.Const(11, uint64(p+874)), m), sub)
	}
	res = c.Ite(c.Eq(exp, c.Const(8, 0)), sub, res)
	if r.widened == nil {
		r.widened = map[*Term]*Term{}
	}
	r.widened[res] = t
	return res
}

func init() {
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		target, ok := a[1].p.(Iface)
		if !ok {
			return vBool(isIfaceNil(a[0])), true
		}
		cmp := types.Comparable(target.t)
		return vBool(r.errChain(a[0], func(e Iface) bool {
			if cmp && types.Identical(e.t, target.t) && r.branch(r.equal(e.t, e.v, target.v)) {
				return true
			}
			if m := r.errMethod(e, "Is"); m != nil && m.Signature.Params().Len() == 1 {
				return r.truth(r.call(m, []V{e.v, a[1]}, nil))
			}
			return false
		})), true
	}, "errors.Is")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		target, ok := a[1].p.(Iface)
		if !ok {
			return V{}, false
		}
		want := target.t.Underlying().(*types.Pointer).Elem()
		return vBool(r.errChain(a[0], func(e Iface) bool {
			if it, ok := want.Underlying().(*types.Interface); ok {
				if r.p.implements(e.t, it) {
					r.store(target.v, V{p: e})
					return true
				}
				return false
			}
			if types.Identical(e.t, want) {
				r.store(target.v, e.v)
				return true
			}
			return false
		})), true
	}, "errors.As")
}

// noSuchFile is the error of opening a file that does not exist.
func (r *Run) noSuchFile(path string) V {
	fs, sc := r.p.pkgs["io/fs"], r.p.pkgs["syscall"]
	if fs == nil || sc == nil {
		return r.errorf("open %s: no such file or directory", path)
	}
	t := fs.Members["PathError"].(*ssa.Type).Type()
	e := zero(t)
	e.p.(*Struct).f[0] = V{p: "open"}
	e.p.(*Struct).f[1] = V{p: path}
	e.p.(*Struct).f[2] = V{p: Iface{t: sc.Members["Errno"].(*ssa.Type).Type(), v: V{k: 2}}}
	return V{p: Iface{t: types.NewPointer(t), v: V{p: &e}}}
}

// timeGlobals sets the two locations; the process runs in UTC.
func (r *Run) timeGlobals(pkg *ssa.Package) {
	for name, to := range map[string]string{"UTC": "utcLoc", "Local": "localLoc"} {
		g, ok1 := pkg.Members[name].(*ssa.Global)
		l, ok2 := pkg.Members[to].(*ssa.Global)
		if ok1 && ok2 && r.w.stdGlobals[g] != nil && r.w.stdGlobals[g].p == nil {
			*r.w.stdGlobals[g] = V{p: r.w.stdGlobals[l]}
		}
	}
}

// zone is the time zone of the process: seconds ahead of UTC before and after a change.
type zone struct{ before, after, at *Term }

// offset gives the seconds ahead of UTC of the local time at a second of the epoch.
func (z *zone) offset(r *Run, sec *Term) *Term {
	if r.branch(r.c.Slt(sec, z.at)) {
		return z.before
	}
	return z.after
}

// locOf gives the location of a time or pointer: nil and false for UTC, true for
// the zone of the process.
func (r *Run) locOf(v V) (loc *V, local bool) {
	l, _ := v.p.(*V)
	if l == nil || l == r.stdGlobal("time", "utcLoc") {
		return nil, false
	}
	return l, l == r.stdGlobal("time", "localLoc")
}
