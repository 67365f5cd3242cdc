package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = modPath + "/zz_verif/sym."

func (r *Run) input(name string, w uint8, umax uint64) *Term {
	t := r.c.NewVar(w, name, umax)
	r.nondet = append(r.nondet, ND{Name: name, t: t})
	return t
}

func wmax(w uint8) uint64 {
	if w >= 64 {
		return math.MaxUint64
	}
	return 1<<w - 1
}

// popDigits parses s as an unsigned number made of digits only.
func (r *Run) parseUint(s V, base int) (*Term, *Term) {
	c := r.c
	b := c.strBytes(s)
	no := c.F
	zero64 := c.Const(64, 0)
	if len(b) == 0 {
		return zero64, no
	}
	for i, t := range b {
		if r.atomOf(t) == nil {
			continue
		}
		at := r.atomOf(t)
		if at.kind != "int" {
			return zero64, no
		}
		if at.base != base {
			b = r.expandAtoms(b)
			break
		}
		if i == len(b)-1 {
			lead := true
			for _, u := range b[:i] {
				if !u.isConst() || u.k != '0' {
					lead = false
				}
			}
			if lead {
				return at.val, c.T
			}
		}
		b = r.expandAtoms(b)
		break
	}
	if a := r.runOf(b, base); a != nil {
		return a.val, c.T
	}
	if len(b) > 19 && base == 10 || len(b) > 64 {
		// may overflow: concrete only
		st, ok := isConcreteStr(mkStr(b))
		if ok {
			v, err := strconv.ParseUint(st, base, 64)
			if err != nil {
				return zero64, no
			}
			return c.Const(64, v), c.T
		}
		if base == 10 && len(b) > 20 {
			r.unsupported("parse of a long symbolic number")
		}
	}
	acc := zero64
	okT := c.T
	for _, t := range b {
		isd := c.And(c.Ule(c.Const(8, '0'), t), c.Ule(t, c.Const(8, uint64('0'+min(base, 10)-1))))
		d := c.Sub(t, c.Const(8, '0'))
		if base == 16 {
			u := c.And(c.Ule(c.Const(8, 'A'), t), c.Ule(t, c.Const(8, 'F')))
			l := c.And(c.Ule(c.Const(8, 'a'), t), c.Ule(t, c.Const(8, 'f')))
			d = c.Ite(u, c.Sub(t, c.Const(8, 'A'-10)), c.Ite(l, c.Sub(t, c.Const(8, 'a'-10)), d))
			isd = c.Or(isd, c.Or(u, l))
		}
		okT = c.And(okT, isd)
		acc = c.Add(c.Mul(acc, c.Const(64, uint64(base))), c.Zext(d, 64))
	}
	return acc, okT
}

func init() {
	S := func(f intrinsic, n string) { reg(f, symPkg+n) }
	scalar := func(w uint8) intrinsic {
		return func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			n, _ := isConcreteStr(a[0])
			return V{t: r.input(n, w, wmax(w))}, true
		}
	}
	S(scalar(8), "U8")
	S(scalar(16), "U16")
	S(scalar(32), "U32")
	S(scalar(64), "U64")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, _ := isConcreteStr(a[0])
		t := r.input(n, 8, 1)
		return V{t: r.c.Eq(t, r.c.Const(8, 1))}, true
	}, "Bool")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		// Range(name, lo, hi): an int with lo <= v <= hi
		n, _ := isConcreteStr(a[0])
		lo, hi := int64(a[1].k), int64(a[2].k)
		if a[1].t != nil || a[2].t != nil {
			r.unsupported("symbolic range")
		}
		if lo > hi {
			panic(pathEnd{"assume", ""})
		}
		if lo == hi {
			r.nondet = append(r.nondet, ND{Name: n, k: uint64(lo)})
			return V{k: uint64(lo)}, true
		}
		if lo >= 0 {
			w := uint8(1)
			for wmax(w) < uint64(hi) {
				w++
			}
			v := r.c.NewVar(w, n, uint64(hi))
			t := r.c.Zext(v, 64)
			r.nondet = append(r.nondet, ND{Name: n, t: t})
			if lo > 0 {
				r.assumeCond(r.c.Ule(r.c.Const(64, uint64(lo)), t))
			}
			if wmax(w) != uint64(hi) {
				r.assumeCond(r.c.Ule(t, r.c.Const(64, uint64(hi))))
			}
			return V{t: t}, true
		}
		t := r.input(n, 64, wmax(64))
		r.assumeCond(r.c.And(r.c.Sle(r.c.Const(64, uint64(lo)), t), r.c.Sle(t, r.c.Const(64, uint64(hi)))))
		return V{t: t}, true
	}, "Range")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, _ := isConcreteStr(a[0])
		cnt := int(r.concretize(a[1], 64, "choice"))
		k := r.choose(cnt, n)
		r.nondet = append(r.nondet, ND{Name: n, k: uint64(k)})
		return V{k: uint64(k)}, true
	}, "Choose")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, _ := isConcreteStr(a[0])
		ln := int(r.concretize(a[1], 64, "length"))
		b := make([]*Term, ln)
		for i := range b {
			b[i] = r.input(fmt.Sprintf("%s[%d]", n, i), 8, 255)
		}
		return r.bytesSlice(b), true
	}, "Bytes")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		// Split: case split on a value, one path per value
		return V{k: r.concretize(a[0], 64, "split")}, true
	}, "Split")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.assumeCond(r.T(a[0], 0))
		return V{}, true
	}, "Assume")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		msg := "?"
		if t := r.T(a[0], 0); t != r.c.T {
			msg = r.concreteText(r.c.strBytes(a[1]), r.model)
			r.assert(t, msg)
		} else {
			r.asserts++
		}
		return V{}, true
	}, "Assert")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.asserts++
		r.assert(r.c.F, r.concreteText(r.c.strBytes(a[0]), r.model))
		return V{}, true
	}, "Fail")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, _ := isConcreteStr(a[0])
		r.covers = append(r.covers, n)
		return V{}, true
	}, "Cover")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return vBool(true), true }, "Symbolic")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return vBool(r.w.ex.thorough), true }, "Thorough")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		return V{k: r.concretize(a[0], 64, "pinned value")}, true
	}, "Pin")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return V{p: "/virtual/log"}, true }, "LogDir")
	newFile := func(r *Run, v V) *vfile {
		r.nfile++
		f := &vfile{path: fmt.Sprintf("/virtual/f%d", r.nfile)}
		s, _ := v.p.(*Slice)
		if s == nil {
			f.data = newArr(types.Typ[types.Uint8], 0)
		} else {
			x := *s
			r.concSlice(&x)
			if x.off == 0 && x.ln == int64(x.arr.n) {
				f.data = x.arr.clone()
			} else {
				f.data = newArr(types.Typ[types.Uint8], int(x.ln))
				copy(f.data.bytes, x.arr.bytes[x.off:x.off+x.ln])
				if x.arr.s != nil {
					f.data.s = append([]*Term(nil), x.arr.s[x.off:x.off+x.ln]...)
				}
			}
		}
		r.files[f.path] = f
		return f
	}
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return V{p: newFile(r, a[0]).path}, true }, "File")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		name, _ := isConcreteStr(a[0])
		f := newFile(r, a[1])
		delete(r.files, f.path)
		f.path = fmt.Sprintf("/virtual/d%d/%s", r.nfile, name)
		r.files[f.path] = f
		return V{p: f.path}, true
	}, "NamedFile")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		path, _ := isConcreteStr(a[0])
		f := newFile(r, a[1])
		delete(r.files, f.path)
		f.path = path
		r.files[path] = f
		return V{}, true
	}, "Rewrite")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		f := newFile(r, a[0])
		v := a[1]
		f.fault = &v
		f.bounds = append(f.bounds, v)
		return V{p: f.path}, true
	}, "FaultFile")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		f := newFile(r, a[0])
		if s, _ := a[1].p.(*Slice); s != nil {
			for i := int64(0); i < s.ln; i++ {
				f.bounds = append(f.bounds, s.arr.get(s.off+i))
			}
		}
		return V{p: f.path}, true
	}, "SplitFile")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.nfile++
		p := fmt.Sprintf("/virtual/missing%d", r.nfile)
		r.files[p] = &vfile{path: p, missing: true}
		return V{p: p}, true
	}, "MissingFile")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.mapOrder = r.truth(a[0])
		r.mapUsed = true
		return V{}, true
	}, "MapOrder")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.zone = &zone{r.T(a[0], 64), r.T(a[1], 64), r.c.Zext(r.T(a[2], 32), 64)}
		return V{}, true
	}, "Zone")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.out = append(r.out, nil)
		n := len(r.out)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(targetPanic); ok {
						r.out = r.out[:n-1]
					}
					panic(e)
				}
			}()
			r.callValue(a[0], nil)
		}()
		b := r.out[n-1]
		r.out = r.out[:n-1]
		return mkStr(b), true
	}, "Stdout")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.watching, r.touched = true, nil
		func() {
			defer func() { r.watching = false }()
			r.callValue(a[0], nil)
		}()
		return vBool(len(r.touched) > 0), true
	}, "Writes")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, _ := isConcreteStr(a[0])
		return V{k: uint64(r.logCount[n])}, true
	}, "LogLines")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		if r.logDir == "?" {
			r.unsupported("a symbolic log directory")
		}
		if d, ok := isConcreteStr(a[0]); !ok || r.logTotal() == 0 || d != r.logDir {
			return V{}, true
		}
		return V{k: uint64(r.logSaved)}, true
	}, "LogSaved")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, _ := isConcreteStr(a[0])
		r.obs = append(r.obs, obsRec{n, r.c.strBytes(a[1])})
		return V{}, true
	}, "Observe")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		v, ok := r.parseUint(a[0], 10)
		return tuple(tv(v), tv(ok)), true
	}, "ParseUint")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		// Len: the number of characters, where formatted numbers count as many
		// as they have digits
		c := r.c
		n := c.Const(64, 0)
		for _, t := range r.c.strBytes(a[0]) {
			at := r.atomOf(t)
			if at == nil {
				n = c.Add(n, c.Const(64, 1))
				continue
			}
			if at.kind != "int" {
				r.unsupported("length of a %s text", at.kind)
			}
			w := max(at.width, 1)
			l := c.Const(64, uint64(w))
			for {
				p, ok := pow10(at.base, w)
				if !ok || p > at.val.umax {
					break
				}
				w++
				l = c.Ite(c.Ult(at.val, c.Const(64, p)), l, c.Const(64, uint64(w)))
			}
			n = c.Add(n, l)
		}
		return tv(n), true
	}, "Len")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.c.strBytes(a[0])
		v, ok := r.parseUint(mkStr(b), 2)
		return tuple(tv(v), tv(ok)), true
	}, "ParseBin")
	S(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		// ParseHex: pairs of hexadecimal digits to bytes
		b := r.expandAtoms(r.c.strBytes(a[0]))
		if len(b)%2 != 0 {
			return tuple(V{}, vBool(false)), true
		}
		ok := r.c.T
		out := make([]*Term, len(b)/2)
		for i := range out {
			v, o := r.parseUint(mkStr(b[2*i:2*i+2]), 16)
			ok = r.c.And(ok, o)
			out[i] = r.c.Trunc(v, 8)
		}
		return tuple(r.bytesSlice(out), tv(ok)), true
	}, "ParseHex")
	pf := func(w uint8) intrinsic {
		return func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			b := r.c.strBytes(a[0])
			if s, ok := isConcreteStr(a[0]); ok {
				v, err := strconv.ParseFloat(s, int(w))
				if err != nil && !strings.Contains(err.Error(), "out of range") {
					return tuple(V{}, vBool(false)), true
				}
				return tuple(floatV(v, w), vBool(true)), true
			}
			if len(b) == 1 {
				if at := r.atomOf(b[0]); at != nil && at.kind == "float" && at.fw == int(w) {
					return tuple(tv(at.val), vBool(true)), true
				}
			}
			r.unsupported("ParseFloat of %s", describe(a[0]))
			return V{}, true
		}
	}
	S(pf(32), "ParseFloat32")
	S(pf(64), "ParseFloat64")
}
