package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// An intrinsic replaces a library function (or a harness primitive). It may
// decline (ok=false), then the function's own code is executed.
type intrinsic func(r *Run, fn *ssa.Function, args []V) (V, bool)

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if i := strings.IndexByte(name, '['); i > 0 {
		// generic instance
		return intrinsics[name[:i]]
	}
	return nil
}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func noop(r *Run, fn *ssa.Function, args []V) (V, bool) {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return V{}, true
	case 1:
		return zero(res.At(0).Type()), true
	}
	return zero(res), true
}

func isIfaceNil(v V) bool { _, ok := v.p.(Iface); return !ok }

// ---- virtual files ----

type vfile struct {
	path    string
	data    *Arr
	bounds  []V // a read never crosses one of these offsets
	missing bool
	created bool
	fault   *V // reads from this offset on fail
}

type fhandle struct {
	f      *vfile
	pos    int64
	posT   *Term
	closed bool
	std    string

	writable bool
}

func (r *Run) fileOf(v V) *fhandle {
	cell, ok := v.p.(*V)
	if !ok || cell == nil {
		return nil
	}
	n, ok := cell.p.(*Native)
	if !ok {
		return nil
	}
	h, _ := n.o.(*fhandle)
	return h
}

func newFileVal(h *fhandle) V { return V{p: &V{p: &Native{o: h}}} }

func (r *Run) eof() V { return *r.stdGlobal("io", "EOF") }

func (r *Run) stdGlobal(pkg, name string) *V {
	p := r.p.pkgs[pkg]
	if p == nil {
		r.unsupported("package %s is not loaded", pkg)
	}
	g := p.Members[name].(*ssa.Global)
	r.p.mu.Lock()
	i := r.p.globalIdx(g)
	r.p.mu.Unlock()
	return r.global(g, i)
}

func (r *Run) openFile(path V) (V, V) {
	s, ok := isConcreteStr(path)
	if !ok {
		r.unsupported("symbolic path")
	}
	f := r.files[s]
	if f == nil || f.missing {
		return V{}, r.noSuchFile(s)
	}
	return newFileVal(&fhandle{f: f}), V{}
}

// touch: the file system is changed at a path.
func (r *Run) touch(path V, what string) {
	s, ok := isConcreteStr(path)
	if !ok || !r.watching {
		r.unsupported("%s", what)
	}
	if s == "/virtual/log" || strings.HasPrefix(s, "/virtual/log/") {
		return
	}
	r.touched = append(r.touched, what+" "+s)
}

// openForWriting: the files that there are may be read only.
func (r *Run) openForWriting(path V, create bool) (V, V) {
	r.touch(path, "open for writing")
	s, _ := isConcreteStr(path)
	f := r.files[s]
	if f != nil && !f.missing && !f.created {
		return V{}, r.errorf("open %s: permission denied", s)
	}
	if f == nil || f.missing {
		if !create {
			return V{}, r.noSuchFile(s)
		}
		f = &vfile{path: s, data: newArr(types.Typ[types.Uint8], 0), created: true}
		r.files[s] = f
	}
	return newFileVal(&fhandle{f: f, writable: true}), V{}
}

// fileRead implements read(2) for virtual files.
func (r *Run) fileRead(h *fhandle, buf V, advance bool, at V) (V, V) {
	c := r.c
	if h == nil {
		return V{}, r.errorf("invalid argument")
	}
	if h.closed {
		return V{}, r.errorf("read %s: file already closed", h.f.path)
	}
	d, _ := buf.p.(*Slice)
	if d == nil || d.lnT == nil && d.ln == 0 {
		return V{}, V{}
	}
	size := int64(h.f.data.n)
	pos := at
	if advance {
		pos = V{k: uint64(h.pos), t: h.posT}
	}
	if h.f.fault != nil && !r.branch(c.Ult(r.T(pos, 64), r.T(*h.f.fault, 64))) {
		return V{}, r.errorf("read %s: input/output error", h.f.path)
	}
	symbolic := pos.t != nil || d.lnT != nil || d.offT != nil
	for _, b := range h.f.bounds {
		if b.t != nil {
			symbolic = true
		}
	}
	if !symbolic {
		p := int64(pos.k)
		if p >= size {
			return V{}, r.eof()
		}
		m := min(d.ln, size-p)
		for _, b := range h.f.bounds {
			if int64(b.k) > p {
				m = min(m, int64(b.k)-p)
			}
		}
		r.steps += m / 64
		src := h.f.data
		copy(d.arr.bytes[d.off:d.off+m], src.bytes[p:p+m])
		if d.arr.s != nil {
			clear(d.arr.s[d.off : d.off+m])
		}
		if src.s != nil {
			for i := int64(0); i < m; i++ {
				if t := src.s[p+i]; t != nil {
					if d.arr.s == nil {
						d.arr.s = make([]*Term, d.arr.n)
					}
					d.arr.s[d.off+i] = t
				}
			}
		}
		if advance {
			h.pos += m
		}
		return V{k: uint64(m)}, V{}
	}
	// symbolic position or split: how many bytes are returned
	P := r.T(pos, 64)
	S := c.Const(64, uint64(size))
	if !r.branch(c.Ult(P, S)) {
		return V{}, r.eof()
	}
	L := r.T(V{k: uint64(d.ln), t: d.lnT}, 64)
	m := c.Sub(S, P)
	for _, b := range h.f.bounds {
		B := r.T(b, 64)
		if r.branch(c.Ult(P, B)) {
			q := c.Sub(B, P)
			if r.branch(c.Ult(q, m)) {
				m = q
			}
		}
	}
	if !r.branch(c.Ult(m, L)) {
		m = L
	}
	O := r.T(V{k: uint64(d.off), t: d.offT}, 64)
	end := c.Add(O, m)
	delta := c.Sub(P, O) // file offset = array index + delta
	if !delta.isConst() {
		delta = c.Const(64, r.concretize(tv(delta), 64, "read position"))
	}
	// destination range: the slice's possible extent
	lo, hi := int64(0), int64(d.arr.n)
	if d.offT == nil {
		lo = d.off
		if d.lnT == nil {
			hi = d.off + d.ln
		}
	}
	src := h.f.data
	dk := int64(delta.k)
	r.steps += (hi - lo) / 8
	for i := lo; i < hi; i++ {
		si := i + dk
		if si < 0 || si >= size {
			continue
		}
		sv := r.T(src.get(si), 8)
		old := r.T(d.arr.get(i), 8)
		if sv == old {
			continue
		}
		I := c.Const(64, uint64(i))
		in := c.And(c.Ule(O, I), c.Ult(I, end))
		if in == c.F {
			continue
		}
		d.arr.set(i, tv(c.Ite(in, sv, old)))
	}
	if advance {
		np := c.Add(P, m)
		if np.isConst() {
			h.pos, h.posT = int64(np.k), nil
		} else {
			h.posT = np
		}
	}
	return tv(m), V{}
}

// ---- stdout ----

func (r *Run) writeTo(w V, b []*Term) {
	ifc, ok := w.p.(Iface)
	if !ok {
		r.rtPanic("invalid memory address or nil pointer dereference")
	}
	if h := r.fileOf(ifc.v); h != nil {
		if h.std == "stdout" {
			r.emit(b)
		}
		return
	}
	fn := r.p.lookupMethod(ifc.t, nil, "Write")
	if fn == nil {
		r.unsupported("Write of %s", ifc.t)
	}
	r.call(fn, []V{ifc.v, r.bytesSlice(b)}, nil)
}

func nErr(n int) V { return tuple(V{k: uint64(n)}, V{}) }

// concrete runs f when every argument of the call is concrete.
func concStr(args []V, i int) (string, bool) { return isConcreteStr(args[i]) }

func init() {
	// fmt
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		return mkStr(r.sprintf(a[0], r.ifaceArgs(a[1]))), true
	}, "fmt.Sprintf")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		return mkStr(r.sprint(r.ifaceArgs(a[0]), false)), true
	}, "fmt.Sprint")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return mkStr(r.sprint(r.ifaceArgs(a[0]), true)), true }, "fmt.Sprintln")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.sprintf(a[0], r.ifaceArgs(a[1]))
		r.emit(b)
		return nErr(len(b)), true
	}, "fmt.Printf")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.sprint(r.ifaceArgs(a[0]), false)
		r.emit(b)
		return nErr(len(b)), true
	}, "fmt.Print")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.sprint(r.ifaceArgs(a[0]), true)
		r.emit(b)
		return nErr(len(b)), true
	}, "fmt.Println")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.sprintf(a[1], r.ifaceArgs(a[2]))
		r.writeTo(a[0], b)
		return nErr(len(b)), true
	}, "fmt.Fprintf")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.sprint(r.ifaceArgs(a[1]), false)
		r.writeTo(a[0], b)
		return nErr(len(b)), true
	}, "fmt.Fprint")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.sprint(r.ifaceArgs(a[1]), true)
		r.writeTo(a[0], b)
		return nErr(len(b)), true
	}, "fmt.Fprintln")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.sprintf(a[1], r.ifaceArgs(a[2]))
		return r.appendSlice(types.Typ[types.Uint8], a[0], mkStr(b)), true
	}, "fmt.Appendf")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		args := r.ifaceArgs(a[1])
		f, _ := isConcreteStr(a[0])
		if i := strings.Index(f, "%w"); i >= 0 {
			// position of the wrapped error among the verbs
			n := 0
			for j := 0; j < i; j++ {
				if f[j] == '%' {
					if f[j+1] == '%' {
						j++
						continue
					}
					n++
				}
			}
			text := r.sprintf(V{p: strings.Replace(f, "%w", "%v", 1)}, args)
			if n < len(args) && !isIfaceNil(args[n]) {
				wt := r.p.pkgs["fmt"].Pkg.Scope().Lookup("wrapError").Type()
				cell := &V{p: &Struct{f: []V{mkStr(text), args[n]}}}
				return V{p: Iface{types.NewPointer(wt), V{p: cell}}}, true
			}
			return r.newError(text), true
		}
		return r.newError(r.sprintf(a[0], args)), true
	}, "fmt.Errorf")

	// strconv
	fmtInt := func(signed bool) intrinsic {
		return func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			base := 10
			if len(a) > 1 {
				base = int(r.concretize(a[1], 64, "base"))
			}
			return mkStr(r.intText(a[0], kind{w: 64, signed: signed, scalar: true}, base, 0, false, "")), true
		}
	}
	reg(fmtInt(true), "strconv.FormatInt", "strconv.Itoa")
	reg(fmtInt(false), "strconv.FormatUint")
	appInt := func(signed bool) intrinsic {
		return func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			base := int(r.concretize(a[2], 64, "base"))
			s := mkStr(r.intText(a[1], kind{w: 64, signed: signed, scalar: true}, base, 0, false, ""))
			return r.appendSlice(types.Typ[types.Uint8], a[0], s), true
		}
	}
	reg(appInt(true), "strconv.AppendInt")
	reg(appInt(false), "strconv.AppendUint")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		v, f, prec, bs := a[0], a[1].k, int64(a[2].k), int(a[3].k)
		if v.t != nil {
			if (f == 'g' || f == 'G') && prec == -1 && bs == 64 {
				return mkStr([]*Term{r.atom(Atom{kind: "float", val: v.t, fw: 64, fmt: "v"})}), true
			}
			if x := r.widened[v.t]; x != nil && (f == 'g' || f == 'G') && prec == -1 && bs == 32 {
				return mkStr([]*Term{r.atom(Atom{kind: "float", val: x, fw: 32, fmt: "v"})}), true
			}
			v = r.concFloat(v, 64)
		}
		return V{p: strconv.FormatFloat(math.Float64frombits(v.k), byte(f), int(prec), bs)}, true
	}, "strconv.FormatFloat")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		s, ok := concStr(a, 0)
		if !ok || a[1].t != nil || a[2].t != nil {
			return V{}, false
		}
		v, err := strconv.ParseInt(s, int(int64(a[1].k)), int(int64(a[2].k)))
		if err != nil {
			return tuple(V{k: uint64(v)}, r.errorf("%s", err)), true
		}
		return tuple(V{k: uint64(v)}, V{}), true
	}, "strconv.ParseInt")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		s, ok := concStr(a, 0)
		if !ok || a[1].t != nil || a[2].t != nil {
			return V{}, false
		}
		v, err := strconv.ParseUint(s, int(int64(a[1].k)), int(int64(a[2].k)))
		if err != nil {
			return tuple(V{k: v}, r.errorf("%s", err)), true
		}
		return tuple(V{k: v}, V{}), true
	}, "strconv.ParseUint")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		s, ok := concStr(a, 0)
		if !ok {
			return V{}, false
		}
		v, err := strconv.Atoi(s)
		if err != nil {
			return tuple(V{k: uint64(v)}, r.errorf("%s", err)), true
		}
		return tuple(V{k: uint64(v)}, V{}), true
	}, "strconv.Atoi")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		s, ok := concStr(a, 0)
		if !ok {
			return V{}, false
		}
		v, err := strconv.ParseFloat(s, int(a[1].k))
		if err != nil {
			return tuple(floatV(v, 64), r.errorf("%s", err)), true
		}
		return tuple(floatV(v, 64), V{}), true
	}, "strconv.ParseFloat")

	// byte and string searching
	indexByte := func(last bool) intrinsic {
		return func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			var b []*Term
			if isByteSlice(a[0]) {
				s := *a[0].p.(*Slice)
				r.concSlice(&s)
				if s.arr != nil && s.arr.s == nil && a[1].t == nil && !last {
					for i := int64(0); i < s.ln; i++ {
						if s.arr.bytes[s.off+i] == byte(a[1].k) {
							return V{k: uint64(i)}, true
						}
					}
					return V{k: ^uint64(0)}, true
				}
				b = r.sliceBytes(V{p: &s})
			} else {
				b = r.c.strBytes(r.plain(a[0]))
			}
			c := r.T(a[1], 8)
			for i := range b {
				j := i
				if last {
					j = len(b) - 1 - i
				}
				if r.branch(r.c.Eq(b[j], c)) {
					return V{k: uint64(j)}, true
				}
			}
			return V{k: ^uint64(0)}, true
		}
	}
	reg(indexByte(false), "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte")
	reg(indexByte(true), "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.byteTerms(a[0])
		c := r.T(a[1], 8)
		n := uint64(0)
		for i := range b {
			if r.branch(r.c.Eq(b[i], c)) {
				n++
			}
		}
		return V{k: n}, true
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	index := func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		x, y := r.byteTerms(r.plain(a[0])), r.byteTerms(a[1])
		if r.hasAtom(y) {
			y = r.expandAtoms(y)
			x = r.expandAtoms(x)
		}
		for i := 0; i+len(y) <= len(x); i++ {
			if r.branch(r.bytesEq(x[i:i+len(y)], y)) {
				return V{k: uint64(i)}, true
			}
		}
		return V{k: ^uint64(0)}, true
	}
	reg(index, "strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		v, _ := index(r, fn, a)
		return vBool(int64(v.k) >= 0), true
	}, "strings.Contains", "bytes.Contains")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		return tv(r.bytesEq(r.byteTerms(a[0]), r.byteTerms(a[1]))), true
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		lt, eq := r.strLess(mkStr(r.byteTerms(a[0])), mkStr(r.byteTerms(a[1])))
		c := r.c
		return tv(c.Ite(lt, c.Const(64, ^uint64(0)), c.Ite(eq, c.Const(64, 0), c.Const(64, 1)))), true
	}, "bytes.Compare", "strings.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n := int64(r.concretize(a[0], 64, "length"))
		if n < 0 || n > 1<<28 {
			r.rtPanic("makeslice: len out of range")
		}
		return V{p: &Slice{arr: newArr(types.Typ[types.Uint8], int(n)), ln: n, cp: n}}, true
	}, "internal/bytealg.MakeNoZero")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		b := r.byteTerms(a[0])
		if len(b) == 0 {
			return tuple(V{k: 0xFFFD}, V{k: 0}), true
		}
		rn, w := r.decodeRune(b)
		return tuple(tv(rn), V{k: uint64(w)}), true
	}, "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString")
	reg(noop, "(*strings.Builder).copyCheck")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return a[0], true }, "internal/abi.NoEscape", "internal/abi.Escape")
	// fast concrete versions
	str1 := func(f func(string) string) intrinsic {
		return func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			if s, ok := concStr(a, 0); ok {
				return V{p: f(s)}, true
			}
			return V{}, false
		}
	}
	reg(str1(strings.ToLower), "strings.ToLower")
	reg(str1(strings.ToUpper), "strings.ToUpper")
	reg(str1(strings.TrimSpace), "strings.TrimSpace")

	// os
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		f, e := r.openFile(a[0])
		return tuple(f, e), true
	}, "os.Open")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		fl := a[1].k
		if p, ok := isConcreteStr(a[0]); fl&(3|0x200) == 0 && (fl&0x40 == 0 || ok && r.files[p] != nil && !r.files[p].missing) {
			f, e := r.openFile(a[0])
			return tuple(f, e), true
		}
		f, e := r.openForWriting(a[0], fl&0x40 != 0)
		return tuple(f, e), true
	}, "os.OpenFile")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		f, e := r.openForWriting(a[0], true)
		return tuple(f, e), true
	}, "os.Create")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		for i, v := range a {
			if i < 2 && fn.Signature.Params().At(i).Type().String() == "string" {
				r.touch(v, fn.String())
			}
		}
		return V{}, true
	}, "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Chmod", "os.Chown", "os.Chtimes",
		"os.Mkdir", "os.MkdirAll", "os.Rename", "os.Link", "os.Symlink")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		h := r.fileOf(a[0])
		if h == nil || h.f == nil {
			r.unsupported("%s", fn)
		}
		r.touch(V{p: h.f.path}, fn.String())
		return V{}, true
	}, "(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).Chown")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		h := r.fileOf(a[0])
		if h == nil || h.f == nil || !h.writable {
			r.unsupported("%s", fn)
		}
		r.touch(V{p: h.f.path}, fn.String())
		return nErr(len(r.sliceBytes(a[1]))), true
	}, "(*os.File).WriteAt")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, e := r.fileRead(r.fileOf(a[0]), a[1], true, V{})
		return tuple(n, e), true
	}, "(*os.File).Read")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		h := r.fileOf(a[0])
		at := a[2]
		buf := a[1]
		total := V{}
		// ReadAt fills the buffer or reports an error
		for {
			n, e := r.fileRead(h, buf, false, at)
			if !isIfaceNil(e) {
				return tuple(total, e), true
			}
			nn := r.concretize(n, 64, "ReadAt")
			total.k += nn
			s := *buf.p.(*Slice)
			r.concSlice(&s)
			if int64(nn) >= s.ln {
				return tuple(total, V{}), true
			}
			s.off += int64(nn)
			s.ln -= int64(nn)
			s.cp -= int64(nn)
			buf = V{p: &s}
			at = tv(r.c.Add(r.T(at, 64), r.c.Const(64, nn)))
		}
	}, "(*os.File).ReadAt")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		h := r.fileOf(a[0])
		if h == nil || h.closed {
			return tuple(V{}, r.errorf("invalid argument")), true
		}
		base := r.c.Const(64, 0)
		switch a[2].k {
		case 1:
			base = r.T(V{k: uint64(h.pos), t: h.posT}, 64)
		case 2:
			base = r.c.Const(64, uint64(h.f.data.n))
		}
		p := r.c.Add(base, r.T(a[1], 64))
		if r.branch(r.c.Slt(p, r.c.Const(64, 0))) {
			return tuple(V{}, r.errorf("seek: invalid argument")), true
		}
		if p.isConst() {
			h.pos, h.posT = int64(p.k), nil
		} else {
			h.posT = p
		}
		return tuple(tv(p), V{}), true
	}, "(*os.File).Seek")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		h := r.fileOf(a[0])
		if h == nil {
			return r.errorf("invalid argument"), true
		}
		if h.closed {
			return r.errorf("close %s: file already closed", h.f.path), true
		}
		h.closed = true
		return V{}, true
	}, "(*os.File).Close")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		if h := r.fileOf(a[0]); h != nil && h.f != nil {
			return V{p: h.f.path}, true
		}
		return V{p: "/dev/stdout"}, true
	}, "(*os.File).Name")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		h := r.fileOf(a[0])
		b := r.sliceBytes(a[1])
		if h != nil && h.std == "stdout" {
			r.emit(b)
		}
		return nErr(len(b)), true
	}, "(*os.File).Write")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		h := r.fileOf(a[0])
		b := r.c.strBytes(a[1])
		if h != nil && h.std == "stdout" {
			r.emit(b)
		}
		return nErr(len(b)), true
	}, "(*os.File).WriteString")
	statOf := func(r *Run, h *fhandle) (V, bool) {
		pkg := r.p.pkgs["os"]
		if h == nil || h.f == nil || h.f.data == nil || pkg == nil {
			r.unsupported("Stat")
		}
		t := pkg.Members["fileStat"].(*ssa.Type).Type()
		st := zero(t)
		stT := t.Underlying().(*types.Struct)
		for i := 0; i < stT.NumFields(); i++ {
			switch stT.Field(i).Name() {
			case "size":
				st.p.(*Struct).f[i] = V{k: uint64(h.f.data.n)}
			case "name":
				st.p.(*Struct).f[i] = V{p: h.f.path[strings.LastIndexByte(h.f.path, '/')+1:]}
			}
		}
		return tuple(V{p: Iface{t: types.NewPointer(t), v: V{p: &st}}}, V{}), true
	}
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return statOf(r, r.fileOf(a[0])) }, "(*os.File).Stat")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		f, e := r.openFile(a[0])
		if !isIfaceNil(e) {
			return tuple(V{}, e), true
		}
		return statOf(r, r.fileOf(f))
	}, "os.Stat", "os.Lstat")
	readFile := func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		f, e := r.openFile(a[0])
		if !isIfaceNil(e) {
			return tuple(V{}, e), true
		}
		h := r.fileOf(f)
		if h.f.fault != nil {
			n := int64(r.concretize(*h.f.fault, 64, "read error"))
			return tuple(V{p: &Slice{arr: h.f.data.clone(), ln: min(n, int64(h.f.data.n)), cp: int64(h.f.data.n)}}, r.errorf("read %s: input/output error", h.f.path)), true
		}
		return tuple(V{p: &Slice{arr: h.f.data.clone(), ln: int64(h.f.data.n), cp: int64(h.f.data.n)}}, V{}), true
	}
	reg(readFile, "os.ReadFile", "io/ioutil.ReadFile")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { panic(pathEnd{"exit", "os.Exit"}) }, "os.Exit")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return V{p: ""}, true }, "os.Getenv")

	// encoding/binary
	reg(binaryRead, "encoding/binary.Read")

	// sorting through reflection
	sortSlice := func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		ifc, ok := a[0].p.(Iface)
		if !ok {
			return V{}, true
		}
		s, _ := ifc.v.p.(*Slice)
		if s == nil {
			return V{}, true
		}
		r.concSlice(s)
		for i := int64(1); i < s.ln; i++ {
			for j := i; j > 0; j-- {
				if !r.truth(r.callValue(a[1], []V{{k: uint64(j)}, {k: uint64(j - 1)}})) {
					break
				}
				x, y := s.arr.get(s.off+j), s.arr.get(s.off+j-1)
				s.arr.set(s.off+j, y)
				s.arr.set(s.off+j-1, x)
			}
		}
		return V{}, true
	}
	reg(sortSlice, "sort.Slice", "sort.SliceStable")

	// sync
	reg(noop, "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*sync.Pool).Put", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "time.Sleep")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		if !r.onceDone[a[0].p] {
			r.onceDone[a[0].p] = true
			r.callValue(a[1], nil)
		}
		return V{}, true
	}, "(*sync.Once).Do")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		st := a[0].p.(*V).p.(*Struct)
		f := st.f[len(st.f)-1]
		if f.p == nil {
			return V{}, true
		}
		return r.callValue(f, nil), true
	}, "(*sync.Pool).Get")
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(r *Run, v V) *MapV {
		if v.p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := r.syncMaps[v.p]
		if m == nil {
			m = &MapV{idx: map[any]*MapEnt{}, repo: true}
			r.syncMaps[v.p] = m
		}
		return m
	}
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		if e := r.mapFind(smap(r, a[0]), a[1], anyT); e != nil {
			return tuple(e.v, vBool(true)), true
		}
		return tuple(V{}, vBool(false)), true
	}, "(*sync.Map).Load")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.mapSet(smap(r, a[0]), a[1], a[2], anyT)
		return V{}, true
	}, "(*sync.Map).Store")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		m := smap(r, a[0])
		if e := r.mapFind(m, a[1], anyT); e != nil {
			return tuple(e.v, vBool(true)), true
		}
		r.mapSet(m, a[1], a[2], anyT)
		return tuple(a[2], vBool(false)), true
	}, "(*sync.Map).LoadOrStore")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		m := smap(r, a[0])
		if e := r.mapFind(m, a[1], anyT); e != nil {
			e.dead = true
			m.n--
			if k, ok := mapKey(e.k); ok {
				delete(m.idx, k)
			}
		}
		return V{}, true
	}, "(*sync.Map).Delete")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		m := smap(r, a[0])
		ents := append([]*MapEnt(nil), m.ents...)
		if r.mapOrder && m.n > 1 {
			// any order
			for i := 0; i < len(ents)-1; i++ {
				j := i + r.choose(len(ents)-i, "map order")
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
		for _, e := range ents {
			if e.dead {
				continue
			}
			if !r.truth(r.callValue(a[1], []V{e.k, e.v})) {
				break
			}
		}
		return V{}, true
	}, "(*sync.Map).Range")

	// sync/atomic on plain cells
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w := uint8(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return r.load(a[0]), true }, "sync/atomic.Load"+t)
		reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { r.store(a[0], a[1]); return V{}, true }, "sync/atomic.Store"+t)
		reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			v := tv(r.c.Add(r.T(r.load(a[0]), w), r.T(a[1], w)))
			r.store(a[0], v)
			return v, true
		}, "sync/atomic.Add"+t)
	}

	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt} {
		name, f := name, f
		reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			if a[0].t != nil {
				r.unsupported("math." + name + " of a symbolic float")
			}
			return floatV(f(vFloat(a[0], 64)), 64), true
		}, "math.arch"+name, "math."+name)
	}

	// flag and glog
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		n, ok1 := concStr(a, 0)
		v, ok2 := concStr(a, 1)
		if !ok1 {
			r.unsupported("flag.Set of a symbolic name")
		}
		if !ok2 {
			if n == "v" {
				b := r.c.strBytes(a[1])
				if len(b) == 1 && r.atomOf(b[0]) != nil {
					r.logV = int64(r.concretize(V{t: r.atomOf(b[0]).val}, 64, "log level"))
					return V{}, true
				}
			}
			if n == "log_dir" {
				r.flags[n] = "?"
				return V{}, true
			}
			r.unsupported("flag.Set of a symbolic value")
		}
		switch n {
		case "v":
			x, err := strconv.ParseInt(v, 0, 32)
			if err != nil {
				return r.errorf("%s", err), true
			}
			r.logV = x
		case "log_dir", "logtostderr", "alsologtostderr", "stderrthreshold", "vmodule", "log_backtrace_at":
		default:
			return r.errorf("no such flag -%s", n), true
		}
		r.flags[n] = v
		return V{}, true
	}, "flag.Set")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { r.flagParse(r.cliArgs); return V{}, true }, "flag.Parse")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		r.flagParse(r.ifaceArgs(a[1]))
		return zero(fn.Signature.Results().At(0).Type()), true
	}, "(*flag.FlagSet).Parse")
	reg(noop, "flag.Var", "flag.BoolVar", "flag.StringVar")
	glog := "github.com/golang/glog."
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		lv := a[0]
		c := r.c
		return tv(c.Sle(r.T(lv, 32), c.Const(32, uint64(r.logV)))), true
	}, glog+"V")
	for _, sev := range []string{"Info", "Warning", "Error"} {
		for _, sfx := range []string{"", "ln", "f", "Depth"} {
			s := sev
			reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
				r.logged(s)
				return V{}, true
			}, glog+sev+sfx)
		}
	}
	for _, sfx := range []string{"", "ln", "f"} {
		reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			if r.truth(a[0]) {
				r.logged("Info")
			}
			return V{}, true
		}, "("+glog+"Verbose).Info"+sfx)
	}
	for _, n := range []string{"Fatal", "Exit"} {
		for _, sfx := range []string{"", "ln", "f", "Depth"} {
			reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { panic(pathEnd{"exit", "glog fatal"}) }, glog+n+sfx)
		}
	}
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { r.logSaved = r.logTotal(); return V{}, true }, glog+"Flush")
	reg(noop, glog+"init", "flag.init", "os.init", "runtime.init", "reflect.init", "syscall.init", "sync.init", "internal/poll.init")

	// time
	reg(timeFormat, "(time.Time).Format")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		loc, local := r.locOf(a[0])
		off := V{}
		switch {
		case local && r.zone != nil:
			off = tv(r.zone.offset(r, r.T(a[1], 64)))
		case loc != nil && !local:
			return V{}, false
		}
		// name, offset, start, end, isDST
		return tuple(V{p: "UTC"}, off, V{k: 1 << 63}, V{k: 1<<63 - 1}, vBool(false)), true
	}, "(*time.Location).lookup")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		if loc, local := r.locOf(a[0]); loc != nil && !(local && r.zone == nil) {
			return a[0], true
		}
		return V{p: r.utcLoc()}, true
	}, "(*time.Location).get")
	// the clock stands still
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		nv := zero(fn.Signature.Results().At(0).Type())
		st := nv.p.(*Struct)
		st.f[1] = V{k: uint64(time.Date(2024, 6, 1, 12, 0, 0, 0, time.UTC).Unix()) + unixToInternal}
		st.f[2] = V{p: r.stdGlobal("time", "localLoc")}
		return nv, true
	}, "time.Now")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) { return V{}, true }, "time.Since", "time.Until")
}

func (r *Run) utcLoc() *V { return r.stdGlobal("time", "utcLoc") }

func isByteSlice(v V) bool { _, ok := v.p.(*Slice); return ok }

func (r *Run) byteTerms(v V) []*Term {
	if isByteSlice(v) {
		return r.sliceBytes(v)
	}
	return r.c.strBytes(v)
}

// binaryRead decodes into a pointer to a fixed-size value.
func binaryRead(r *Run, fn *ssa.Function, a []V) (V, bool) {
	ord, ok := a[1].p.(Iface)
	dst, ok2 := a[2].p.(Iface)
	if !ok || !ok2 {
		return V{}, false
	}
	big := strings.Contains(ord.t.String(), "bigEndian")
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		return V{}, false
	}
	size := int(sizeOfData(pt.Elem()))
	if size < 0 {
		return r.errorf("binary.Read: invalid type %s", dst.t), true
	}
	// read all bytes through the reader
	buf := &Slice{arr: newArr(types.Typ[types.Uint8], size), ln: int64(size), cp: int64(size)}
	rf := r.p.pkgs["io"].Func("ReadFull")
	res := r.call(rf, []V{a[0], {p: buf}}, nil).p.(Tuple)
	if !isIfaceNil(res[1]) {
		return res[1], true
	}
	b := r.sliceBytes(V{p: buf})
	i := 0
	var dec func(t types.Type) V
	dec = func(t types.Type) V {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			k := kindOf(u)
			w := int(k.w) / 8
			if k.w == 0 {
				w = 1
			}
			x := b[i : i+w]
			i += w
			parts := make([]*Term, w)
			for j := range parts {
				if big {
					parts[j] = x[j]
				} else {
					parts[j] = x[w-1-j]
				}
			}
			if k.w == 0 {
				return tv(r.c.Not(r.c.Eq(parts[0], r.c.bytes[0])))
			}
			return tv(r.c.Concat(parts...))
		case *types.Array:
			ar := newArr(u.Elem(), int(u.Len()))
			for j := 0; j < ar.n; j++ {
				ar.set(int64(j), dec(u.Elem()))
			}
			return V{p: ar}
		case *types.Struct:
			s := &Struct{f: make([]V, u.NumFields())}
			for j := range s.f {
				s.f[j] = dec(u.Field(j).Type())
				if u.Field(j).Name() == "_" {
					s.f[j] = zero(u.Field(j).Type())
				}
			}
			return V{p: s}
		}
		return V{}
	}
	r.store(dst.v, dec(pt.Elem()))
	return V{}, true
}

func sizeOfData(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String:
			return -1
		}
		return sizes.Sizeof(u)
	case *types.Array:
		e := sizeOfData(u.Elem())
		if e < 0 {
			return -1
		}
		return e * u.Len()
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			e := sizeOfData(u.Field(i).Type())
			if e < 0 {
				return -1
			}
			n += e
		}
		return n
	}
	return -1
}

const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

// timeFormat formats a time (UTC) with a concrete layout.
// calendar is the date and the time of day of a second.
type calendar struct {
	year, month, day, hour, min, second *Term
}

// localSec gives the seconds since 1970-01-01 on the clocks of the time's place; nil
// if they are concrete, or not in the range 1969 to 2241.
func (r *Run) localSec(v V) *Term {
	c := r.c
	st := v.p.(*Struct)
	wall, ext := st.f[0], st.f[1]
	if wall.t == nil && ext.t == nil && (r.zone == nil || wall.k>>63 != 0) {
		return nil
	}
	if !r.branch(c.Ult(r.T(wall, 64), c.Const(64, 1<<63))) {
		return nil // has a monotonic clock
	}
	sec := c.Sub(r.T(ext, 64), c.Const(64, unixToInternal))
	if loc, local := r.locOf(st.f[2]); local && r.zone != nil {
		sec = c.Add(sec, r.zone.offset(r, sec))
	} else if loc != nil && !local {
		res := r.call(r.p.lookupMethod(types.NewPointer(r.p.pkgs["time"].Type("Location").Type()), r.p.pkgs["time"].Pkg, "lookup"), []V{st.f[2], tv(sec)}, nil)
		sec = c.Add(sec, r.T(res.p.(Tuple)[1], 64))
	}
	if sec.isConst() || !r.branch(c.Ult(c.Add(sec, c.Const(64, 365*86400)), c.Const(64, 1<<33))) {
		return nil
	}
	return sec
}

// calendarOf defines the calendar fields of a second as variables by the equation
// that gives the second from them (it has exactly one solution).
func (r *Run) calendarOf(sec *Term) *calendar {
	if f := r.calendars[sec]; f != nil {
		return f
	}
	c := r.c
	t := time.Unix(int64(r.eval(sec)), 0).UTC()
	m := append(Model(nil), r.model...)
	fv := func(name string, w uint8, umax uint64, val int) *Term {
		x := c.NewVar(w, name, umax)
		for len(m) < int(x.k) {
			m = append(m, 0)
		}
		if int(x.k) == len(m) {
			m = append(m, 0)
		}
		m[x.k] = uint64(val)
		return c.Zext(x, 64)
	}
	k := func(v uint64) *Term { return c.Const(64, v) }
	f := &calendar{
		year:   fv("year", 12, 2243, t.Year()),
		month:  fv("month", 4, 12, int(t.Month())),
		day:    fv("day", 5, 31, t.Day()),
		hour:   fv("hour", 5, 23, t.Hour()),
		min:    fv("min", 6, 59, t.Minute()),
		second: fv("sec", 6, 59, t.Second()),
	}
	r.model = m
	c.NewEval()
	early := c.Ule(f.month, k(2))
	yy := c.Ite(early, c.Sub(f.year, k(1)), f.year)
	mm := c.Ite(early, c.Add(f.month, k(9)), c.Sub(f.month, k(3)))
	days := c.Sub(c.Add(c.Sub(c.Add(c.Add(c.Mul(yy, k(365)), c.Udiv(yy, k(4))), c.Udiv(yy, k(400))), c.Udiv(yy, k(100))),
		c.Add(c.Udiv(c.Add(c.Mul(mm, k(153)), k(2)), k(5)), f.day)), k(719469))
	eq := c.Eq(c.Add(c.Mul(c.Add(c.Mul(days, k(24)), f.hour), k(3600)), c.Add(c.Mul(f.min, k(60)), f.second)), sec)
	is := func(t *Term, vs ...uint64) *Term {
		e := c.F
		for _, v := range vs {
			e = c.Or(e, c.Eq(t, k(v)))
		}
		return e
	}
	leap := c.And(c.Eq(c.Urem(f.year, k(4)), k(0)), c.Or(c.Not(c.Eq(c.Urem(f.year, k(100)), k(0))), c.Eq(c.Urem(f.year, k(400)), k(0))))
	short := c.Or(is(f.month, 2), is(f.month, 4, 6, 9, 11))
	for _, x := range []*Term{
		c.Ule(k(1969), f.year), c.Ule(k(1), f.month), c.Ule(k(1), f.day),
		c.Or(c.Not(short), c.Ule(f.day, k(30))),
		c.Or(c.Not(is(f.month, 2)), c.Ule(f.day, k(29))),
		c.Or(c.Not(is(f.month, 2)), c.Or(leap, c.Ule(f.day, k(28)))),
		eq,
	} {
		if r.eval(x) != 1 {
			panic("calendarOf: calendar equation")
		}
		r.assume(x)
	}
	if r.calendars == nil {
		r.calendars = map[*Term]*calendar{}
	}
	r.calendars[sec] = f
	return f
}

func init() {
	part := func(name string, get func(c *Ctx, f *calendar) []*Term) {
		reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
			sec := r.localSec(a[0])
			if sec == nil {
				return V{}, false
			}
			ts := get(r.c, r.calendarOf(sec))
			if len(ts) == 1 {
				return tv(ts[0]), true
			}
			var out []V
			for _, t := range ts {
				out = append(out, tv(t))
			}
			return tuple(out...), true
		}, "(time.Time)."+name)
	}
	part("Year", func(c *Ctx, f *calendar) []*Term { return []*Term{f.year} })
	part("Month", func(c *Ctx, f *calendar) []*Term { return []*Term{f.month} })
	part("Day", func(c *Ctx, f *calendar) []*Term { return []*Term{f.day} })
	part("Hour", func(c *Ctx, f *calendar) []*Term { return []*Term{f.hour} })
	part("Minute", func(c *Ctx, f *calendar) []*Term { return []*Term{f.min} })
	part("Second", func(c *Ctx, f *calendar) []*Term { return []*Term{f.second} })
	part("Date", func(c *Ctx, f *calendar) []*Term { return []*Term{f.year, f.month, f.day} })
	part("Clock", func(c *Ctx, f *calendar) []*Term { return []*Term{f.hour, f.min, f.second} })
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		v, _ := timeFormat(r, fn, []V{a[0], a[2]})
		b := append(append([]*Term(nil), r.sliceBytes(a[1])...), r.c.strBytes(v)...)
		return r.bytesSlice(b), true
	}, "(time.Time).AppendFormat")
}

func timeFormat(r *Run, fn *ssa.Function, a []V) (V, bool) {
	c := r.c
	st := a[0].p.(*Struct)
	layout, ok := isConcreteStr(a[1])
	if !ok {
		r.unsupported("symbolic time layout")
	}
	sec := r.localSec(a[0])
	if sec == nil {
		wall, ext := st.f[0], st.f[1]
		if wall.t != nil || wall.k>>63 != 0 {
			r.unsupported("time value with monotonic clock or symbolic nanoseconds")
		}
		sec := c.Sub(r.T(ext, 64), c.Const(64, unixToInternal))
		if loc, local := r.locOf(st.f[2]); local && r.zone != nil {
			sec = c.Add(sec, r.zone.offset(r, sec))
		} else if loc != nil && !local {
			res := r.call(r.p.lookupMethod(types.NewPointer(r.p.pkgs["time"].Type("Location").Type()), r.p.pkgs["time"].Pkg, "lookup"), []V{st.f[2], tv(sec)}, nil)
			sec = c.Add(sec, r.T(res.p.(Tuple)[1], 64))
		}
		if !sec.isConst() {
			r.unsupported("time before 1969 or after 2241")
		}
		return V{p: time.Unix(int64(sec.k), int64(wall.k&(1<<30-1))).UTC().Format(layout)}, true
	}
	f := r.calendarOf(sec)
	year, month, day, hour, min, second := f.year, f.month, f.day, f.hour, f.min, f.second
	k := func(v uint64) *Term { return c.Const(64, v) }
	num := func(t *Term, width int, z bool) []*Term {
		return r.intText(tv(t), kind{w: t.w, scalar: true}, 10, width, z, "")
	}
	h12 := c.Urem(hour, k(12))
	h12 = c.Ite(c.Eq(h12, k(0)), k(12), h12)
	var out []*Term
	for i := 0; i < len(layout); {
		rest := layout[i:]
		has := func(p string) bool { return strings.HasPrefix(rest, p) }
		switch {
		case has("2006"):
			out = append(out, num(year, 4, true)...)
			i += 4
		case has("Z07:00"):
			if st.f[2].p != nil && r.zone != nil {
				r.unsupported("time layout %q", layout)
			}
			out = append(out, c.Const(8, 'Z'))
			i += 6
		case has("PM"):
			out = append(out, c.Ite(c.Ule(k(12), hour), c.Const(8, 'P'), c.Const(8, 'A')), c.Const(8, 'M'))
			i += 2
		case has("January"), has("Jan"), has("Monday"), has("Mon"), has("MST"), has("Z07"), has("-07"), has("pm"), has("002"):
			r.unsupported("time layout %q", layout)
		case has("01"):
			out = append(out, num(month, 2, true)...)
			i += 2
		case has("02"):
			out = append(out, num(day, 2, true)...)
			i += 2
		case has("03"):
			out = append(out, num(h12, 2, true)...)
			i += 2
		case has("04"):
			out = append(out, num(min, 2, true)...)
			i += 2
		case has("05"):
			out = append(out, num(second, 2, true)...)
			i += 2
		case has("06"):
			out = append(out, num(c.Urem(year, k(100)), 2, true)...)
			i += 2
		case has("15"):
			out = append(out, num(hour, 2, true)...)
			i += 2
		case rest[0] >= '0' && rest[0] <= '9', rest[0] == '_':
			r.unsupported("time layout %q", layout)
		case (rest[0] == '.' || rest[0] == ',') && len(rest) > 1 && (rest[1] == '0' || rest[1] == '9'):
			r.unsupported("time layout %q", layout)
		default:
			out = append(out, c.bytes[rest[0]])
			i++
		}
	}
	return mkStr(out), true
}

var _ = fmt.Sprint

// logged counts a message; the first one opens the log files.
func (r *Run) logged(sev string) {
	if r.logTotal() == 0 {
		r.logDir = r.flags["log_dir"]
	}
	r.logCount[sev]++
}

func (r *Run) logTotal() (n int64) {
	for _, k := range r.logCount {
		n += k
	}
	return n
}
