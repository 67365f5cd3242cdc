package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an interpreter value. Scalars (bool, integers, float bits) use k, or t
// when symbolic. Everything else is in p.
type V struct {
	k uint64
	t *Term
	p any
}

// Atoms and symbolic bytes: a string is either a Go string or *SymStr.
type SymStr struct{ b []*Term }

type Arr struct {
	n     int
	bytes []byte  // byte elements
	s     []*Term // symbolic overrides for byte elements (nil when none)
	v     []V     // other elements
	elem  types.Type
	isB   bool
}

type Slice struct {
	arr            *Arr
	off, ln, cp    int64
	offT, lnT, cpT *Term // symbolic parts (nil when concrete)
}

type ElemPtr struct {
	arr *Arr
	i   int64
	t   *Term
}

type Struct struct{ f []V }

type Iface struct {
	t types.Type
	v V
}

type Closure struct {
	fn   *ssa.Function
	free []V
}

type Tuple []V

type MapEnt struct {
	k, v V
	dead bool
}
type MapV struct {
	ents []*MapEnt
	idx  map[any]*MapEnt // concrete keys
	n    int
	sym  bool // has symbolic keys
	repo bool
}

type MapIter struct {
	m    *MapV
	i    int
	todo []*MapEnt // nondeterministic order
}
type StrIter struct {
	s V
	i int
}

// Native wraps host objects behind intrinsics (files).
type Native struct{ o any }

func byteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func newArr(elem types.Type, n int) *Arr {
	a := &Arr{n: n, elem: elem}
	if byteElem(elem) {
		a.isB = true
		a.bytes = make([]byte, n)
	} else {
		a.v = make([]V, n)
		for i := range a.v {
			a.v[i] = zero(elem)
		}
	}
	return a
}

func (a *Arr) get(i int64) V {
	if a.isB {
		if a.s != nil {
			if t := a.s[i]; t != nil {
				return V{t: t}
			}
		}
		return V{k: uint64(a.bytes[i])}
	}
	return copyVal(a.v[i])
}

func (a *Arr) set(i int64, v V) {
	if a.isB {
		if v.t != nil {
			if v.t.isConst() {
				a.bytes[i] = byte(v.t.k)
				if a.s != nil {
					a.s[i] = nil
				}
				return
			}
			if a.s == nil {
				a.s = make([]*Term, a.n)
			}
			a.s[i] = v.t
			return
		}
		a.bytes[i] = byte(v.k)
		if a.s != nil {
			a.s[i] = nil
		}
		return
	}
	storeInto(&a.v[i], v)
}

func (a *Arr) clone() *Arr {
	b := &Arr{n: a.n, elem: a.elem, isB: a.isB}
	if a.isB {
		b.bytes = append([]byte(nil), a.bytes...)
		if a.s != nil {
			b.s = append([]*Term(nil), a.s...)
		}
	} else {
		b.v = make([]V, a.n)
		for i := range a.v {
			b.v[i] = copyVal(a.v[i])
		}
	}
	return b
}

// copyVal copies aggregate values (struct, array); everything else is shared.
func copyVal(v V) V {
	switch x := v.p.(type) {
	case *Struct:
		n := &Struct{f: make([]V, len(x.f))}
		for i := range x.f {
			n.f[i] = copyVal(x.f[i])
		}
		return V{p: n}
	case *Arr:
		return V{p: x.clone()}
	}
	return v
}

// storeInto overwrites *dst in place so that interior pointers stay valid.
func storeInto(dst *V, v V) {
	switch x := v.p.(type) {
	case *Struct:
		if d, ok := dst.p.(*Struct); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range x.f {
				storeInto(&d.f[i], x.f[i])
			}
			return
		}
		*dst = copyVal(v)
		return
	case *Arr:
		if d, ok := dst.p.(*Arr); ok && d.n == x.n {
			if d == x {
				return
			}
			if x.isB {
				copy(d.bytes, x.bytes)
				d.s = nil
				if x.s != nil {
					d.s = append([]*Term(nil), x.s...)
				}
			} else {
				for i := range x.v {
					storeInto(&d.v[i], x.v[i])
				}
			}
			return
		}
		*dst = copyVal(v)
		return
	}
	*dst = v
}

func zero(t types.Type) V {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return V{p: ""}
		}
		return V{}
	case *types.Struct:
		s := &Struct{f: make([]V, t.NumFields())}
		for i := range s.f {
			s.f[i] = zero(t.Field(i).Type())
		}
		return V{p: s}
	case *types.Array:
		return V{p: newArr(t.Elem(), int(t.Len()))}
	case *types.Tuple:
		tp := make(Tuple, t.Len())
		for i := range tp {
			tp[i] = zero(t.At(i).Type())
		}
		return V{p: tp}
	}
	return V{}
}

type kind struct {
	w      uint8
	signed bool
	float  bool
	str    bool
	scalar bool
}

func kindOf(t types.Type) kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kind{w: 0, scalar: true}
	case types.Int, types.Int64, types.UntypedInt:
		return kind{w: 64, signed: true, scalar: true}
	case types.Int8:
		return kind{w: 8, signed: true, scalar: true}
	case types.Int16:
		return kind{w: 16, signed: true, scalar: true}
	case types.Int32, types.UntypedRune:
		return kind{w: 32, signed: true, scalar: true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kind{w: 64, scalar: true}
	case types.Uint8:
		return kind{w: 8, scalar: true}
	case types.Uint16:
		return kind{w: 16, scalar: true}
	case types.Uint32:
		return kind{w: 32, scalar: true}
	case types.Float32:
		return kind{w: 32, float: true, scalar: true}
	case types.Float64, types.UntypedFloat:
		return kind{w: 64, float: true, scalar: true}
	case types.String, types.UntypedString:
		return kind{str: true}
	}
	return kind{}
}

func strLen(v V) int {
	switch s := v.p.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	if v.p == nil {
		return 0
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

// mkStr builds a string value from byte terms.
func mkStr(b []*Term) V {
	for _, t := range b {
		if !t.isConst() {
			return V{p: &SymStr{b: b}}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.k)
	}
	return V{p: string(x)}
}

func (c *Ctx) strBytes(v V) []*Term {
	switch s := v.p.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := range b {
			b[i] = c.bytes[s[i]]
		}
		return b
	case *SymStr:
		return s.b
	}
	if v.p == nil {
		return nil
	}
	panic(fmt.Sprintf("strBytes %T", v.p))
}

func (c *Ctx) strSub(v V, i, j int) V {
	switch s := v.p.(type) {
	case string:
		return V{p: s[i:j]}
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	return V{p: ""}
}

func (c *Ctx) strCat(a, b V) V {
	as, ok1 := a.p.(string)
	bs, ok2 := b.p.(string)
	if ok1 && ok2 {
		return V{p: as + bs}
	}
	x := c.strBytes(a)
	y := c.strBytes(b)
	return mkStr(append(append(make([]*Term, 0, len(x)+len(y)), x...), y...))
}

func isConcreteStr(v V) (string, bool) {
	if v.p == nil {
		return "", true
	}
	s, ok := v.p.(string)
	return s, ok
}

func describe(v V) string {
	if v.t != nil {
		return "sym " + v.t.String()
	}
	switch p := v.p.(type) {
	case nil:
		return fmt.Sprintf("%d", v.k)
	case string:
		return fmt.Sprintf("%q", p)
	case *SymStr:
		var b strings.Builder
		b.WriteString("sym\"")
		for _, t := range p.b {
			if t.isConst() && t.k >= 32 && t.k < 127 {
				b.WriteByte(byte(t.k))
			} else if t.isConst() {
				fmt.Fprintf(&b, "\\x%02x", t.k)
			} else {
				fmt.Fprintf(&b, "<%s>", t.str(2))
			}
		}
		b.WriteString("\"")
		return b.String()
	case Iface:
		return fmt.Sprintf("%s(%s)", p.t, describe(p.v))
	}
	return fmt.Sprintf("%T", v.p)
}
