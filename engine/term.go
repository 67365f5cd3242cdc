package main

// Hash-consed bit-vector terms with a normalising constructor layer.
// Width 0 is Bool; bit-vectors have width 1..64.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	OBNot
	OBAnd
	OBOr
	OBXor
	OBAdd
	OBMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OConcat // args: most significant first
	OExtract
	OSext
)

type Term struct {
	op   Op
	w    uint8
	k    uint64 // const value, var index, extract low bit
	args []*Term
	id   int32
	mb   uint64 // bits that may be one
	umax uint64

	evGen  int32
	evVal  uint64
	defGen int32 // solver definition generation
	name   string
	av     bool     // mentions the digit variable of an atom
	sup    []uint64 // variables it mentions, a bit set over their indices
	supOK  bool
}

// support gives the variables of a term.
func (t *Term) support() []uint64 {
	if t.supOK {
		return t.sup
	}
	t.supOK = true
	if t.op == OVar {
		t.sup = make([]uint64, t.k/64+1)
		t.sup[t.k/64] = 1 << (t.k % 64)
		return t.sup
	}
	if len(t.args) == 1 {
		t.sup = t.args[0].support()
		return t.sup
	}
	var out []uint64
	for _, a := range t.args {
		for i, x := range a.support() {
			for len(out) <= i {
				out = append(out, 0)
			}
			out[i] |= x
		}
	}
	t.sup = out
	return out
}

func meets(a, b []uint64) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// Atom is the payload of a pseudo-byte standing for the text of a formatted value.
type Atom struct {
	kind  string // "int", "float", "opaque"
	val   *Term  // 64-bit value (int) or float bits
	neg   bool   // int: value is signed
	width int    // minimal width
	zero  bool   // zero padded
	base  int
	key   string // opaque: identity
	fw    int    // float width 32/64
	fmt   string // float verb
}

type Ctx struct {
	tab     map[uint64][]*Term
	next    int32
	vars    [][]*Term // by index: the variables of the different widths/bounds used at this index
	cur     []*Term   // the variable used at each index on the current path
	bounded []*Term   // variables with a range narrower than their width
	bytes   [256]*Term
	T, F    *Term
	evGen   int32
	gen     int32
}

// maxTerms bounds the memory of one worker.
const maxTerms = 8000000

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Term{}}
	c.gen, c.evGen = 1, 1
	c.T = c.mk(OConst, 0, 1)
	c.F = c.mk(OConst, 0, 0)
	for i := 0; i < 256; i++ {
		c.bytes[i] = c.mk(OConst, 8, uint64(i))
	}
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, k uint64, args ...*Term) *Term {
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)<<32 ^ k*0xC2B2AE3D27D4EB4F
	for _, a := range args {
		h = (h ^ uint64(a.id)) * 0x100000001B3
		h ^= h >> 29
	}
	for _, t := range c.tab[h] {
		if t.op == op && t.w == w && t.k == k && len(t.args) == len(args) {
			same := true
			for i := range args {
				if args[i] != t.args[i] {
					same = false
					break
				}
			}
			if same {
				return t
			}
		}
	}
	t := &Term{op: op, w: w, k: k, id: c.next}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
		for _, a := range args {
			if a.av {
				t.av = true
			}
		}
	}
	c.next++
	if c.next > maxTerms {
		panic(pathEnd{"cut", "too many terms"})
	}
	c.bounds(t)
	c.tab[h] = append(c.tab[h], t)
	return t
}

func up(x uint64) uint64 { // all bits up to the msb of x
	if x == 0 {
		return 0
	}
	return mask(uint8(bits.Len64(x)))
}

func (c *Ctx) bounds(t *Term) {
	m := mask(t.w)
	t.mb, t.umax = m, m
	switch t.op {
	case OConst:
		t.mb, t.umax = t.k, t.k
	case OIte:
		if t.w > 0 {
			t.mb = t.args[1].mb | t.args[2].mb
			t.umax = max(t.args[1].umax, t.args[2].umax)
		}
	case OBAnd:
		t.mb = t.args[0].mb & t.args[1].mb
		t.umax = min(t.args[0].umax, t.args[1].umax)
	case OBOr, OBXor:
		t.mb = t.args[0].mb | t.args[1].mb
	case OBAdd:
		s, carry := bits.Add64(t.args[0].umax, t.args[1].umax, 0)
		if carry == 0 && s <= m {
			t.umax = s
			t.mb = up(s)
		}
	case OBMul:
		h, l := bits.Mul64(t.args[0].umax, t.args[1].umax)
		if h == 0 && l <= m {
			t.umax = l
			t.mb = up(l)
		}
	case OUdiv:
		if t.args[1].op == OConst && t.args[1].k != 0 {
			t.umax = t.args[0].umax / t.args[1].k
			t.mb = up(t.umax)
		}
	case OUrem:
		if t.args[1].op == OConst && t.args[1].k != 0 {
			t.umax = min(t.args[1].k-1, t.args[0].umax)
			t.mb = up(t.umax)
		}
	case OConcat:
		t.mb, t.umax = 0, 0
		for _, a := range t.args {
			t.mb = t.mb<<a.w | a.mb
			t.umax = t.umax<<a.w | a.umax
		}
	case OExtract:
		t.mb = (t.args[0].mb >> t.k) & m
		if t.k == 0 && t.args[0].umax <= m {
			t.umax = t.args[0].umax
		} else if uint8(t.k)+t.w == t.args[0].w {
			t.umax = t.args[0].umax >> t.k
		}
	case OLshr:
		t.umax = t.args[0].umax
		t.mb = up(t.umax)
	}
	if t.w > 0 {
		if t.umax > t.mb {
			t.umax = t.mb
		}
		t.mb &= up(t.umax)
	}
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 8 && c.bytes[v] != nil {
		return c.bytes[v]
	}
	return c.mk(OConst, w, v)
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// NewVar returns the next variable of the current path. The same sequence of
// calls on different paths gives the same terms. umax bounds the value.
func (c *Ctx) NewVar(w uint8, name string, umax uint64) *Term { return c.newVar(w, name, umax, false) }

func (c *Ctx) newVar(w uint8, name string, umax uint64, av bool) *Term {
	i := len(c.cur)
	for len(c.vars) <= i {
		c.vars = append(c.vars, nil)
	}
	umax &= mask(w)
	var t *Term
	for _, v := range c.vars[i] {
		if v.w == w && v.umax == umax && v.av == av {
			t = v
		}
	}
	if t == nil {
		t = &Term{op: OVar, w: w, k: uint64(i), id: c.next, av: av, mb: up(umax), umax: umax}
		c.next++
		if w == 0 {
			t.mb = 1
		}
		if w > 0 && umax != mask(w) {
			c.bounded = append(c.bounded, t)
		}
		c.vars[i] = append(c.vars[i], t)
	}
	t.name = name
	c.cur = append(c.cur, t)
	return t
}

// ResetVars starts a new path.
func (c *Ctx) ResetVars() { c.cur = c.cur[:0] }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) sval() int64   { return sx(t.k, t.w) }
func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	return c.mk(OAnd, 0, 0, a, b)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	return c.mk(OOr, 0, 0, a, b)
}

// piece boundaries of a term: widths from least significant
func pieceBounds(t *Term, set map[uint8]bool) {
	if t.op == OConcat {
		pos := uint8(0)
		for i := len(t.args) - 1; i >= 0; i-- {
			pos += t.args[i].w
			set[pos] = true
		}
	}
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.F
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k&^a.mb != 0 || b.k > a.umax {
			return c.F
		}
		if a.op == OIte {
			x, y := a.args[1], a.args[2]
			if x.isConst() && y.isConst() {
				r1, r2 := x.k == b.k, y.k == b.k
				switch {
				case r1 && r2:
					return c.T
				case r1:
					return a.args[0]
				case r2:
					return c.Not(a.args[0])
				default:
					return c.F
				}
			}
			if x.isConst() || y.isConst() {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		}
		if a.op == OBXor && a.args[1].isConst() {
			return c.Eq(a.args[0], c.Const(a.w, b.k^a.args[1].k))
		}
		if a.op == OBAdd && a.args[1].isConst() {
			return c.Eq(a.args[0], c.Const(a.w, b.k-a.args[1].k))
		}
		if a.op == OBNot {
			return c.Eq(a.args[0], c.Const(a.w, ^b.k))
		}
		if a.op == OSext {
			in := a.args[0]
			if uint64(sx(b.k&mask(in.w), in.w))&mask(a.w) != b.k {
				return c.F
			}
			return c.Eq(in, c.Const(in.w, b.k))
		}
	} else {
		// disjoint ranges cannot be checked without minima; leave
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OConcat || b.op == OConcat {
		set := map[uint8]bool{}
		pieceBounds(a, set)
		pieceBounds(b, set)
		r := c.T
		lo := uint8(0)
		for hi := uint8(1); hi <= a.w; hi++ {
			if set[hi] {
				r = c.And(r, c.Eq(c.Extract(a, hi-1, lo), c.Extract(b, hi-1, lo)))
				if r == c.F {
					return r
				}
				lo = hi
			}
		}
		return r
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b)
}

func (c *Ctx) narrow(a, b *Term) (*Term, *Term) {
	w := uint8(bits.Len64(a.mb | b.mb))
	if w == 0 {
		w = 1
	}
	if w < a.w {
		return c.Extract(a, w-1, 0), c.Extract(b, w-1, 0)
	}
	return a, b
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if a == b {
		return c.F
	}
	if b.isConst() {
		if a.umax < b.k {
			return c.T
		}
		if b.k == 0 {
			return c.F
		}
		if b.k == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
	}
	if a.isConst() {
		if b.umax <= a.k {
			return c.F
		}
		if a.k == 0 {
			return c.Not(c.Eq(b, a))
		}
	}
	a, b = c.narrow(a, b)
	return c.mk(OUlt, 0, 0, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.sval() < b.sval())
	}
	if a == b {
		return c.F
	}
	half := uint64(1) << (a.w - 1)
	if a.umax < half && b.umax < half {
		return c.Ult(a, b)
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	if b.isConst() && b.k == 0 {
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.Const(1, 1))
	}
	return c.mk(OSlt, 0, 0, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k == 1 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if a.op == OIte {
		if a.args[0] == cond {
			return c.Ite(cond, a.args[1], b)
		}
	}
	if b.op == OIte {
		// the condition of an if-then-else is never a negation
		if b.args[0] == cond {
			return c.Ite(cond, a, b.args[2])
		}
	}
	return c.mk(OIte, a.w, 0, cond, a, b)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	if a.op == OConcat {
		n := make([]*Term, len(a.args))
		for i, x := range a.args {
			n[i] = c.BNot(x)
		}
		return c.Concat(n...)
	}
	return c.mk(OBNot, a.w, 0, a)
}

// constant mask application as concat of extracts and zeros
func (c *Ctx) maskConst(a *Term, m uint64) *Term {
	m &= mask(a.w)
	if a.mb&^m == 0 {
		return a
	}
	if a.mb&m == 0 {
		return c.Const(a.w, 0)
	}
	var parts []*Term // msb first
	hi := int(a.w) - 1
	for hi >= 0 {
		bit := m >> uint(hi) & 1
		lo := hi
		for lo > 0 && m>>uint(lo-1)&1 == bit {
			lo--
		}
		if bit == 1 {
			parts = append(parts, c.Extract(a, uint8(hi), uint8(lo)))
		} else {
			parts = append(parts, c.Const(uint8(hi-lo+1), 0))
		}
		hi = lo - 1
	}
	return c.Concat(parts...)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k&b.k)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.BAnd(a.args[1], b), c.BAnd(a.args[2], b))
		}
		return c.maskConst(a, b.k)
	}
	if a.mb&b.mb == 0 {
		return c.Const(a.w, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, a.w, 0, a, b)
}

// pieces of t, least significant first
func pieces(t *Term) []*Term {
	if t.op != OConcat {
		return []*Term{t}
	}
	r := make([]*Term, len(t.args))
	for i, a := range t.args {
		r[len(r)-1-i] = a
	}
	return r
}

func (c *Ctx) split(a, b *Term, f func(x, y *Term) *Term) *Term {
	set := map[uint8]bool{a.w: true}
	pieceBounds(a, set)
	pieceBounds(b, set)
	var parts []*Term
	hi := int(a.w)
	for h := int(a.w) - 1; h >= 0; h-- {
		if h == 0 || set[uint8(h)] {
			parts = append(parts, f(c.Extract(a, uint8(hi-1), uint8(h)), c.Extract(b, uint8(hi-1), uint8(h))))
			hi = h
		}
	}
	return c.Concat(parts...)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k|b.k)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return b
		}
		if b.k&(b.k+1) != 0 || a.op == OConcat { // split at constant runs
			return c.orConst(a, b.k)
		}
		return c.orConst(a, b.k)
	}
	if a.op == OConcat || b.op == OConcat {
		return c.split(a, b, c.BOr)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBOr, a.w, 0, a, b)
}

func (c *Ctx) orConst(a *Term, m uint64) *Term {
	var parts []*Term
	hi := int(a.w) - 1
	for hi >= 0 {
		bit := m >> uint(hi) & 1
		lo := hi
		for lo > 0 && m>>uint(lo-1)&1 == bit {
			lo--
		}
		w := uint8(hi - lo + 1)
		if bit == 0 {
			parts = append(parts, c.Extract(a, uint8(hi), uint8(lo)))
		} else {
			parts = append(parts, c.Const(w, mask(w)))
		}
		hi = lo - 1
	}
	return c.Concat(parts...)
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k^b.k)
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return c.BNot(a)
		}
		var parts []*Term
		hi := int(a.w) - 1
		for hi >= 0 {
			bit := b.k >> uint(hi) & 1
			lo := hi
			for lo > 0 && b.k>>uint(lo-1)&1 == bit {
				lo--
			}
			e := c.Extract(a, uint8(hi), uint8(lo))
			if bit == 1 {
				e = c.BNot(e)
			}
			parts = append(parts, e)
			hi = lo - 1
		}
		return c.Concat(parts...)
	}
	if a.op == OConcat || b.op == OConcat {
		return c.split(a, b, c.BXor)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBXor, a.w, 0, a, b)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k+b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.op == OBAdd && a.args[1].isConst() {
			return c.Add(a.args[0], c.Const(a.w, a.args[1].k+b.k))
		}
		return c.mk(OBAdd, a.w, 0, a, b)
	}
	if a.op == OBAdd && a.args[1].isConst() {
		return c.Add(c.Add(a.args[0], b), a.args[1])
	}
	if b.op == OBAdd && b.args[1].isConst() {
		return c.Add(c.Add(a, b.args[0]), b.args[1])
	}
	// x + (-1*x) = 0 ; (p + -1*q) + q = p
	if c.isNegOf(a, b) {
		return c.Const(a.w, 0)
	}
	if a.op == OBAdd {
		if c.isNegOf(a.args[0], b) {
			return a.args[1]
		}
		if c.isNegOf(a.args[1], b) {
			return a.args[0]
		}
	}
	if b.op == OBAdd {
		if c.isNegOf(b.args[0], a) {
			return b.args[1]
		}
		if c.isNegOf(b.args[1], a) {
			return b.args[0]
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAdd, a.w, 0, a, b)
}

func (c *Ctx) isNegOf(a, b *Term) bool {
	if a.op == OBMul && a.args[1].isConst() && a.args[1].k == mask(a.w) && a.args[0] == b {
		return true
	}
	if b.op == OBMul && b.args[1].isConst() && b.args[1].k == mask(b.w) && b.args[0] == a {
		return true
	}
	return false
}

func (c *Ctx) Neg(a *Term) *Term { return c.Mul(a, c.Const(a.w, ^uint64(0))) }
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.Const(a.w, -b.k))
	}
	return c.Add(a, c.Neg(b))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k*b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case b.k == 0:
			return b
		case b.k == 1:
			return a
		case b.k&(b.k-1) == 0:
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if a.op == OBMul && a.args[1].isConst() {
			return c.Mul(a.args[0], c.Const(a.w, a.args[1].k*b.k))
		}
		if a.op == OBAdd && b.k == mask(b.w) {
			return c.Add(c.Mul(a.args[0], b), c.Mul(a.args[1], b))
		}
		return c.mk(OBMul, a.w, 0, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBMul, a.w, 0, a, b)
}

// Udiv and Urem: the divisor is known non-zero on the path.
func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return c.Const(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return c.Lshr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if a.umax < b.k {
			return c.Const(a.w, 0)
		}
	}
	if n := uint8(bits.Len64(a.mb | b.mb)); n < a.w && n > 0 {
		return c.Zext(c.mk(OUdiv, n, 0, c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.w)
	}
	return c.mk(OUdiv, a.w, 0, a, b)
}
func (c *Ctx) Urem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return c.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return c.maskConst(a, b.k-1)
		}
		if a.umax < b.k {
			return a
		}
	}
	if n := uint8(bits.Len64(a.mb | b.mb)); n < a.w && n > 0 {
		return c.Zext(c.mk(OUrem, n, 0, c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.w)
	}
	return c.mk(OUrem, a.w, 0, a, b)
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		if b.sval() == -1 {
			return c.Const(a.w, -a.k)
		}
		return c.Const(a.w, uint64(a.sval()/b.sval()))
	}
	half := uint64(1) << (a.w - 1)
	if a.umax < half && b.umax < half {
		return c.Udiv(a, b)
	}
	return c.mk(OSdiv, a.w, 0, a, b)
}
func (c *Ctx) Srem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		if b.sval() == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(a.sval()%b.sval()))
	}
	half := uint64(1) << (a.w - 1)
	if a.umax < half && b.umax < half {
		return c.Urem(a, b)
	}
	return c.mk(OSrem, a.w, 0, a, b)
}

// shifts: amount has the same width as a (already clamped by the caller)
func (c *Ctx) Shl(a, s *Term) *Term {
	if s.isConst() {
		if s.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if s.k == 0 {
			return a
		}
		n := uint8(s.k)
		return c.Concat(c.Extract(a, a.w-1-n, 0), c.Const(n, 0))
	}
	return c.mk(OShl, a.w, 0, a, s)
}
func (c *Ctx) Lshr(a, s *Term) *Term {
	if s.isConst() {
		if s.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if s.k == 0 {
			return a
		}
		n := uint8(s.k)
		return c.Concat(c.Const(n, 0), c.Extract(a, a.w-1, n))
	}
	return c.mk(OLshr, a.w, 0, a, s)
}
func (c *Ctx) Ashr(a, s *Term) *Term {
	if s.isConst() {
		if s.k >= uint64(a.w) {
			return c.Sext(c.Extract(a, a.w-1, a.w-1), a.w)
		}
		if s.k == 0 {
			return a
		}
		return c.Sext(c.Extract(a, a.w-1, uint8(s.k)), a.w)
	}
	return c.mk(OAshr, a.w, 0, a, s)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext")
	}
	return c.Concat(c.Const(w-a.w, 0), a)
}
func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(a.sval()))
	}
	if a.mb>>(a.w-1) == 0 {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.args[0], w)
	}
	return c.mk(OSext, w, 0, a)
}
func (c *Ctx) Trunc(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	return c.Extract(a, w-1, 0)
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if hi >= a.w || lo > hi {
		panic(fmt.Sprintf("extract %d %d of %d", hi, lo, a.w))
	}
	if a.isConst() {
		return c.Const(w, a.k>>lo)
	}
	if (a.mb>>lo)&mask(w) == 0 {
		return c.Const(w, 0)
	}
	switch a.op {
	case OExtract:
		return c.Extract(a.args[0], hi+uint8(a.k), lo+uint8(a.k))
	case OConcat:
		var parts []*Term
		pos := a.w
		for _, x := range a.args {
			xl := pos - x.w // low bit of x
			xh := pos - 1
			pos = xl
			if xh < lo || xl > hi {
				continue
			}
			h, l := min(hi, xh), max(lo, xl)
			parts = append(parts, c.Extract(x, h-xl, l-xl))
		}
		return c.Concat(parts...)
	case OSext:
		in := a.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo < in.w {
			return c.Sext(c.Extract(in, in.w-1, lo), w)
		}
		return c.Sext(c.Extract(in, in.w-1, in.w-1), w)
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OBNot:
		return c.BNot(c.Extract(a.args[0], hi, lo))
	case OBAnd:
		return c.BAnd(c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OBOr:
		return c.BOr(c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OBXor:
		return c.BXor(c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OBAdd:
		if lo == 0 {
			return c.Add(c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	case OBMul:
		if lo == 0 {
			return c.Mul(c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	}
	return c.mk(OExtract, w, uint64(lo), a)
}

// Concat, most significant first; merges constants and adjacent extracts.
func (c *Ctx) Concat(parts ...*Term) *Term {
	flat := make([]*Term, 0, len(parts))
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == OConcat {
			for _, x := range p.args {
				push(x)
			}
			return
		}
		// a term whose top bits are known zero is split so that constants merge
		if !p.isConst() {
			if p.mb == 0 {
				p = c.Const(p.w, 0)
			} else if n := uint8(bits.Len64(p.mb)); n < p.w && p.op != OSext {
				q := c.Extract(p, n-1, 0)
				if q.w < p.w && q.op != OConcat {
					push(c.Const(p.w-n, 0))
					p = q
				}
			}
		}
		if len(flat) > 0 {
			l := flat[len(flat)-1]
			if l.isConst() && p.isConst() {
				flat[len(flat)-1] = c.Const(l.w+p.w, l.k<<p.w|p.k)
				return
			}
			lb, ll := l, uint64(0)
			if l.op == OExtract {
				lb, ll = l.args[0], l.k
			}
			pb, pl := p, uint64(0)
			if p.op == OExtract {
				pb, pl = p.args[0], p.k
			}
			if lb == pb && ll == pl+uint64(p.w) && !lb.isConst() {
				flat = flat[:len(flat)-1]
				push(c.Extract(lb, uint8(ll)+l.w-1, uint8(pl)))
				return
			}
		}
		flat = append(flat, p)
	}
	for _, p := range parts {
		if p.w == 0 {
			panic("concat bool")
		}
		push(p)
	}
	if len(flat) == 1 {
		return flat[0]
	}
	w := uint8(0)
	for _, p := range flat {
		w += p.w
	}
	return c.mk(OConcat, w, 0, flat...)
}

func (c *Ctx) BoolToBV(b *Term, w uint8) *Term { return c.Ite(b, c.Const(w, 1), c.Const(w, 0)) }

// ---- evaluation ----

type Model []uint64

func (c *Ctx) NewEval() { c.evGen++ }

func (c *Ctx) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evGen == c.evGen {
		return t.evVal
	}
	v := c.eval1(t, m) & mask(t.w)
	t.evGen, t.evVal = c.evGen, v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) eval1(t *Term, m Model) uint64 {
	ev := func(i int) uint64 { return c.Eval(t.args[i], m) }
	switch t.op {
	case OVar:
		if int(t.k) < len(m) {
			return m[t.k]
		}
		return 0
	case ONot:
		return 1 ^ ev(0)
	case OAnd:
		if ev(0) == 0 {
			return 0
		}
		return ev(1)
	case OOr:
		if ev(0) == 1 {
			return 1
		}
		return ev(1)
	case OEq:
		return b2u(ev(0) == ev(1))
	case OUlt:
		return b2u(ev(0) < ev(1))
	case OSlt:
		w := t.args[0].w
		return b2u(sx(ev(0), w) < sx(ev(1), w))
	case OIte:
		if ev(0) == 1 {
			return ev(1)
		}
		return ev(2)
	case OBNot:
		return ^ev(0)
	case OBAnd:
		return ev(0) & ev(1)
	case OBOr:
		return ev(0) | ev(1)
	case OBXor:
		return ev(0) ^ ev(1)
	case OBAdd:
		return ev(0) + ev(1)
	case OBMul:
		return ev(0) * ev(1)
	case OUdiv:
		if ev(1) == 0 {
			return ^uint64(0)
		}
		return ev(0) / ev(1)
	case OUrem:
		if ev(1) == 0 {
			return ev(0)
		}
		return ev(0) % ev(1)
	case OSdiv, OSrem:
		a, b := sx(ev(0), t.w), sx(ev(1), t.w)
		if t.op == OSdiv {
			if b == 0 {
				if a < 0 {
					return 1
				}
				return ^uint64(0)
			}
			if b == -1 {
				return uint64(-a)
			}
			return uint64(a / b)
		}
		if b == 0 {
			return uint64(a)
		}
		if b == -1 {
			return 0
		}
		return uint64(a % b)
	case OShl:
		if ev(1) >= uint64(t.w) {
			return 0
		}
		return ev(0) << ev(1)
	case OLshr:
		if ev(1) >= uint64(t.w) {
			return 0
		}
		return ev(0) >> ev(1)
	case OAshr:
		s := ev(1)
		if s > 63 {
			s = 63
		}
		return uint64(sx(ev(0), t.w) >> s)
	case OConcat:
		var v uint64
		for i, a := range t.args {
			v = v<<a.w | ev(i)
		}
		return v
	case OExtract:
		return ev(0) >> t.k
	case OSext:
		return uint64(sx(ev(0), t.args[0].w))
	}
	panic("eval op")
}

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	names := []string{"const", "var", "not", "and", "or", "=", "<u", "<s", "ite", "~", "&", "|", "^", "+", "*", "/u", "%u", "/s", "%s", "<<", ">>u", ">>s", "concat", "extract", "sext"}
	var s []string
	for _, a := range t.args {
		s = append(s, a.str(d-1))
	}
	x := names[t.op]
	if t.op == OExtract {
		x = fmt.Sprintf("extract[%d:%d]", t.k+uint64(t.w)-1, t.k)
	}
	return "(" + x + " " + strings.Join(s, " ") + ")"
}
