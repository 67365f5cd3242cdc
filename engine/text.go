package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- atoms: the text of a formatted symbolic value as one pseudo-byte ----
//
// The text of a symbolic number has a symbolic length. It is represented by one
// pseudo-byte (a digit character as far as byte comparisons are concerned) that
// carries the formatted term. Comparisons and number parsing use the term; where
// the length or the single digits matter, the atom is expanded by case split on
// the number of digits.

func (r *Run) atom(a Atom) *Term {
	key := fmt.Sprintf("%s|%d|%v|%d|%v|%d|%s|%d|%s", a.kind, a.val.id, a.neg, a.width, a.zero, a.base, a.key, a.fw, a.fmt)
	if t, ok := r.atoms[key]; ok {
		return t
	}
	v := r.c.newVar(4, "atom", 9, true)
	t := r.c.Concat(r.c.Const(4, 3), v)
	aa := a
	r.atoms[key] = t
	r.atomVars[t] = &aa
	return t
}

func (r *Run) atomOf(t *Term) *Atom {
	if t.op != OConcat {
		return nil
	}
	return r.atomVars[t]
}

func (r *Run) hasAtom(b []*Term) bool {
	for _, t := range b {
		if t.op == OConcat && r.atomVars[t] != nil {
			return true
		}
	}
	return false
}

// intText gives the text of an integer.
func (r *Run) intText(v V, k kind, base, width int, zero bool, verb string) []*Term {
	c := r.c
	if v.t == nil {
		var s string
		if k.signed {
			s = strconv.FormatInt(sx(v.k, k.w), base)
		} else {
			s = strconv.FormatUint(v.k, base)
		}
		if verb == "X" {
			s = strings.ToUpper(s)
		}
		for len(s) < width {
			if zero {
				if strings.HasPrefix(s, "-") {
					s = "-0" + s[1:]
				} else {
					s = "0" + s
				}
			} else {
				s = " " + s
			}
		}
		return c.strBytes(V{p: s})
	}
	t := v.t
	neg := false
	if k.signed {
		if r.branch(c.Slt(t, c.Const(t.w, 0))) {
			neg = true
			t = c.Neg(t)
		}
	}
	if width > 0 && !zero {
		// blank padding: make the number of digits explicit
		d := r.digits(r.atomOf(r.atom(Atom{kind: "int", val: c.Zext(t, 64), base: base, fmt: verb})))
		var out []*Term
		n := len(d)
		if neg {
			n++
		}
		for i := n; i < width; i++ {
			out = append(out, c.bytes[' '])
		}
		if neg {
			out = append(out, c.bytes['-'])
		}
		return append(out, d...)
	}
	if neg && width > 0 {
		width--
	}
	if width <= 1 {
		width, zero = 0, false
	}
	at := r.atom(Atom{kind: "int", val: c.Zext(t, 64), base: base, width: width, zero: zero, fmt: verb})
	if neg {
		return []*Term{c.bytes['-'], at}
	}
	return []*Term{at}
}

// digits expands an integer atom (case split on the number of digits).
func (r *Run) digits(a *Atom) []*Term {
	c := r.c
	if a.kind != "int" {
		r.unsupported("digits of a %s text", a.kind)
	}
	b := uint64(a.base)
	n := 1
	p := b
	if a.zero && a.width > 1 {
		// padded with zeros: the usual case is that the number fits, and then
		// every digit is written down without asking how many are significant
		q := new(big.Int).Exp(new(big.Int).SetUint64(b), big.NewInt(int64(a.width)), nil)
		if !q.IsUint64() || a.val.umax < q.Uint64() || r.branch(c.Ult(a.val, c.Const(64, q.Uint64()))) {
			n = a.width
			p = 0
		} else {
			n = a.width + 1
			p = q.Uint64()
			if h := new(big.Int).Mul(q, new(big.Int).SetUint64(b)); h.IsUint64() {
				p = h.Uint64()
			} else {
				p = 0
			}
		}
	}
	for p != 0 {
		if p > a.val.umax {
			break
		}
		if r.branch(c.Ult(a.val, c.Const(64, p))) {
			break
		}
		n++
		hi := new(big.Int).Mul(new(big.Int).SetUint64(p), new(big.Int).SetUint64(b))
		if !hi.IsUint64() {
			break
		}
		p = hi.Uint64()
	}
	var out []*Term
	for i := n; i < a.width; i++ {
		out = append(out, c.bytes['0'])
	}
	div := uint64(1)
	ds := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		q := a.val
		if div > 1 {
			q = c.Udiv(q, c.Const(64, div))
		}
		d := c.Trunc(c.Urem(q, c.Const(64, b)), 8)
		if b <= 10 {
			ds[i] = c.Add(c.Const(8, '0'), d)
		} else {
			x := uint64('a' - 10)
			if a.fmt == "X" {
				x = 'A' - 10
			}
			ds[i] = c.Ite(c.Ult(d, c.Const(8, 10)), c.Add(c.Const(8, '0'), d), c.Add(c.Const(8, x), d))
		}
		div *= b
	}
	r.runs = append(r.runs, digitRun{ds, a})
	return append(out, ds...)
}

// digitRun remembers the digits that stand for a number, so that reading them
// back gives the number itself.
type digitRun struct {
	ds []*Term
	a  *Atom
}

func (r *Run) runOf(b []*Term, base int) *Atom {
	for len(b) > 1 && b[0].isConst() && b[0].k == '0' {
		b = b[1:]
	}
next:
	for _, d := range r.runs {
		if d.a.base != base || len(d.ds) != len(b) {
			continue
		}
		for i := range b {
			if b[i] != d.ds[i] {
				continue next
			}
		}
		return d.a
	}
	return nil
}

func (r *Run) expandAtoms(b []*Term) []*Term {
	var out []*Term
	for _, t := range b {
		if a := r.atomOf(t); a != nil {
			out = append(out, r.digits(a)...)
			continue
		}
		out = append(out, t)
	}
	return out
}

func digitOf(c byte, base int) bool {
	switch {
	case c >= '0' && c <= '9':
		return int(c-'0') < base
	case c >= 'a' && c <= 'f', c >= 'A' && c <= 'F':
		return base == 16
	}
	return false
}

// runEnd: after position i the text surely does not continue with a digit.
func (r *Run) endsAt(b []*Term, i, base int) bool {
	if i >= len(b) {
		return true
	}
	return b[i].isConst() && !digitOf(byte(b[i].k), base)
}

func atomText(a *Atom, v uint64) string {
	s := strconv.FormatUint(v, a.base)
	if a.fmt == "X" {
		s = strings.ToUpper(s)
	}
	for len(s) < a.width {
		s = "0" + s
	}
	return s
}

func pow10(base, n int) (uint64, bool) {
	p := uint64(1)
	for i := 0; i < n; i++ {
		if p > math.MaxUint64/uint64(base) {
			return 0, false
		}
		p *= uint64(base)
	}
	return p, true
}

func (r *Run) strEq(a, b V) *Term {
	c := r.c
	x, ok1 := isConcreteStr(a)
	y, ok2 := isConcreteStr(b)
	if ok1 && ok2 {
		return c.Bool(x == y)
	}
	return r.bytesEq(c.strBytes(a), c.strBytes(b))
}

func (r *Run) bytesEq(x, y []*Term) *Term {
	c := r.c
	if !r.hasAtom(x) && !r.hasAtom(y) {
		if len(x) != len(y) {
			return c.F
		}
		res := c.T
		for i := range x {
			e := c.Eq(x[i], y[i])
			if e == c.F {
				return c.F
			}
			res = c.And(res, e)
		}
		return res
	}
	res := c.T
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		ax, ay := r.atomOf(x[i]), r.atomOf(y[j])
		switch {
		case ax == nil && ay == nil:
			e := c.Eq(x[i], y[j])
			if e == c.F {
				return c.F
			}
			res = c.And(res, e)
			i++
			j++
		case x[i] == y[j]:
			i++
			j++
		case ax != nil && ay != nil && ax.kind == "int" && ay.kind == "int" && ax.base == ay.base && ax.fmt == ay.fmt &&
			r.endsAt(x, i+1, ax.base) && r.endsAt(y, j+1, ay.base):
			e := c.Eq(ax.val, ay.val)
			if ax.width != ay.width {
				w := max(ax.width, ay.width)
				p, ok := pow10(ax.base, w-1)
				if !ok {
					return c.F
				}
				e = c.And(e, c.Ule(c.Const(64, p), ax.val))
			}
			if e == c.F {
				return c.F
			}
			res = c.And(res, e)
			i++
			j++
		case ax != nil && ay != nil && ax.kind == "float" && ay.kind == "float":
			if ax.fw == ay.fw && ax.fmt == ay.fmt {
				e := c.Eq(ax.val, ay.val)
				res = c.And(res, e)
				i++
				j++
			} else {
				r.unsupported("comparison of two float formats")
			}
		default:
			// atom against plain bytes
			p, q, pi, qi := x, y, &i, &j
			at := ax
			if at == nil {
				p, q, pi, qi, at = y, x, &j, &i, ay
			}
			if at.kind != "int" {
				// shortest form of a float against a constant run
				isF := func(t *Term) bool { return t.isConst() && strings.IndexByte("0123456789+-.eInfNa", byte(t.k)) >= 0 }
				ends := func(b []*Term, k int) bool { return k >= len(b) || b[k].isConst() && !isF(b[k]) }
				k := *qi
				run := ""
				for k < len(q) && isF(q[k]) {
					run += string(rune(q[k].k))
					k++
				}
				if at.kind != "float" || !ends(q, k) || !ends(p, *pi+1) {
					r.unsupported("comparison of a float text with bytes")
				}
				f, err := strconv.ParseFloat(run, at.fw)
				if err != nil {
					return c.F
				}
				var bits uint64
				text := ""
				if at.fw == 32 {
					bits = uint64(math.Float32bits(float32(f)))
					text = fmt.Sprint(float32(f))
				} else {
					bits = math.Float64bits(f)
					text = fmt.Sprint(f)
				}
				if text != run {
					return c.F
				}
				if f != f {
					r.unsupported("comparison of a float text with NaN")
				}
				res = c.And(res, c.Eq(at.val, c.Const(at.val.w, bits)))
				*pi++
				*qi = k
				continue
			}
			ch := q[*qi]
			if r.atomOf(ch) == nil && ch.isConst() {
				if !digitOf(byte(ch.k), at.base) {
					return c.F
				}
				k := *qi
				run := ""
				for k < len(q) && q[k].isConst() && digitOf(byte(q[k].k), at.base) {
					run += string(rune(q[k].k))
					k++
				}
				if r.endsAt(q, k, at.base) && r.endsAt(p, *pi+1, at.base) {
					v, err := strconv.ParseUint(run, at.base, 64)
					if err != nil || atomText(at, v) != run {
						return c.F
					}
					e := c.Eq(at.val, c.Const(64, v))
					if e == c.F {
						return c.F
					}
					res = c.And(res, e)
					*pi++
					*qi = k
					continue
				}
			}
			return c.And(res, r.bytesEq(r.expandAtoms(x[i:]), r.expandAtoms(y[j:])))
		}
	}
	if i < len(x) || j < len(y) {
		return c.F
	}
	return res
}

func (r *Run) strLess(a, b V) (lt, eq *Term) {
	c := r.c
	x := r.expandAtoms(c.strBytes(a))
	y := r.expandAtoms(c.strBytes(b))
	eq = c.T
	lt = c.F
	n := min(len(x), len(y))
	for i := 0; i < n; i++ {
		lt = c.Or(lt, c.And(eq, c.Ult(x[i], y[i])))
		eq = c.And(eq, c.Eq(x[i], y[i]))
	}
	if len(x) < len(y) {
		lt = c.Or(lt, eq)
		eq = c.F
	} else if len(x) > len(y) {
		eq = c.F
	}
	return
}

// concreteText renders text under a model.
func (r *Run) concreteText(b []*Term, m Model) string {
	var sb strings.Builder
	for _, t := range b {
		if a := r.atomOf(t); a != nil {
			switch a.kind {
			case "int":
				sb.WriteString(atomText(a, r.c.Eval(a.val, m)))
			case "float":
				bits := r.c.Eval(a.val, m)
				if a.fw == 32 {
					sb.WriteString(fmt.Sprintf("%"+a.fmt, math.Float32frombits(uint32(bits))))
				} else {
					sb.WriteString(fmt.Sprintf("%"+a.fmt, math.Float64frombits(bits)))
				}
			}
			continue
		}
		sb.WriteByte(byte(r.c.Eval(t, m)))
	}
	return sb.String()
}

// floatSamples are tried where a float operation has no encoding.
var floatSamples64 = []float64{0.1, 1234567.8912345678, -2.5e-10, 3e300, 0, 16777217, 1e21, 123456789012345680}
var floatSamples32 = []float32{0.1, 1234567.9, -2.5e-10, 3e38, 0, 16777216, 1e21, 1.17549435e-38}

// concFloat restricts a symbolic float to sample values (recorded as a bound).
func (r *Run) concFloat(v V, w uint8) V {
	if v.t == nil {
		return v
	}
	n := len(floatSamples64)
	i := r.choose(n, "float sample")
	var k uint64
	if w == 32 {
		k = uint64(math.Float32bits(floatSamples32[i]))
	} else {
		k = math.Float64bits(floatSamples64[i])
	}
	r.truncated++
	r.assumeCond(r.c.Eq(v.t, r.c.Const(w, k)))
	return V{k: k}
}

// ---- fmt ----

type fmtSpec struct {
	text  string // the full verb as written, e.g. %02d
	flags string
	width int
	prec  int
	hasW  bool
	hasP  bool
}

func (s fmtSpec) plain() bool { return s.flags == "" && !s.hasW && !s.hasP }

func lit0(c *Ctx, s string) []*Term { return c.strBytes(V{p: s}) }

// ifaceArgs lists the elements of a ...any slice.
func (r *Run) ifaceArgs(v V) []V {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	r.concSlice(s)
	out := make([]V, s.ln)
	for i := range out {
		out[i] = s.arr.get(s.off + int64(i))
	}
	return out
}

func (r *Run) sprintf(format V, args []V) []*Term {
	c := r.c
	f, ok := isConcreteStr(format)
	if !ok {
		// a symbolic format: treat bytes other than % as literal
		b := r.expandAtoms(c.strBytes(format))
		for _, t := range b {
			if r.branch(c.Eq(t, c.bytes['%'])) {
				r.unsupported("symbolic format string with a verb")
			}
		}
		if len(args) > 0 {
			r.unsupported("symbolic format string with arguments")
		}
		return c.strBytes(format)
	}
	var out []*Term
	ai := 0
	reordered := false
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, lit0(c, f[i:j])...)
			i = j
			continue
		}
		st := i
		i++
		sp := fmtSpec{}
		star := false
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			sp.flags += string(f[i])
			i++
		}
		if i < len(f) && f[i] == '*' && ai < len(args) {
			ifc, ok := args[ai].p.(Iface)
			if !ok || ifc.v.t != nil || ifc.v.p != nil || int64(ifc.v.k) < 0 {
				r.unsupported("format %q", f)
			}
			sp.hasW, sp.width = true, int(ifc.v.k)
			ai++
			i++
			star = true
		}
		if i < len(f) && f[i] == '[' {
			e := strings.IndexByte(f[i:], ']')
			n, err := 0, error(nil)
			if e > 0 {
				n, err = strconv.Atoi(f[i+1 : i+e])
			}
			if e < 0 || err != nil || n < 1 || n > len(args) {
				r.unsupported("format %q", f)
			}
			ai = n - 1
			i += e + 1
			star = true
			reordered = true
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			sp.hasW = true
			sp.width = sp.width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			sp.hasP = true
			if i < len(f) && f[i] == '*' {
				r.unsupported("format %q", f)
			}
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				sp.prec = sp.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out = append(out, lit0(c, "%!(NOVERB)")...)
			break
		}
		verb := f[i]
		i++
		sp.text = f[st:i]
		if star {
			sp.text = "%" + sp.flags
			if sp.hasW {
				sp.text += strconv.Itoa(sp.width)
			}
			if sp.hasP {
				sp.text += "." + strconv.Itoa(sp.prec)
			}
			sp.text += string(verb)
		}
		if verb == '%' {
			out = append(out, c.bytes['%'])
			continue
		}
		if ai >= len(args) {
			out = append(out, lit0(c, "%!"+string(verb)+"(MISSING)")...)
			continue
		}
		out = append(out, r.fmtValue(args[ai], verb, sp)...)
		ai++
	}
	if ai < len(args) && !reordered {
		out = append(out, lit0(c, "%!(EXTRA ")...)
		for k, a := range args[ai:] {
			if k > 0 {
				out = append(out, lit0(c, ", ")...)
			}
			if ifc, ok := a.p.(Iface); ok {
				out = append(out, lit0(c, ifc.t.String()+"=")...)
			}
			out = append(out, r.fmtValue(a, 'v', fmtSpec{text: "%v"})...)
		}
		out = append(out, c.bytes[')'])
	}
	return out
}

func (r *Run) sprint(args []V, ln bool) []*Term {
	var out []*Term
	prevStr := false
	for i, a := range args {
		isStr := false
		if ifc, ok := a.p.(Iface); ok {
			if b, ok := ifc.t.(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			}
			if n, ok := ifc.t.(*types.Named); ok {
				if b, ok := n.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					isStr = true
				}
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, r.c.bytes[' '])
		}
		out = append(out, r.fmtValue(a, 'v', fmtSpec{text: "%v"})...)
		prevStr = isStr
	}
	if ln {
		out = append(out, r.c.bytes['\n'])
	}
	return out
}

func (r *Run) padStr(b []*Term, sp fmtSpec) []*Term {
	if sp.hasP && sp.prec < len(b) {
		b = b[:sp.prec]
	}
	if !sp.hasW || r.hasAtom(b) && sp.width <= 1 {
		return b
	}
	if r.hasAtom(b) {
		b = r.expandAtoms(b)
	}
	for len(b) < sp.width {
		if strings.Contains(sp.flags, "-") {
			b = append(append([]*Term(nil), b...), r.c.bytes[' '])
		} else {
			b = append([]*Term{r.c.bytes[' ']}, b...)
		}
	}
	return b
}

func (r *Run) hexText(b []*Term, upper bool) []*Term {
	c := r.c
	var out []*Term
	x := uint64('a' - 10)
	if upper {
		x = 'A' - 10
	}
	dig := func(n *Term) *Term {
		n = c.Zext(n, 8)
		return c.Ite(c.Ult(n, c.Const(8, 10)), c.Add(c.Const(8, '0'), n), c.Add(c.Const(8, x), n))
	}
	for _, t := range b {
		out = append(out, dig(c.Extract(t, 7, 4)), dig(c.Extract(t, 3, 0)))
	}
	return out
}

func (r *Run) methodText(ifc Iface, name string) ([]*Term, bool) {
	ms := r.p.prog.MethodSets.MethodSet(ifc.t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i)
		if m.Obj().Name() != name {
			continue
		}
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		fn := r.p.prog.MethodValue(m)
		if fn == nil {
			continue
		}
		if _, isPtr := ifc.t.Underlying().(*types.Pointer); isPtr && ifc.v.p == nil {
			return lit0(r.c, "<nil>"), true
		}
		v := r.call(fn, []V{copyVal(ifc.v)}, nil)
		return r.c.strBytes(v), true
	}
	return nil, false
}

func (r *Run) fmtValue(v V, verb byte, sp fmtSpec) []*Term {
	c := r.c
	if sp.text == "" {
		sp.text = "%" + string(verb)
	}
	ifc, ok := v.p.(Iface)
	if !ok {
		if verb == 'v' || verb == 's' && false {
			return r.padStr(lit0(c, "<nil>"), sp)
		}
		return lit0(c, "%!"+string(verb)+"(<nil>)")
	}
	if verb == 'T' {
		return r.padStr(lit0(c, types.TypeString(ifc.t, func(p *types.Package) string { return p.Name() })), sp)
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !strings.Contains(sp.flags, "#") {
			if _, isB := ifc.t.(*types.Basic); !isB {
				if b, ok := r.methodText(ifc, "Error"); ok {
					return r.fmtStr(b, verb, sp)
				}
				if b, ok := r.methodText(ifc, "String"); ok {
					return r.fmtStr(b, verb, sp)
				}
			}
		}
	}
	return r.fmtVal(ifc.t, ifc.v, verb, sp, 0)
}

func (r *Run) fmtStr(b []*Term, verb byte, sp fmtSpec) []*Term {
	switch verb {
	case 'v', 's':
		if strings.Contains(sp.flags, "#") {
			break
		}
		return r.padStr(b, sp)
	case 'x', 'X':
		if sp.flags == "" && !sp.hasP {
			return r.padStr(r.hexText(r.expandAtoms(b), verb == 'X'), sp)
		}
	}
	if s, ok := isConcreteStr(mkStr(b)); ok {
		return lit0(r.c, fmt.Sprintf(sp.text, s))
	}
	if verb == 'q' && sp.plain() {
		// value by value
		e := r.expandAtoms(b)
		x := make([]byte, len(e))
		for i, t := range e {
			x[i] = byte(r.concretize(tv(t), 8, "quoted text"))
		}
		return lit0(r.c, fmt.Sprintf(sp.text, string(x)))
	}
	r.unsupported("format %s of a symbolic string", sp.text)
	return nil
}

func (r *Run) fmtVal(t types.Type, v V, verb byte, sp fmtSpec, depth int) []*Term {
	c := r.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(u)
		switch {
		case u.Info()&types.IsString != 0:
			return r.fmtStr(c.strBytes(v), verb, sp)
		case u.Info()&types.IsBoolean != 0:
			b := r.truth(v)
			return lit0(c, fmt.Sprintf(sp.text, b))
		case k.float:
			if v.t != nil {
				if (verb == 'v' || verb == 'g') && sp.plain() {
					// finite or not, the text is the shortest that reads back
					return []*Term{r.atom(Atom{kind: "float", val: v.t, fw: int(k.w), fmt: "v"})}
				}
				v = r.concFloat(v, k.w)
			}
			if k.w == 32 {
				return lit0(c, fmt.Sprintf(sp.text, float32(vFloat(v, 32))))
			}
			return lit0(c, fmt.Sprintf(sp.text, vFloat(v, 64)))
		case u.Info()&types.IsInteger != 0:
			if v.t == nil {
				if k.signed {
					x := sx(v.k, k.w)
					switch k.w {
					case 8:
						return lit0(c, fmt.Sprintf(sp.text, int8(x)))
					case 16:
						return lit0(c, fmt.Sprintf(sp.text, int16(x)))
					case 32:
						return lit0(c, fmt.Sprintf(sp.text, int32(x)))
					}
					return lit0(c, fmt.Sprintf(sp.text, x))
				}
				switch k.w {
				case 8:
					return lit0(c, fmt.Sprintf(sp.text, uint8(v.k)))
				case 16:
					return lit0(c, fmt.Sprintf(sp.text, uint16(v.k)))
				case 32:
					return lit0(c, fmt.Sprintf(sp.text, uint32(v.k)))
				}
				return lit0(c, fmt.Sprintf(sp.text, v.k))
			}
			base := 0
			switch verb {
			case 'd', 'v':
				base = 10
			case 'x', 'X':
				base = 16
			case 'b':
				base = 2
			case 'o':
				base = 8
			}
			if base != 0 && !sp.hasP && (sp.flags == "" || sp.flags == "0") {
				vb := ""
				if verb == 'X' {
					vb = "X"
				}
				return r.intText(v, k, base, sp.width, sp.flags == "0", vb)
			}
			x := r.concretize(v, k.w, "formatted value")
			return r.fmtVal(t, V{k: x}, verb, sp, depth)
		}
	case *types.Slice:
		if byteElem(u.Elem()) && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			return r.fmtStr(r.sliceBytes(v), verb, sp)
		}
		s, _ := v.p.(*Slice)
		var out []*Term
		out = append(out, c.bytes['['])
		if s != nil {
			s2 := *s
			r.concSlice(&s2)
			for i := int64(0); i < s2.ln; i++ {
				if i > 0 {
					out = append(out, c.bytes[' '])
				}
				out = append(out, r.fmtElem(u.Elem(), s2.arr.get(s2.off+i), verb, sp, depth+1)...)
			}
		}
		return append(out, c.bytes[']'])
	case *types.Array:
		a := v.p.(*Arr)
		out := []*Term{c.bytes['[']}
		for i := 0; i < a.n; i++ {
			if i > 0 {
				out = append(out, c.bytes[' '])
			}
			out = append(out, r.fmtElem(u.Elem(), a.get(int64(i)), verb, sp, depth+1)...)
		}
		return append(out, c.bytes[']'])
	case *types.Struct:
		s := v.p.(*Struct)
		out := []*Term{c.bytes['{']}
		for i := range s.f {
			if i > 0 {
				out = append(out, c.bytes[' '])
			}
			if strings.Contains(sp.flags, "+") {
				out = append(out, lit0(c, u.Field(i).Name()+":")...)
			}
			out = append(out, r.fmtElem(u.Field(i).Type(), s.f[i], verb, sp, depth+1)...)
		}
		return append(out, c.bytes['}'])
	case *types.Pointer:
		if v.p == nil {
			return lit0(c, "<nil>")
		}
		if depth == 0 && verb == 'v' {
			if cell, ok := v.p.(*V); ok {
				if _, isS := u.Elem().Underlying().(*types.Struct); isS {
					return append([]*Term{c.bytes['&']}, r.fmtVal(u.Elem(), *cell, verb, sp, depth+1)...)
				}
			}
		}
		return lit0(c, "0xc000012345")
	case *types.Interface:
		return r.fmtValue(v, verb, sp)
	case *types.Map:
		return lit0(c, "map[...]")
	}
	return lit0(c, "?")
}

func (r *Run) fmtElem(t types.Type, v V, verb byte, sp fmtSpec, depth int) []*Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if v.p == nil {
			return lit0(r.c, "<nil>")
		}
		return r.fmtValue(v, verb, sp)
	}
	if _, ok := t.(*types.Basic); !ok {
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			return r.fmtValue(V{p: Iface{t, v}}, verb, sp)
		}
	}
	return r.fmtVal(t, v, verb, sp, depth)
}

// newError makes an errors.errorString value.
func (r *Run) newError(text []*Term) V {
	cell := &V{p: &Struct{f: []V{mkStr(text)}}}
	return V{p: Iface{r.p.errStr, V{p: cell}}}
}

func (r *Run) errorf(s string, a ...any) V { return r.newError(lit0(r.c, fmt.Sprintf(s, a...))) }

func (r *Run) emit(b []*Term) {
	if n := len(r.out); n > 0 {
		r.out[n-1] = append(r.out[n-1], b...)
	}
}

func tuple(vs ...V) V { return V{p: Tuple(vs)} }

var nilV = V{}

var _ = ssa.NewProgram
