package main

// SMT solver back end: one incremental z3 process per worker, with one-shot
// z3/cvc5 fallbacks for queries that do not finish quickly.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Stats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks, CacheHits, Reused int64
	Time                                                          time.Duration
	MaxTime                                                       time.Duration
}

type Solver struct {
	ctx   *Ctx
	cmd   *exec.Cmd
	in    *bufio.Writer
	inRaw io.WriteCloser
	out   *bufio.Reader
	gen   int32 // definition generation for ctx terms
	stack []*Term
	st    *Stats
	buf   bytes.Buffer
	dead  bool
	nDef  int
	nMark int
}

var solverGen int32

var incTimeoutMs = 3000
var oneShotSec = 25

func NewSolver(ctx *Ctx, st *Stats) *Solver {
	s := &Solver{ctx: ctx, st: st}
	s.start()
	return s
}

func (s *Solver) start() {
	s.ctx.gen++
	s.gen = s.ctx.gen
	s.stack = nil
	s.nDef = 0
	s.cmd = exec.Command("z3-new", "-in", "-memory:2000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", incTimeoutMs)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func termName(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.k)
	}
	if t.op == OVar {
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func termExpr(t *Term) string {
	n := func(i int) string { return termName(t.args[i]) }
	bin := func(op string) string { return "(" + op + " " + n(0) + " " + n(1) + ")" }
	switch t.op {
	case ONot:
		return "(not " + n(0) + ")"
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OUlt:
		return bin("bvult")
	case OSlt:
		return bin("bvslt")
	case OIte:
		return "(ite " + n(0) + " " + n(1) + " " + n(2) + ")"
	case OBNot:
		return "(bvnot " + n(0) + ")"
	case OBAnd:
		return bin("bvand")
	case OBOr:
		return bin("bvor")
	case OBXor:
		return bin("bvxor")
	case OBAdd:
		return bin("bvadd")
	case OBMul:
		return bin("bvmul")
	case OUdiv:
		return bin("bvudiv")
	case OUrem:
		return bin("bvurem")
	case OSdiv:
		return bin("bvsdiv")
	case OSrem:
		return bin("bvsrem")
	case OShl:
		return bin("bvshl")
	case OLshr:
		return bin("bvlshr")
	case OAshr:
		return bin("bvashr")
	case OConcat:
		s := n(0)
		for i := 1; i < len(t.args); i++ {
			s = "(concat " + s + " " + n(i) + ")"
		}
		return s
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, n(0))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, n(0))
	}
	panic("termExpr")
}

// define emits declarations/definitions of everything below t.
func define(w io.Writer, t *Term, done func(*Term) bool) {
	if t.op == OConst || done(t) {
		return
	}
	for _, a := range t.args {
		define(w, a, done)
	}
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", termName(t), sortOf(t.w))
		if t.umax < mask(t.w) {
			fmt.Fprintf(w, "(assert (bvule %s %s))\n", termName(t), constText(t.w, t.umax))
		}
	} else {
		fmt.Fprintf(w, "(define-fun %s () %s %s)\n", termName(t), sortOf(t.w), termExpr(t))
	}
}

func constText(w uint8, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (s *Solver) def(t *Term) {
	define(s.in, t, func(x *Term) bool {
		if x.defGen == s.gen {
			return true
		}
		x.defGen = s.gen
		s.nDef++
		return false
	})
}

// sync makes the assertion stack equal to pc (one push per constraint).
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		// Variable bounds are asserted at the level where the variable is first
		// seen, so define before the push of this level is not enough after a pop;
		// re-assert them here (cheap).
		s.def(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", termName(t))
		s.stack = append(s.stack, t)
	}
}

func boundsOf(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var vs []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			vs = append(vs, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return vs
}

// Check decides pc /\ extra. On Sat it returns a model for all ctx vars up to nv.
func (s *Solver) Check(pc []*Term, extra *Term, nv int, deadline time.Time) (Result, Model) {
	if extra.isConst() && extra.k == 0 {
		return Unsat, nil
	}
	t0 := time.Now()
	s.st.Queries++
	r, m := s.check(pc, extra, nv)
	if r == Unknown {
		s.st.Fallbacks++
		r, m = s.oneShot(pc, extra, nv, deadline)
	}
	d := time.Since(t0)
	s.st.Time += d
	if d > s.st.MaxTime {
		s.st.MaxTime = d
	}
	switch r {
	case Sat:
		s.st.SatN++
	case Unsat:
		s.st.UnsatN++
	default:
		s.st.UnknownN++
	}
	if r == Sat {
		// guard against a wrong translation to SMT-LIB: the model must satisfy the query
		s.ctx.NewEval()
		ok := s.ctx.Eval(extra, m) == 1
		for _, t := range pc {
			if s.ctx.Eval(t, m) != 1 {
				ok = false
				break
			}
		}
		s.ctx.NewEval()
		if !ok {
			fmt.Fprintln(os.Stderr, "gosym: solver model does not satisfy the query (ignored)")
			return Unknown, nil
		}
	}
	return r, m
}

func (s *Solver) check(pc []*Term, extra *Term, nv int) (Result, Model) {
	if s.nDef > 400000 {
		s.restart()
	}
	// the solver may stop reading: nothing below waits longer than this
	proc := s.cmd.Process
	guard := time.AfterFunc(60*time.Second, func() { proc.Kill() })
	defer guard.Stop()
	s.sync(pc)
	s.def(extra)
	fmt.Fprintf(s.in, "(push 1)\n")
	// bounds of range-limited variables may have been popped: re-assert
	for _, v := range s.ctx.bounded {
		if v.defGen == s.gen {
			fmt.Fprintf(s.in, "(assert (bvule %s %s))\n", termName(v), constText(v.w, v.umax))
		}
	}
	fmt.Fprintf(s.in, "(assert %s)\n(check-sat)\n", termName(extra))
	line, err := s.answer(time.Duration(incTimeoutMs)*time.Millisecond + 5*time.Second)
	if err != nil {
		if strings.HasPrefix(err.Error(), "(error") {
			fmt.Fprintln(os.Stderr, "gosym: solver:", err)
		}
		s.restart()
		return Unknown, nil
	}
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		m, err = s.model(nv)
		if err != nil {
			s.restart()
			return Unknown, nil
		}
	case "unsat":
		res = Unsat
	default:
		res = Unknown
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, m
}

// answer reads everything the solver prints up to a fresh marker, so that an
// answer can never be taken for the answer to another question.
func (s *Solver) answer(to time.Duration) (string, error) {
	s.nMark++
	mark := "mark-" + strconv.Itoa(s.nMark)
	fmt.Fprintf(s.in, "(echo \"%s\")\n", mark)
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	cmd := s.cmd
	timer := time.AfterFunc(to, func() { cmd.Process.Kill() })
	defer timer.Stop()
	var b strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == mark {
			return b.String(), nil
		}
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", errors.New(l)
		}
		if b.Len() > 0 {
			b.WriteByte('\n')
		}
		b.WriteString(l)
	}
}

func (s *Solver) model(nv int) (Model, error) {
	m := make(Model, nv)
	var vs []*Term
	for i := 0; i < nv && i < len(s.ctx.vars); i++ {
		for _, v := range s.ctx.vars[i] {
			if v != nil && v.defGen == s.gen {
				vs = append(vs, v)
			}
		}
	}
	// in chunks
	for len(vs) > 0 {
		n := min(len(vs), 200)
		fmt.Fprint(s.in, "(get-value (")
		for _, v := range vs[:n] {
			fmt.Fprint(s.in, termName(v), " ")
		}
		fmt.Fprint(s.in, "))\n")
		txt, err := s.answer(20 * time.Second)
		if err != nil {
			return nil, err
		}
		if err := parseValues(txt, vs[:n], m, s.ctx.cur); err != nil {
			return nil, err
		}
		vs = vs[n:]
	}
	return m, nil
}

func parseValues(txt string, vs []*Term, m Model, cur []*Term) error {
	if strings.Contains(txt, "error") {
		return fmt.Errorf("solver: %s", txt)
	}
	vals := map[string]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		var x uint64
		var err error
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			return fmt.Errorf("value %q in %q", v, txt)
		}
		if err != nil {
			return err
		}
		vals[f[i]] = x
	}
	for _, v := range vs {
		x, ok := vals[termName(v)]
		if !ok {
			return fmt.Errorf("no value for %s", termName(v))
		}
		if int(v.k) < len(m) && int(v.k) < len(cur) && cur[v.k] == v {
			m[v.k] = x
		}
	}
	return nil
}

// oneShot runs fresh solver processes on the standalone query.
func (s *Solver) oneShot(pc []*Term, extra *Term, nv int, deadline time.Time) (Result, Model) {
	var b bytes.Buffer
	fmt.Fprint(&b, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	done := map[*Term]bool{}
	d := func(x *Term) bool {
		if done[x] {
			return true
		}
		done[x] = true
		return false
	}
	for _, t := range pc {
		define(&b, t, d)
	}
	define(&b, extra, d)
	for _, t := range pc {
		fmt.Fprintf(&b, "(assert %s)\n", termName(t))
	}
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", termName(extra))
	var vs []*Term
	for i := 0; i < nv && i < len(s.ctx.vars); i++ {
		for _, v := range s.ctx.vars[i] {
			if v != nil && done[v] {
				vs = append(vs, v)
			}
		}
	}
	if len(vs) > 0 {
		fmt.Fprint(&b, "(get-value (")
		for _, v := range vs {
			fmt.Fprint(&b, termName(v), " ")
		}
		fmt.Fprint(&b, "))\n")
	}
	sec := oneShotSec
	if !deadline.IsZero() {
		if r := int(time.Until(deadline).Seconds()); r < sec {
			sec = max(r, 1)
		}
	}
	cmds := [][]string{
		{"z3-new", "-in", "-memory:3000", "-T:" + strconv.Itoa(sec)},
		{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=" + strconv.Itoa(sec*1000), "-"},
	}
	type res struct {
		r Result
		m Model
	}
	ch := make(chan res, len(cmds))
	var procs []*exec.Cmd
	for _, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = bytes.NewReader(b.Bytes())
		var out bytes.Buffer
		cmd.Stdout = &out
		if err := cmd.Start(); err != nil {
			ch <- res{Unknown, nil}
			continue
		}
		procs = append(procs, cmd)
		go func() {
			t := time.AfterFunc(time.Duration(sec+5)*time.Second, func() { cmd.Process.Kill() })
			cmd.Wait()
			t.Stop()
			txt := out.String()
			nl := strings.IndexByte(txt, '\n')
			if nl < 0 {
				ch <- res{Unknown, nil}
				return
			}
			switch strings.TrimSpace(txt[:nl]) {
			case "unsat":
				ch <- res{Unsat, nil}
			case "sat":
				m := make(Model, nv)
				if err := parseValues(txt[nl+1:], vs, m, s.ctx.cur); err != nil && len(vs) > 0 {
					ch <- res{Unknown, nil}
					return
				}
				ch <- res{Sat, m}
			default:
				ch <- res{Unknown, nil}
			}
		}()
	}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			for _, p := range procs {
				p.Process.Kill()
			}
			return r.r, r.m
		}
	}
	return Unknown, nil
}
