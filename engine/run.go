package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision of a path: the branch taken, or for value decisions the value tried.
type Decision struct {
	b   bool
	val uint64
}

type Item struct {
	h        *Harness
	prefix   []Decision
	model    Model
	depth    int
	explicit bool // every digit of a formatted number is explicit
}

type ND struct {
	Name string
	t    *Term
	k    uint64
}

type Worker struct {
	id         int
	ex         *Explorer
	p          *Program
	c          *Ctx
	s          *Solver
	stdGlobals map[*ssa.Global]*V
	stdDone    map[*ssa.Package]bool
	stats      Stats
	local      []*Item
	hits       map[string]int64
	answers    map[string]answer // to queries on terms of c
	cur        *Harness          // whose items it is taking
	since      time.Time         // when it began to
}

func (w *Worker) hit(fi *fnInfo) { w.hits[fi.name]++ }

type Run struct {
	runs      []digitRun
	ranged    bool
	rangedAt  int
	w         *Worker
	p         *Program
	c         *Ctx
	h         *Harness
	item      *Item
	top       *Frame
	depth     int
	steps     int64
	stepLimit int64
	nextTick  int64
	initDepth int
	cliArgs   []V // arguments of the process
	cliInit   bool
	globals   []*V

	prefix []Decision
	dec    []Decision
	model  Model
	pc     []*Term
	known  map[*Term]bool

	nondet            []ND
	mapOrder, mapUsed bool
	zone              *zone     // of the process, nil: UTC
	out               [][]*Term // captured stdout stack
	obs               []obsRec
	atoms             map[string]*Term
	atomVars          map[*Term]*Atom
	files             map[string]*vfile
	nfile             int
	watching          bool     // inside of sym.Writes
	touched           []string // changes of the file system
	syncMaps          map[any]*MapV
	onceDone          map[any]bool
	logV              int64
	logCount          map[string]int64
	calendars         map[*Term]*calendar
	logSaved          int64           // messages in the log files
	logDir            string          // where the log files are, once there are any
	widened           map[*Term]*Term // float64 bits made of float32 bits
	flags             map[string]string
	truncated         int
	covers            []string
	asserts           int
	values            map[any]V
}

type obsRec struct {
	name string
	s    []*Term
}

// Outcome of one path.
type PathResult struct {
	Harness  string
	Why      string // ok, fail, panic, limit, unsupported, assume, exit
	Msg      string
	Where    string
	Inputs   []InVal
	Obs      []string
	Steps    int64
	Queries  int
	Trace    string
	MapOrder bool
}

type InVal struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type Harness struct {
	redone map[string]bool
	Name   string
	Prop   string
	Fn     *ssa.Function
	Covers []string

	queue      []*Item       // waiting (guarded by Explorer.mu)
	used       time.Duration // worker time spent (guarded by Explorer.mu)
	mu         sync.Mutex
	paths      int64
	ends       map[string]int64
	coverHit   map[string]int64
	asserts    int64
	steps      int64
	truncated  int64
	decisions  int64
	unknown    int64
	pendingCut int64
	inconcl    []PathResult
	cands      []PathResult
	onCand     func(PathResult)
	candCount  map[string]int
	samples    []PathResult
	exhausted  bool
	started    time.Time
	elapsed    time.Duration
	pending    int64
	stop       int32
	maxSteps   int64
	maxPC      int
}

type Explorer struct {
	p         *Program
	dl        atomic.Int64 // when exploration ends, in nanoseconds of the epoch
	workers   int
	mu        sync.Mutex
	cond      *sync.Cond
	order     []*Harness // harnesses in the order of their names
	queued    int        // items waiting in all of them
	busy      int
	stats     Stats
	hits      map[string]int64
	stepLimit int64
	concCap   int
	seed      int64
	thorough  bool
}

func (ex *Explorer) deadline() time.Time { return time.Unix(0, ex.dl.Load()) }

// endBy: exploration ends at t, if not earlier.
func (ex *Explorer) endBy(t time.Time) {
	if n := t.UnixNano(); ex.dl.Load() == 0 || n < ex.dl.Load() {
		ex.dl.Store(n)
	}
}

func (ex *Explorer) push(w *Worker, it *Item) {
	atomic.AddInt64(&it.h.pending, 1)
	ex.mu.Lock()
	it.h.queue = append(it.h.queue, it)
	ex.queued++
	ex.mu.Unlock()
	ex.cond.Signal()
}

// slice is how long a worker stays with one harness while others wait: long
// enough to profit from what the solver knows, short enough that a harness with
// very many paths does not use up the time of the others.
const slice = 5 * time.Second

// next takes an item (ex.mu is held, ex.queued > 0): of the worker's harness,
// or of the one that has had the least time so far.
func (ex *Explorer) next(w *Worker) *Item {
	h := w.cur
	if h == nil || len(h.queue) == 0 || time.Since(w.since) > slice {
		h = nil
		for _, g := range ex.order {
			if len(g.queue) > 0 && (h == nil || g.used < h.used) {
				h = g
			}
		}
		w.cur, w.since = h, time.Now()
	}
	it := h.queue[len(h.queue)-1]
	h.queue = h.queue[:len(h.queue)-1]
	ex.queued--
	return it
}

// Explore runs all harnesses to completion or the deadline.
func (ex *Explorer) Explore(hs []*Harness) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.hits = map[string]int64{}
	ex.order = hs
	for _, h := range hs {
		h.ends = map[string]int64{}
		h.coverHit = map[string]int64{}
		h.candCount = map[string]int{}
		ex.push(nil, &Item{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		w := &Worker{id: i, ex: ex, p: ex.p}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
			ex.mu.Lock()
			ex.stats.add(&w.stats)
			for k, v := range w.hits {
				ex.hits[k] += v
			}
			ex.mu.Unlock()
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	for ended := false; !ended; {
		select {
		case <-done:
			ended = true
		case <-time.After(time.Second):
			if !time.Now().Before(ex.deadline()) {
				ex.mu.Lock()
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
			if time.Since(ex.deadline()) > 60*time.Second {
				// a worker is stuck: what it explores stays pending
				fmt.Fprintln(os.Stderr, "gosym: a worker did not end in time")
				ended = true
			}
		}
	}
	for _, h := range hs {
		h.exhausted = atomic.LoadInt64(&h.pending) == 0
	}
}

func (s *Stats) add(o *Stats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.Fallbacks += o.Fallbacks
	s.CacheHits += o.CacheHits
	s.Reused += o.Reused
	s.Time += o.Time
	if o.MaxTime > s.MaxTime {
		s.MaxTime = o.MaxTime
	}
}

func (w *Worker) reset() {
	if w.s != nil {
		w.s.Close()
	}
	w.c = NewCtx()
	w.answers = nil
	w.s = NewSolver(w.c, &w.stats)
}

func (w *Worker) loop() {
	w.hits = map[string]int64{}
	w.stdGlobals = map[*ssa.Global]*V{}
	w.stdDone = map[*ssa.Package]bool{}
	w.reset()
	defer func() { w.s.Close() }()
	ex := w.ex
	for {
		ex.mu.Lock()
		for ex.queued == 0 && ex.busy > 0 && time.Now().Before(ex.deadline()) {
			ex.cond.Wait()
		}
		if ex.queued == 0 || !time.Now().Before(ex.deadline()) {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		it := ex.next(w)
		began := time.Now()
		ex.busy++
		ex.mu.Unlock()

		h := it.h
		if atomic.LoadInt32(&h.stop) == 0 {
			if h.started.IsZero() {
				h.mu.Lock()
				if h.started.IsZero() {
					h.started = time.Now()
				}
				h.mu.Unlock()
			}
			w.runItem(it)
			h.mu.Lock()
			h.elapsed = time.Since(h.started)
			h.mu.Unlock()
			atomic.AddInt64(&h.pending, -1)
		}

		ex.mu.Lock()
		h.used += time.Since(began)
		ex.busy--
		if ex.busy == 0 && ex.queued == 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
		if w.c.next > 1500000 {
			w.reset()
		}
	}
}

func (w *Worker) runItem(it *Item) {
	h := it.h
	w.c.ResetVars()
	w.c.NewEval()
	r := &Run{w: w, p: w.p, c: w.c, h: h, item: it, prefix: it.prefix, model: it.model,
		known: map[*Term]bool{}, atoms: map[string]*Term{}, atomVars: map[*Term]*Atom{}, files: map[string]*vfile{},
		syncMaps: map[any]*MapV{}, onceDone: map[any]bool{}, logCount: map[string]int64{}, flags: map[string]string{},
		stepLimit: w.ex.stepLimit, values: map[any]V{}}
	r.nextTick = 200000
	why, msg, where, trace := "ok", "", "", ""
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			switch e := e.(type) {
			case pathEnd:
				why, msg, where = e.why, e.msg, r.where()
				trace = r.stackTrace()
			case targetPanic:
				why, msg, where = "panic", r.panicText(e.v), r.where()
				trace = r.stackTrace()
			default:
				why, msg, where = "internal", fmt.Sprint(e), r.where()
				trace = r.stackTrace()
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "internal: %v\n%s\n%s\n", e, trace, debug.Stack())
				}
			}
		}()
		// package initialisers of the repository, then the harness
		r.initRepo(h.Fn.Package())
		r.call(h.Fn, nil, nil)
	}()
	pr := PathResult{Harness: h.Name, Why: why, Msg: msg, Where: where, Steps: r.steps, Trace: trace, MapOrder: r.mapUsed}
	h.mu.Lock()
	h.paths++
	h.ends[why]++
	h.asserts += int64(r.asserts)
	h.steps += r.steps
	h.truncated += int64(r.truncated)
	h.decisions += int64(len(r.dec) - len(r.prefix))
	if r.steps > h.maxSteps {
		h.maxSteps = r.steps
	}
	if len(r.pc) > h.maxPC {
		h.maxPC = len(r.pc)
	}
	for _, c := range r.covers {
		h.coverHit[c]++
	}
	np := h.paths
	h.mu.Unlock()
	switch why {
	case "ok":
		// sample some paths for the native cross-check
		if np <= 4 || (np&(np-1)) == 0 || (np%37 == int64(w.ex.seed)%37 && np < 2000) {
			pr.Inputs = r.inputs(r.model)
			pr.Obs = r.observations()
			h.mu.Lock()
			if len(h.samples) < 40 {
				h.samples = append(h.samples, pr)
			}
			h.mu.Unlock()
		}
	case "panic", "limit", "exit":
		pr.Inputs = r.inputs(r.model)
		h.addCand(pr)
	case "unsupported", "internal":
		pr.Inputs = r.inputs(r.model)
		h.mu.Lock()
		if len(h.inconcl) < 60 {
			h.inconcl = append(h.inconcl, pr)
		}
		h.mu.Unlock()
	}
}

func (h *Harness) addCand(pr PathResult) {
	h.mu.Lock()
	defer h.mu.Unlock()
	key := pr.Why + "|" + pr.Msg + "|" + pr.Where
	if pr.Why == "panic" || pr.Why == "limit" {
		key = pr.Why + "|" + pr.Where
	}
	h.candCount[key]++
	if h.candCount[key] <= 3 && len(h.cands) < 60 {
		h.cands = append(h.cands, pr)
		if h.onCand != nil {
			h.onCand(pr)
		}
	}
}

func (r *Run) initRepo(pkg *ssa.Package) {
	// run init of repository packages reachable from the harness package
	init := pkg.Func("init")
	r.p.ensureBuilt(pkg)
	r.initDepth++
	r.call(init, nil, nil)
	r.initDepth--
	r.steps = 0
}

func (r *Run) tick() {
	r.nextTick = r.steps + 200000
	if time.Now().After(r.w.ex.deadline()) {
		panic(pathEnd{"cut", "time budget"})
	}
}

func (r *Run) eval(t *Term) uint64 { return r.c.Eval(t, r.model) }

func (r *Run) learn(t *Term, v bool) {
	if t.isConst() {
		return
	}
	if _, ok := r.known[t]; ok {
		return
	}
	r.known[t] = v
	switch t.op {
	case ONot:
		r.learn(t.args[0], !v)
	case OAnd:
		if v {
			r.learn(t.args[0], true)
			r.learn(t.args[1], true)
		}
	case OOr:
		if !v {
			r.learn(t.args[0], false)
			r.learn(t.args[1], false)
		}
	}
}

func (r *Run) assume(t *Term) {
	if t.isConst() {
		return
	}
	if v, ok := r.known[t]; ok && v {
		return
	}
	r.pc = append(r.pc, t)
	r.learn(t, true)
}

func lit(c *Ctx, t *Term, b bool) *Term {
	if b {
		return t
	}
	return c.Not(t)
}

func (r *Run) knownVal(t *Term) (bool, bool) {
	if v, ok := r.known[t]; ok {
		return v, true
	}
	switch t.op {
	case ONot:
		v, ok := r.knownVal(t.args[0])
		return !v, ok
	case OAnd:
		a, ok1 := r.knownVal(t.args[0])
		b, ok2 := r.knownVal(t.args[1])
		if ok1 && !a || ok2 && !b {
			return false, true
		}
		return true, ok1 && ok2
	case OOr:
		a, ok1 := r.knownVal(t.args[0])
		b, ok2 := r.knownVal(t.args[1])
		if ok1 && a || ok2 && b {
			return true, true
		}
		return false, ok1 && ok2
	}
	return false, false
}

// check asks whether t can hold on this path. The model of the path satisfies
// its condition, so only the constraints that share variables with t, directly or
// through others, matter: an answer of the solver is used again for a query with
// the same constraints among these.
func (r *Run) check(t *Term) (Result, Model) {
	vars := append([]uint64(nil), t.support()...)
	in := make([]bool, len(r.pc))
	for again := true; again; {
		again = false
		for i, p := range r.pc {
			if in[i] || !meets(vars, p.support()) {
				continue
			}
			in[i] = true
			for k, x := range p.support() {
				for len(vars) <= k {
					vars = append(vars, 0)
				}
				if x&^vars[k] != 0 {
					again = true
				}
				vars[k] |= x
			}
		}
	}
	ids := make([]int, 0, len(r.pc))
	for i, p := range r.pc {
		if in[i] {
			ids = append(ids, int(p.id))
		}
	}
	sort.Ints(ids)
	key := make([]byte, 0, 4*len(ids)+4)
	for _, id := range append(ids, int(t.id)) {
		key = append(key, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	if a, ok := r.w.answers[string(key)]; ok {
		r.w.stats.Reused++
		if !a.sat {
			return Unsat, nil
		}
		m := make(Model, len(r.c.cur))
		copy(m, r.model)
		for i, v := range a.vars {
			m[v] = a.vals[i]
		}
		return Sat, m
	}
	res, m := r.w.s.Check(r.pc, t, len(r.c.cur), r.w.ex.deadline())
	if res != Unknown {
		a := answer{sat: res == Sat}
		if a.sat {
			for k, x := range vars {
				for ; x != 0; x &= x - 1 {
					v := k*64 + bits.TrailingZeros64(x)
					a.vars = append(a.vars, v)
					a.vals = append(a.vals, m[v])
				}
			}
		}
		if len(r.w.answers) > 500000 {
			r.w.answers = nil
		}
		if r.w.answers == nil {
			r.w.answers = map[string]answer{}
		}
		r.w.answers[string(key)] = a
	}
	if res == Unknown {
		r.h.mu.Lock()
		r.h.unknown++
		r.h.mu.Unlock()
	}
	return res, m
}

// branch decides a symbolic condition; the other side is queued if feasible.
var debugForks = os.Getenv("GOSYM_DEBUG") == "3"

func (r *Run) branch(t *Term) bool {
	if t.isConst() {
		return t.k == 1
	}
	if v, ok := r.knownVal(t); ok {
		r.w.stats.CacheHits++
		return v
	}
	if t.av {
		r.unsupported("decision on a digit of a formatted number")
	}
	i := len(r.dec)
	if i < len(r.prefix) {
		b := r.prefix[i].b
		r.dec = append(r.dec, r.prefix[i])
		r.assume(lit(r.c, t, b))
		return b
	}
	b := r.eval(t) == 1
	other := lit(r.c, t, !b)
	res, m := r.check(other)
	if res == Sat {
		p := make([]Decision, i+1)
		copy(p, r.dec)
		p[i] = Decision{b: !b}
		r.w.ex.push(r.w, &Item{h: r.h, prefix: p, model: m, explicit: r.item.explicit})
	}
	if debugForks && res != Unsat {
		fmt.Fprintln(os.Stderr, "fork", res, r.where(), t)
	}
	r.dec = append(r.dec, Decision{b: b})
	if res == Unsat {
		r.learn(t, b)
	} else {
		r.assume(lit(r.c, t, b))
	}
	return b
}

// concretize turns a symbolic scalar into one value per path.
func (r *Run) concretize(v V, w uint8, what string) uint64 {
	if v.t == nil {
		return v.k
	}
	t := v.t
	for n := 0; ; n++ {
		i := len(r.dec)
		if i < len(r.prefix) {
			d := r.prefix[i]
			r.dec = append(r.dec, d)
			eq := r.c.Eq(t, r.c.Const(t.w, d.val))
			r.assume(lit(r.c, eq, d.b))
			if d.b {
				return d.val
			}
			continue
		}
		val := r.eval(t)
		eq := r.c.Eq(t, r.c.Const(t.w, val))
		if !eq.isConst() {
			if n >= r.w.ex.concCap {
				// bound on the number of values explored at this point
				r.truncated++
				r.dec = append(r.dec, Decision{b: true, val: val})
				r.assume(eq)
				return val
			}
			res, m := r.check(r.c.Not(eq))
			if res == Sat {
				p := make([]Decision, i+1)
				copy(p, r.dec)
				p[i] = Decision{b: false, val: val}
				r.w.ex.push(r.w, &Item{h: r.h, prefix: p, model: m, explicit: r.item.explicit})
			}
			r.dec = append(r.dec, Decision{b: true, val: val})
			if res == Unsat {
				r.learn(eq, true)
			} else {
				r.assume(eq)
			}
		}
		return val
	}
}

// choose explores all of 0..n-1.
func (r *Run) choose(n int, name string) int {
	if n <= 1 {
		return 0
	}
	i := len(r.dec)
	if i < len(r.prefix) {
		d := r.prefix[i]
		r.dec = append(r.dec, d)
		return int(d.val)
	}
	for k := n - 1; k >= 1; k-- {
		p := make([]Decision, i+1)
		copy(p, r.dec)
		p[i] = Decision{b: true, val: uint64(k)}
		r.w.ex.push(r.w, &Item{h: r.h, prefix: p, model: append(Model(nil), r.model...), explicit: r.item.explicit})
	}
	r.dec = append(r.dec, Decision{b: true, val: 0})
	return 0
}

// assumeCond restricts the path to t.
func (r *Run) assumeCond(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if v, ok := r.knownVal(t); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if r.eval(t) != 1 {
		i := len(r.dec)
		if i < len(r.prefix) {
			// the model of a prefix item satisfies every assumption made in the prefix
			// unless it was created later on; look for one below
		}
		res, m := r.check(t)
		if res != Sat {
			if res == Unknown {
				panic(pathEnd{"unsupported", "assumption undecided"})
			}
			panic(pathEnd{"assume", ""})
		}
		r.model = m
		r.c.NewEval()
	}
	r.assume(t)
}

// assert checks t on all inputs of the path.
func (r *Run) assert(t *Term, msg string) {
	r.asserts++
	if t.isConst() {
		if t.k == 1 {
			return
		}
		r.fail(msg, r.model)
		panic(pathEnd{"fail", msg})
	}
	if v, ok := r.knownVal(t); ok {
		if v {
			return
		}
		r.fail(msg, r.model)
		panic(pathEnd{"fail", msg})
	}
	if len(r.dec) < len(r.prefix) {
		// already checked on the parent path (same prefix, same condition)
		r.assumeCond(t)
		return
	}
	if r.eval(t) != 1 {
		if os.Getenv("GOSYM_DEBUG") == "2" {
			fmt.Fprintln(os.Stderr, "assert", t)
		}
		r.fail(msg, r.model)
		// continue with inputs that satisfy it, if any
		res, m := r.check(t)
		if res != Sat {
			panic(pathEnd{"fail", msg})
		}
		r.model = m
		r.c.NewEval()
		r.assume(t)
		return
	}
	res, m := r.check(r.c.Not(t))
	switch res {
	case Sat:
		r.fail(msg, m)
		r.assume(t)
	case Unsat:
		r.learn(t, true)
	default:
		r.assume(t)
	}
}

func (r *Run) fail(msg string, m Model) {
	if os.Getenv("GOSYM_DEBUG") == "2" {
		fmt.Fprintln(os.Stderr, "FAIL", msg, "model", m)
		for _, t := range r.pc {
			r.c.NewEval()
			fmt.Fprintln(os.Stderr, "  pc", t, "=", r.c.Eval(t, m))
		}
		fmt.Fprintln(os.Stderr, r.stackTrace())
	}
	pr := PathResult{Harness: r.h.Name, Why: "assert", Msg: msg, Where: r.where(), Inputs: r.inputs(m), Steps: r.steps, MapOrder: r.mapUsed}
	r.h.addCand(pr)
}

func (r *Run) inputs(m Model) []InVal {
	r.c.NewEval()
	out := make([]InVal, len(r.nondet))
	for i, n := range r.nondet {
		v := n.k
		if n.t != nil {
			v = r.c.Eval(n.t, m)
		}
		out[i] = InVal{n.Name, v}
	}
	r.c.NewEval()
	return out
}

// answer is what the solver said to a query.
type answer struct {
	sat  bool
	vars []int
	vals []uint64
}

func (r *Run) observations() []string {
	r.c.NewEval()
	var out []string
	for _, o := range r.obs {
		out = append(out, o.name+"="+strconv.QuoteToASCII(r.concreteText(o.s, r.model)))
	}
	r.c.NewEval()
	return out
}

func (r *Run) panicText(v V) string {
	ifc, ok := v.p.(Iface)
	if !ok {
		return "nil"
	}
	s := "?"
	func() {
		defer func() { recover() }()
		s = r.concreteText(r.fmtValue(v, 'v', fmtSpec{}), r.model)
	}()
	if ifc.t == r.p.rtErr {
		return "runtime error: " + strings.TrimPrefix(s, "runtime error: ")
	}
	return s
}

func (h *Harness) missingCovers() []string {
	var m []string
	for _, c := range h.Covers {
		if h.coverHit[c] == 0 {
			m = append(m, c)
		}
	}
	sort.Strings(m)
	return m
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}
