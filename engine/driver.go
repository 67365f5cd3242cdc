package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- native replay ----

type Native_ struct {
	bin     string
	scratch string
	deep    bool
	n       int
	mu      sync.Mutex
	runs    int
	timeout time.Duration
}

type NativeResult struct {
	Why     string   `json:"why"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Covers  []string `json:"covers"`
	Asserts int      `json:"asserts"`
	Split   bool     `json:"split"`
	Stderr  string   `json:"-"`
}

func (n NativeResult) bad() bool {
	switch n.Why {
	case "assert", "panic", "crash", "hang", "memory", "exit":
		return true
	}
	return false
}

// buildNative builds the replay program from the repository's current tree.
func buildNative(repo string, overlay map[string]string, scratch string, names []string) (string, error) {
	ov := map[string]string{}
	cli := false
	for k, v := range overlay {
		ov[k] = v
		cli = cli || strings.Contains(k, "/zz_verif/zcli/")
	}
	fault := false
	for _, n := range names {
		fault = fault || strings.Contains(n, "Fault")
	}
	if fault {
		if err := faultOverlay(ov, scratch); err != nil {
			return "", err
		}
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"io/ioutil\"\n\t\"os\"\n\t\"runtime\"\n\t\"time\"\n\n")
	if cli {
		b.WriteString("\t\"" + cliPkg + "\"\n")
	}
	b.WriteString("\t\"" + modPath + "/zz_verif/h\"\n\t\"" + modPath + "/zz_verif/sym\"\n)\n\nvar harnesses = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q: h.%s,\n", n, n)
	}
	b.WriteString("}\n\n")
	if cli {
		b.WriteString("func init() { sym.RunCLI = zcli.ZzRun }\n")
	}
	if fault {
		b.WriteString("func init() { os.ZzFault = sym.Fault }\n")
	}
	b.WriteString(`
func main() {
	raw, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var job struct {
		Harness string
		Deep    bool
		Inputs  []sym.Input
	}
	if err := json.Unmarshal(raw, &job); err != nil {
		panic(err)
	}
	sym.Setup(job.Inputs, os.Args[2], os.Args[3], job.Deep)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(50 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 1500<<20 {
				sym.Finish("memory", "more than 1.5 GB in use")
			}
		}
	}()
	defer func() {
		if e := recover(); e != nil {
			sym.Finish("panic", fmt.Sprint(e))
		}
	}()
	f := harnesses[job.Harness]
	if f == nil {
		panic("no harness " + job.Harness)
	}
	f()
	sym.Finish("ok", "")
}
`)
	mainSrc := filepath.Join(scratch, "replay_main.go")
	if err := os.WriteFile(mainSrc, []byte(b.String()), 0644); err != nil {
		return "", err
	}
	ov[filepath.Join(repo, "zz_verif", "replay", "main.go")] = mainSrc
	ovf := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(ovf, mustJSON(map[string]any{"Replace": ov}), 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zz_verif/replay")
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	return bin, nil
}

// faultOverlay makes os.File reads ask os.ZzFault how much they may read, so that
// the native run of a harness with a FaultFile has the read error where it belongs.
func faultOverlay(ov map[string]string, scratch string) error {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	name := filepath.Join(strings.TrimSpace(string(out)), "src", "os", "file_posix.go")
	b, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	s := string(b)
	for _, h := range [][2]string{
		{"func (f *File) read(b []byte) (n int, err error) {\n", "off, _ := f.seek(0, 1)"},
		{"func (f *File) pread(b []byte, off int64) (n int, err error) {\n", ""},
	} {
		if strings.Count(s, h[0]) != 1 {
			return fmt.Errorf("package os has another form: no %q", h[0])
		}
		s = strings.Replace(s, h[0], h[0]+"\tif ZzFault != nil {\n\t\t"+h[1]+"\n\t\tk := ZzFault(f.name, off, len(b))\n\t\tif k < 0 {\n\t\t\treturn 0, syscall.EIO\n\t\t}\n\t\tb = b[:k]\n\t}\n", 1)
	}
	s += "\nvar ZzFault func(name string, off int64, n int) int\n"
	p := filepath.Join(scratch, "file_posix.go")
	ov[name] = p
	return os.WriteFile(p, []byte(s), 0644)
}

type job struct {
	Harness string
	Deep    bool
	Inputs  []InVal
}

func (n *Native_) run(harness string, in []InVal) NativeResult {
	n.mu.Lock()
	n.n++
	n.runs++
	id := n.n
	n.mu.Unlock()
	dir := filepath.Join(n.scratch, fmt.Sprintf("run%d", id))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	jf := filepath.Join(dir, "job.json")
	rf := filepath.Join(dir, "result.json")
	os.WriteFile(jf, mustJSON(job{harness, n.deep, in}), 0644)
	ctx, cancel := context.WithTimeout(context.Background(), n.timeout)
	defer cancel()
	// CPU seconds bound what counts as a hang, so that a loaded machine does not matter
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", `ulimit -t 10; ulimit -v 8000000; exec "$@"`, "x", n.bin, jf, rf, dir)
	cmd.Dir = dir
	cmd.Env = []string{"TZ=UTC", "HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var errb strings.Builder
	cmd.Stderr = &limited{b: &errb, n: 4000}
	err := cmd.Run()
	raw, e2 := os.ReadFile(rf)
	if e2 == nil {
		var nr NativeResult
		if json.Unmarshal(raw, &nr) == nil {
			return nr
		}
	}
	nr := NativeResult{Stderr: errb.String()}
	if ctx.Err() != nil {
		nr.Why, nr.Msg = "hang", fmt.Sprintf("no result after %s", n.timeout)
		return nr
	}
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		switch {
		case ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGXCPU):
			nr.Why, nr.Msg = "hang", "10 s of CPU time used without a result"
		case ws.Signaled():
			nr.Why, nr.Msg = "crash", ws.Signal().String()
		case ws.ExitStatus() == 2 && strings.Contains(nr.Stderr, "SIGXCPU"):
			nr.Why, nr.Msg = "hang", "10 s of CPU time used without a result"
		case ws.ExitStatus() == 2:
			nr.Why, nr.Msg = "crash", firstLine(nr.Stderr)
		default:
			nr.Why, nr.Msg = "exit", fmt.Sprintf("process ended with status %d", ws.ExitStatus())
		}
		return nr
	}
	nr.Why, nr.Msg = "noresult", fmt.Sprint(err)
	if err == nil {
		nr.Why, nr.Msg = "exit", "process ended with status 0"
	}
	return nr
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if room := l.n - l.b.Len(); room > 0 {
		l.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

// grace is how long exploration goes on after the first confirmed violation.
const grace = 20 * time.Second

// ---- harness discovery ----

func findHarnesses(p *Program, prop string) []*Harness {
	pkg := p.pkgs[modPath+"/zz_verif/h"]
	var hs []*Harness
	var names []string
	for n := range pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn, ok := pkg.Members[n].(*ssa.Function)
		if !ok || len(n) < 5 || n[0] != 'C' || n[3] != '_' || fn.Signature.Params().Len() != 0 {
			continue
		}
		if prop != "" && n[:3] != prop {
			continue
		}
		if strings.HasSuffix(n, "CLI") && p.pkgs[cliPkg] == nil {
			fmt.Println(n, "left out: the command line program cannot be driven")
			continue
		}
		hs = append(hs, &Harness{Name: n, Prop: n[:3], Fn: fn})
	}
	return hs
}

func harnessNames(p *Program) []string {
	var out []string
	for _, h := range findHarnesses(p, "") {
		out = append(out, h.Name)
	}
	return out
}

// declaredCovers finds the cover points of a harness (its own body and closures).
func declaredCovers(p *Program, fn *ssa.Function) []string {
	p.ensureBuilt(fn.Package())
	seen := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g.String() == symPkg+"Cover" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							s, _ := isConcreteStr(constVal(k))
							seen[s] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	var out []string
	for k := range seen {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- known findings ----

type known struct {
	prop, harness, msg, text string
	inputs                   map[string]string
	seen                     bool
}

func loadKnown(path, prop string) []*known {
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []*known
	for _, line := range strings.Split(string(raw), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		// known: {"property": "...", "harness": "...", "msg": "...", "inputs": {...}, "what": "..."}
		var k struct {
			Property, Harness, Msg, What string
			Inputs                       map[string]string
		}
		if json.Unmarshal([]byte(strings.TrimPrefix(line, "known:")), &k) != nil || k.Property != prop {
			continue
		}
		out = append(out, &known{prop: k.Property, harness: k.Harness, msg: k.Msg, text: k.What, inputs: k.Inputs})
	}
	return out
}

func (k *known) match(pr *PathResult, nr NativeResult) bool {
	if k.harness != pr.Harness || !strings.Contains(nr.Msg, k.msg) {
		return false
	}
	vals := map[string]string{}
	for _, i := range pr.Inputs {
		vals[i.N] = fmt.Sprint(i.V)
	}
	for n, v := range k.inputs {
		if vals[n] != v {
			return false
		}
	}
	return true
}

// ---- the check ----

type violation struct {
	pr PathResult
	nr NativeResult
}

func runCheck(verif, repo, prop string, only string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	hdir := filepath.Join(verif, "harness")
	p, err := Load(repo, hdir, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the program:", err)
		return 2
	}
	loadT := time.Since(start)
	type built struct {
		bin string
		err error
	}
	bc := make(chan built, 1)
	var names []string
	for _, h := range findHarnesses(p, prop) {
		names = append(names, h.Name)
	}
	go func() {
		bin, err := buildNative(repo, p.overlay, scratch, names)
		bc <- built{bin, err}
	}()
	hs := findHarnesses(p, prop)
	if only != "" {
		var f []*Harness
		for _, h := range hs {
			if strings.Contains(h.Name, only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	for _, h := range hs {
		h.Covers = declaredCovers(p, h.Fn)
	}
	budget := 400 * time.Second
	ex := &Explorer{p: p, workers: 8, stepLimit: 6000000, concCap: 600, seed: seed}
	if tier == "thorough" {
		budget = 600 * time.Second
		ex.thorough = true
		ex.stepLimit = 20000000
		ex.concCap = 2000
	}
	if b := os.Getenv("GOSYM_BUDGET"); b != "" {
		if d, err := time.ParseDuration(b); err == nil {
			budget = d
		}
	}
	ex.endBy(time.Now().Add(budget))
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	var nat *Native_
	var nerr error
	natReady := make(chan bool)
	go func() {
		b := <-bc
		nat, nerr = &Native_{bin: b.bin, scratch: scratch, deep: ex.thorough, timeout: 60 * time.Second}, b.err
		close(natReady)
	}()
	// a violation that is confirmed ends the exploration soon
	cands := make(chan PathResult, 10000)
	for _, h := range hs {
		h.onCand = func(pr PathResult) {
			select {
			case cands <- pr:
			default:
			}
		}
	}
	go func() {
		<-natReady
		if nerr != nil {
			return
		}
		for c := range cands {
			nr := nat.run(c.Harness, c.Inputs)
			isKnown := false
			for _, k := range kn {
				isKnown = isKnown || k.match(&c, nr)
			}
			if nr.bad() && !isKnown {
				ex.endBy(time.Now().Add(grace))
				return
			}
		}
	}()
	ex.Explore(hs)
	exploreT := time.Since(start) - loadT

	<-natReady
	if nerr != nil {
		fmt.Fprintln(os.Stderr, nerr)
		return 2
	}

	// replay: candidates, inconclusive paths, samples of the other paths
	type task struct {
		pr   PathResult
		kind string
		nr   NativeResult
	}
	var tasks []*task
	for _, h := range hs {
		for _, c := range h.cands {
			tasks = append(tasks, &task{pr: c, kind: "cand"})
		}
		for _, c := range h.inconcl {
			tasks = append(tasks, &task{pr: c, kind: "inconcl"})
		}
		for _, c := range h.samples {
			tasks = append(tasks, &task{pr: c, kind: "sample"})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	replayStart, foundBad := time.Now(), atomic.Bool{}
	for _, t := range tasks {
		t := t
		// many runs that hang take long: one that is confirmed is enough
		if d := time.Since(replayStart); d > 300*time.Second || d > 60*time.Second && foundBad.Load() {
			t.nr.Why = "skipped"
			continue
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			reps := 1
			if t.pr.MapOrder && t.kind == "cand" {
				reps = 60
			}
			for i := 0; i < reps; i++ {
				t.nr = nat.run(t.pr.Harness, t.pr.Inputs)
				if t.nr.bad() {
					if t.kind == "cand" || !t.nr.Split {
						foundBad.Store(true)
					}
					break
				}
			}
		}()
	}
	wg.Wait()

	var viols []violation
	var unconfirmed, mismatches, notes []string
	validated, natOK := 0, map[string]int{}
	natCovers := map[string]map[string]bool{}
	for _, t := range tasks {
		if natCovers[t.pr.Harness] == nil {
			natCovers[t.pr.Harness] = map[string]bool{}
		}
		for _, c := range t.nr.Covers {
			natCovers[t.pr.Harness][c] = true
		}
		if t.nr.Why == "ok" {
			natOK[t.pr.Harness]++
		}
		if t.nr.Why == "skipped" {
			continue
		}
		bad := t.nr.bad()
		if t.kind != "cand" && t.nr.Split {
			bad = false // a pipe stands in for the short reads: only confirms what the engine found
		}
		if bad {
			isKnown := false
			for _, k := range kn {
				if k.match(&t.pr, t.nr) {
					k.seen = true
					isKnown = true
				}
			}
			if !isKnown {
				viols = append(viols, violation{t.pr, t.nr})
			}
			continue
		}
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Println("task", t.kind, t.pr.Harness, t.pr.Why, t.pr.Msg, t.nr.Why, t.nr.Msg, t.pr.Inputs, t.pr.Obs, t.nr.Obs)
		}
		desc := fmt.Sprintf("%s: engine %s (%s at %s), native %s (%s)", t.pr.Harness, t.pr.Why, t.pr.Msg, t.pr.Where, t.nr.Why, t.nr.Msg)
		switch t.kind {
		case "cand":
			unconfirmed = append(unconfirmed, desc)
		case "inconcl":
			notes = append(notes, desc)
		case "sample":
			if t.nr.Split {
				continue
			}
			if t.nr.Why != "ok" {
				mismatches = append(mismatches, desc)
				continue
			}
			if strings.Join(t.nr.Obs, "\n") != strings.Join(t.pr.Obs, "\n") && !t.pr.MapOrder {
				mismatches = append(mismatches, fmt.Sprintf("%s: observations differ: engine %q, native %q (inputs %v)", t.pr.Harness, t.pr.Obs, t.nr.Obs, t.pr.Inputs))
				continue
			}
			validated++
		}
	}

	// report
	var paths, branches, asserts, steps int64
	var bounds []any
	var okAll = true
	vacuous := []string{}
	unreached := []string{}
	var samples []any
	for _, h := range hs {
		paths += h.paths
		asserts += h.asserts
		steps += h.steps
		branches += h.decisions
		miss := h.missingCovers()
		var m2 []string
		for _, c := range miss {
			if !natCovers[h.Name][c] {
				m2 = append(m2, c)
			}
		}
		complete := h.exhausted && h.truncated == 0 && h.unknown == 0 && h.ends["unsupported"]+h.ends["internal"]+h.ends["limit"]+h.ends["cut"] == 0
		if !complete {
			okAll = false
		}
		bounds = append(bounds, map[string]any{
			"harness": h.Name, "paths": h.paths, "ends": h.ends, "assertions_checked": h.asserts, "all_paths_within_bounds": complete,
			"pending_paths": h.pending, "values_truncated": h.truncated, "undecided_queries": h.unknown,
			"covers_reached": h.coverHit, "covers_missed": m2, "seconds": h.elapsed.Seconds(), "max_instructions": h.maxSteps, "max_constraints": h.maxPC})
		if len(m2) > 0 {
			notes = append(notes, fmt.Sprintf("%s: cover points not reached: %v", h.Name, m2))
		}
		if h.ends["ok"] == 0 && natOK[h.Name] == 0 {
			if h.exhausted {
				vacuous = append(vacuous, h.Name)
			} else {
				unreached = append(unreached, h.Name)
				notes = append(notes, h.Name+": no path came to its end in the time given")
			}
		}
		for i, s := range h.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": h.Name, "end": s.Why, "inputs": compactInputs(s.Inputs), "observations": s.Obs})
			}
		}
		fmt.Printf("%-34s paths %-6d ends %v asserts %d complete %v pending %d trunc %d unknown %d  %.1fs maxsteps %d %s\n", h.Name, h.paths, h.ends, h.asserts, complete, h.pending, h.truncated, h.unknown, h.elapsed.Seconds(), h.maxSteps, strings.Join(m2, ","))
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	var fns []string
	for n := range ex.hits {
		if !strings.Contains(n, "/zz_verif/") {
			fns = append(fns, strings.ReplaceAll(n, modPath+"/", ""))
		}
	}
	sort.Strings(fns)
	verdict := "held on every path within the bounds"
	if !okAll {
		verdict = "held on everything explored; not all paths within the bounds were explored (see bounds)"
	}
	rc := 0
	rdir := filepath.Join(verif, "replays")
	if len(viols) > 0 {
		rc = 1
		verdict = "violated"
		os.MkdirAll(rdir, 0755)
		seenKey := map[string]bool{}
		n := 0
		for _, v := range viols {
			key := v.pr.Harness + v.nr.Why + v.nr.Msg
			if seenKey[key] || n >= 10 {
				continue
			}
			seenKey[key] = true
			f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, n))
			os.WriteFile(f, mustJSON(map[string]any{"property": prop, "Harness": v.pr.Harness, "Deep": ex.thorough, "Inputs": v.pr.Inputs,
				"native": v.nr, "engine": map[string]string{"why": v.pr.Why, "msg": v.pr.Msg, "where": v.pr.Where}}), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			fmt.Printf("  %s: %s: %s\n", v.pr.Harness, v.nr.Why, trunc(v.nr.Msg, 600))
			n++
		}
	}
	for _, k := range kn {
		if k.seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	for _, m := range mismatches {
		fmt.Println("MODEL MISMATCH:", trunc(m, 1500))
	}
	for _, m := range unconfirmed {
		fmt.Println("unconfirmed:", trunc(m, 800))
	}
	for i, m := range notes {
		if i < 20 {
			fmt.Println("note:", trunc(m, 600))
		}
	}
	if len(unreached)+len(vacuous) == len(hs) {
		vacuous = append(vacuous, unreached...)
	}
	if len(vacuous) > 0 && rc == 0 {
		fmt.Println("VACUOUS:", vacuous)
		rc = 2
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": len(viols),
		"coverage": map[string]any{
			"states": paths, "transitions": branches, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": okAll && len(viols) == 0,
			"explanation": "states: symbolic paths executed to their end; transitions: symbolic decisions taken on them; each assertion is decided by the solver for all inputs of its path",
			"verdict":     verdict, "assertions_decided": asserts, "instructions_interpreted": steps,
			"functions_encoded": fns, "bounds": bounds,
			"queries": map[string]any{"discharged": ex.stats.Queries, "sat": ex.stats.SatN, "unsat": ex.stats.UnsatN, "unknown": ex.stats.UnknownN, "fallback_solver": ex.stats.Fallbacks,
				"solver_seconds": ex.stats.Time.Seconds(), "slowest_seconds": ex.stats.MaxTime.Seconds()},
			"native_runs": nat.runs, "model_mismatches": nonNil(mismatches), "unconfirmed_candidates": nonNil(unconfirmed), "inconclusive": nonNil(notes),
		},
		"assumptions": []string{
			"the Go standard library functions listed in DESIGN.md are replaced by models (fmt, strconv, sort, sync, os.File reads, glog, time formatting)",
			"z3 and cvc5 answer unsat only for unsatisfiable queries",
			"bounds: those written in the harness (see DESIGN.md) and the step limit",
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), mustJSON(ev), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %s; %d paths, %d assertions, %d queries, solver %.1fs, %d native runs; load %.1fs explore %.1fs total %.1fs\n", prop, tier, verdict, paths, asserts, ex.stats.Queries,
		ex.stats.Time.Seconds(), nat.runs, loadT.Seconds(), exploreT.Seconds(), time.Since(start).Seconds())
	return rc
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func compactInputs(in []InVal) any {
	m := []string{}
	for i, v := range in {
		if i >= 40 {
			m = append(m, fmt.Sprintf("... %d more", len(in)-i))
			break
		}
		m = append(m, fmt.Sprintf("%s=%d", v.N, v.V))
	}
	return m
}

func runReplay(verif, repo, file string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var j job
	json.Unmarshal(raw, &j)
	scratch, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(scratch)
	p, err := Load(repo, filepath.Join(verif, "harness"), scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := buildNative(repo, p.overlay, scratch, []string{j.Harness})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat := &Native_{bin: bin, scratch: scratch, deep: j.Deep, timeout: 60 * time.Second}
	nr := nat.run(j.Harness, j.Inputs)
	fmt.Printf("%s: %s: %s\n%s\n", j.Harness, nr.Why, nr.Msg, nr.Stderr)
	for _, o := range nr.Obs {
		fmt.Println("  ", o)
	}
	if nr.bad() {
		return 1
	}
	return 0
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym check PROPERTY [harness] | gosym replay FILE")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif, _ = os.Getwd()
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "check":
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		os.Exit(runCheck(verif, repo, os.Args[2], only))
	case "replay":
		os.Exit(runReplay(verif, repo, os.Args[2]))
	}
	os.Exit(2)
}
