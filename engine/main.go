package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	verifDir = flag.String("verif", "/verif", "verif directory")
	repoDir  = flag.String("repo", "/repo", "repository")
	tierF    = flag.String("tier", "", "quick or thorough")
	only     = flag.String("entry", "", "only this entry function")
	budget   = flag.Int("budget", 0, "seconds for exploration")
	nworkers = flag.Int("workers", 0, "workers")
	verbose  = flag.Bool("v", false, "verbose")
	softMs   = flag.Int("soft", 4000, "incremental solver timeout, ms")
	hardMs   = flag.Int("hard", 20000, "portfolio solver timeout, ms")
	evDir    = flag.String("evidence", "", "evidence directory")
	fakeF    = flag.Bool("fake", false, "make instances of templates from their .gp.go files")
	replayF  = flag.String("replay", "", "replay this counterexample natively and exit")
)

func main() {
	flag.Parse()
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: engine [flags] PROPERTY")
		os.Exit(2)
	}
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(200)
	prop := flag.Arg(0)
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *evDir == "" {
		*evDir = filepath.Join(*verifDir, "evidence")
	}
	os.MkdirAll(*evDir, 0o755)
	c := &checker{prop: prop, tier: tier, seed: seed, start: time.Now()}
	useFake = *fakeF
	if *replayF != "" {
		if b, err := os.ReadFile(*replayF); err == nil {
			var f struct {
				Fake bool `json:"fake"`
			}
			json.Unmarshal(b, &f)
			useFake = useFake || f.Fake
		}
	}
	code := c.run()
	if c.gopath != "" {
		os.RemoveAll(c.gopath)
	}
	if code == 0 && *replayF == "" && !useFake && len(templatesDiffer) > 0 {
		// the other form of the templates
		fmt.Println("templates with a .gp.go file of their own, checked too:", strings.Join(templatesDiffer, " "))
		args := append([]string{"-fake"}, os.Args[1:]...)
		cmd := exec.Command(os.Args[0], args...)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			code = 2
			if e, ok := err.(*exec.ExitError); ok && e.ExitCode() >= 0 {
				code = e.ExitCode()
			}
		}
	}
	os.Exit(code)
}

type checker struct {
	prop, tier string
	seed       int64
	start      time.Time
	gopath     string
	entries    []*ssa.Function
	prog       *Program

	replayOnce sync.Once
	replayBin  string
	replayErr  error
	replayMu   sync.Mutex

	violations []violation
	knownHits  []string
	mismatches []string
	replays    int
	validated  int
	level      string
	bounds     []string
	notes      []string
}

type violation struct {
	c    candidate
	path string
	out  string
}

func (c *checker) harnessPath() string { return "verif/" + strings.ToLower(c.prop) }

func (c *checker) load(shipped bool) (*Program, error) {
	if c.gopath != "" {
		os.RemoveAll(c.gopath)
	}
	gp, err := mkGopath(*verifDir, *repoDir, c.harnessPath(), shipped)
	c.gopath = gp
	if err != nil {
		return nil, err
	}
	return loadProgram(gp, c.harnessPath())
}

func (c *checker) run() int {
	t0 := time.Now()
	prog, err := c.load(false)
	if err != nil && len(instrumentList(*verifDir, c.harnessPath(), "templates")) > 0 {
		// what the templates give may not go together with the rest of the
		// package any more (a function moved to a file of its own, say)
		fmt.Fprintln(os.Stderr, "error:", err)
		c.notes = append(c.notes, "the instances of the templates did not load, the ones in the repository were checked instead")
		prog, err = c.load(true)
	}
	if err != nil && c.gopath != "" && len(instrumentLines(*verifDir, c.harnessPath(), "instance")) > 0 && *replayF == "" {
		// no instance, no verdict: a template is not compiled by anything in
		// the repository, and what it uses may have been renamed
		fmt.Fprintln(os.Stderr, "error:", err)
		c.notes = append(c.notes, "the templates could not be instantiated, nothing was checked")
		c.writeEvidence(nil, time.Since(t0).Seconds())
		c.summary(nil)
		return 0
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	c.prog = prog
	if *replayF != "" {
		return c.replayFile(*replayF)
	}
	var names []string
	for n, m := range prog.harness.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Check") && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if *only != "" && n != *only {
			continue
		}
		c.entries = append(c.entries, prog.harness.Func(n))
	}
	if len(c.entries) == 0 {
		fmt.Fprintln(os.Stderr, "error: no entries in", c.harnessPath())
		return 2
	}
	nw := *nworkers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	secs := *budget
	if secs == 0 {
		secs = 300
		if c.tier == "thorough" {
			secs = 840
		}
	}
	end := c.start.Add(time.Duration(secs) * time.Second)
	cfg := Config{workers: nw, softMs: *softMs, hardMs: *hardMs, maxSteps: 3000000, tier: c.tier, seed: c.seed}
	if c.tier == "thorough" {
		cfg.hardMs = 3 * *hardMs
		cfg.maxSteps = 10000000
	}
	// workers initialise gx and the harness once each
	mkWorkers := func(ex *Explorer) []*Interp {
		ins := make([]*Interp, nw)
		var wg sync.WaitGroup
		for i := range ins {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				in := newInterp(prog, ex)
				in.resetPath(item{model: Model{}})
				in.maxSteps = 1 << 60
				in.inited[prog.harness] = true
				in.runInit(prog.harness)
				ins[i] = in
			}(i)
		}
		wg.Wait()
		return ins
	}
	var exs []*Explorer
	var ins []*Interp
	stop := false
	for k, fn := range c.entries {
		left := time.Until(end)
		share := left / time.Duration(len(c.entries)-k) * 2
		if len(c.entries) > 20 {
			share *= 2
		}
		if share > left {
			share = left
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		ecfg := cfg
		ecfg.deadline = time.Now().Add(share)
		if strings.HasSuffix(fn.Name(), "Huge") {
			ecfg.maxSteps *= 50
		}
		ex := newExplorer(prog, ecfg)
		ex.onCand = c.confirm
		if ins == nil {
			ins = mkWorkers(ex)
		}
		for _, in := range ins {
			in.ex = ex
			in.sol.st = &ex.st
		}
		te := time.Now()
		ex.run(fn, ins)
		ex.wall = time.Since(te)
		exs = append(exs, ex)
		if *verbose {
			c.printEx(ex)
		}
		if len(c.violations) > 0 {
			stop = true
			break
		}
		c.validate(ex)
		if len(c.violations) > 0 {
			stop = true
			break
		}
	}
	_ = stop
	for _, in := range ins {
		in.sol.close()
	}
	exs[0].collect(ins)
	c.writeEvidence(exs, loadS)
	c.summary(exs)
	for _, k := range c.knownHits {
		fmt.Println(k)
	}
	if len(c.violations) > 0 {
		for _, v := range c.violations {
			fmt.Printf("  %s: %s (%s)\n", v.c.Entry, v.c.Msg, v.c.Kind)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, v.path)
		}
		return 1
	}
	return 0
}

func (c *checker) printEx(ex *Explorer) {
	fmt.Fprintf(os.Stderr, "%s: paths=%d finished=%d infeasible=%d aborted=%d truncated=%d asserts=%d (trivial %d, undecided %d) queries=%d (sat %d unsat %d unk %d oneshot %d int %d) solver=%.1fs wall=%.1fs maxdec=%d steps=%d\n",
		ex.entry, ex.paths, ex.pathsFinished, ex.infeasible, ex.aborted, ex.truncated, ex.asserts, ex.trivial, ex.undecided,
		ex.st.queries, ex.st.qsat, ex.st.qunsat, ex.st.qunknown, ex.st.oneshot, ex.st.intQueries, float64(ex.st.solverNs)/1e9, ex.wall.Seconds(), ex.maxDec, ex.steps)
	for k, n := range ex.aborts {
		fmt.Fprintf(os.Stderr, "   abort x%d: %s\n", n, k)
	}
	for k, n := range ex.notes {
		fmt.Fprintf(os.Stderr, "   note x%d: %s\n", n, k)
	}
	for k, n := range ex.candKey {
		fmt.Fprintf(os.Stderr, "   candidate x%d: %s\n", n, k)
	}
}

func (c *checker) summary(exs []*Explorer) {
	var p, a, q, ab, tr, un int64
	for _, e := range exs {
		p += e.pathsFinished
		a += e.asserts
		q += e.st.queries
		ab += e.aborted
		tr += e.truncated
		un += e.undecided + e.branchUnknown
	}
	fmt.Printf("%s %s: entries=%d paths=%d assertions=%d queries=%d validated-natively=%d", c.prop, c.tier, len(exs), p, a, q, c.validated)
	for _, n := range c.notes {
		fmt.Printf(" REDUCED-BOUND(%s)", n)
	}
	if ab+tr+un > 0 {
		fmt.Printf(" REDUCED-BOUND(aborted=%d truncated=%d undecided=%d)", ab, tr, un)
	}
	fmt.Printf(" wall=%.1fs\n", time.Since(c.start).Seconds())
}

// ---- native replay --------------------------------------------------------------

func (c *checker) buildReplay() {
	c.replayOnce.Do(func() {
		d := filepath.Join(c.gopath, "src/replaymain")
		os.MkdirAll(d, 0o755)
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\th \"" + c.harnessPath() + "\"\n\t\"verif/sym\"\n)\n\n")
		sb.WriteString("func main() {\n\tif err := sym.Load(os.Args[2]); err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(4)\n\t}\n")
		sb.WriteString("\tdone := false\n\tdefer func() {\n\t\tif r := recover(); !done {\n\t\t\tfmt.Println(\"REPLAY-VIOLATION panic:\", r)\n\t\t\tos.Exit(3)\n\t\t}\n\t}()\n")
		sb.WriteString("\tswitch os.Args[1] {\n")
		for n, m := range c.prog.harness.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Check") && f.Signature.Params().Len() == 0 {
				sb.WriteString("\tcase \"" + n + "\":\n\t\th." + n + "()\n")
			}
		}
		sb.WriteString("\t}\n\tdone = true\n\tfmt.Println(\"REPLAY-OK\")\n}\n")
		os.WriteFile(filepath.Join(d, "main.go"), []byte(sb.String()), 0o644)
		bin := filepath.Join(c.gopath, "replay.bin")
		cmd := exec.Command("go", "build", "-o", bin, "replaymain")
		cmd.Dir = filepath.Join(c.gopath, "src")
		cmd.Env = append(goEnv(c.gopath), "PWD="+cmd.Dir)
		out, err := cmd.CombinedOutput()
		if err != nil {
			c.replayErr = fmt.Errorf("replay build: %v\n%s", err, out)
			fmt.Fprintln(os.Stderr, c.replayErr)
			return
		}
		c.replayBin = bin
	})
}

// native runs one vector on the real code: "ok", "violation", "assume",
// "hang" or "error".
func (c *checker) native(entry string, vector map[string]uint64, timeout time.Duration) (string, string) {
	c.buildReplay()
	if c.replayErr != nil {
		return "error", c.replayErr.Error()
	}
	f, err := os.CreateTemp(c.gopath, "vec*.json")
	if err != nil {
		return "error", err.Error()
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(map[string]interface{}{"vector": vector, "tier": c.tier})
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "sh", "-c", "ulimit -v 12000000; exec \"$0\" \"$@\"", c.replayBin, entry, f.Name())
	cmd.Dir = c.gopath
	cmd.Env = append(goEnv(c.gopath), "PWD="+cmd.Dir, "VERIF_TIER="+c.tier)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.WaitDelay = time.Second
	err = cmd.Run()
	out := buf.String()
	if len(out) > 4000 {
		out = out[:4000]
	}
	if ctx.Err() != nil {
		return "hang", "no answer within " + timeout.String()
	}
	switch {
	case strings.Contains(out, "REPLAY-VIOLATION"):
		return "violation", out
	case strings.Contains(out, "REPLAY-ASSUME-FAILED"):
		return "assume", out
	case err == nil:
		return "ok", out
	case strings.Contains(out, "fatal error: stack overflow"), strings.Contains(out, "goroutine stack exceeds"),
		strings.Contains(out, "out of memory"), strings.Contains(out, "all goroutines are asleep"), strings.Contains(out, "fatal error"):
		return "violation", out
	case strings.Contains(out, "panic: ") && strings.Contains(out, "goroutine 1 [running]") && strings.Contains(out, ".init") &&
		!strings.Contains(out, "main.main()"):
		// a package of /repo panics while it is initialised
		return "violation", out
	}
	return "error", out
}

// replayFile runs a stored counterexample on the real code.
func (c *checker) replayFile(path string) int {
	b, err := os.ReadFile(path)
	var f struct {
		Entry  string            `json:"entry"`
		Tier   string            `json:"tier"`
		Vector map[string]uint64 `json:"vector"`
	}
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	c.tier = f.Tier
	r, out := c.native(f.Entry, f.Vector, 60*time.Second)
	fmt.Printf("%s: %s\n%s\n", f.Entry, r, out)
	if r == "violation" || r == "hang" {
		return 1
	}
	return 0
}

// confirm replays a candidate; only what reproduces on the real code counts.
func (c *checker) confirm(cd candidate) bool {
	c.replayMu.Lock()
	defer c.replayMu.Unlock()
	if len(c.violations) > 0 {
		return true
	}
	c.replays++
	r, out := c.native(cd.Entry, cd.Vector, 20*time.Second)
	ok := r == "violation" || r == "hang" && cd.Kind == "steps"
	if !ok {
		if cd.Kind != "steps" || r != "ok" {
			c.mismatches = append(c.mismatches, fmt.Sprintf("%s %s %q: native=%s", cd.Entry, cd.Kind, cd.Msg, r))
			if *verbose {
				fmt.Fprintln(os.Stderr, "not reproduced:", cd.Entry, cd.Kind, cd.Msg, r, out, cd.Vector)
			}
		}
		return false
	}
	if k := c.knownMatch(cd); k != "" {
		for _, h := range c.knownHits {
			if h == k {
				return false
			}
		}
		c.knownHits = append(c.knownHits, k)
		return false
	}
	c.addViolation(cd, out)
	return true
}

func (c *checker) addViolation(cd candidate, out string) {
	p := filepath.Join(*evDir, fmt.Sprintf("%s-violation.json", c.prop))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.prop, "tier": c.tier, "entry": cd.Entry, "kind": cd.Kind, "msg": cd.Msg, "vector": cd.Vector, "fake": useFake,
		"native_output": out,
		"how_to_replay": fmt.Sprintf("/verif/replay %s %s", c.prop, p),
	}, "", " ")
	os.WriteFile(p, b, 0o644)
	c.violations = append(c.violations, violation{cd, p, out})
}

// knownMatch consults known-findings.txt: lines of the form
// "known: property=ID entry=NAME msg=TEXT".
func (c *checker) knownMatch(cd candidate) string {
	b, err := os.ReadFile(filepath.Join(*verifDir, "known-findings.txt"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+c.prop+" ") {
			continue
		}
		_, rest, _ := strings.Cut(l, "entry=")
		en, rest, _ := strings.Cut(rest, " ")
		_, msg, _ := strings.Cut(rest, "msg=")
		if en == cd.Entry && msg != "" && strings.TrimSpace(msg) == cd.Msg {
			return fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", c.prop, cd.Entry, cd.Msg)
		}
	}
	return ""
}

// validate replays models of completed paths on the real code: the encoding
// and the compiled program have to agree.
func (c *checker) validate(ex *Explorer) {
	for _, v := range ex.vectors {
		r, out := c.native(ex.entry, v, 30*time.Second)
		switch r {
		case "ok":
			c.validated++
		case "assume":
			if !ex.usedUF { // the model of an uninterpreted function need not be the real one
				c.mismatches = append(c.mismatches, fmt.Sprintf("%s: an assumption of an accepted path fails natively", ex.entry))
			}
		case "violation":
			c.mismatches = append(c.mismatches, fmt.Sprintf("%s: a path the encoding accepts fails natively: %s", ex.entry, firstLine(out)))
			cd := candidate{Entry: ex.entry, Kind: "native", Msg: firstLine(out), Vector: v}
			if k := c.knownMatch(cd); k == "" {
				c.addViolation(cd, out)
				return
			}
		default:
			c.mismatches = append(c.mismatches, fmt.Sprintf("%s: native run of an accepted path: %s %s", ex.entry, r, firstLine(out)))
		}
	}
}

// ---- evidence ---------------------------------------------------------------------

func (c *checker) writeEvidence(exs []*Explorer, loadS float64) {
	cov := map[string]interface{}{}
	var paths, steps, branches, asserts, trivial, undecided, brUnk, queries, sat, unsat, unk, oneshot, intq, ns, aborted, trunc, infeas int64
	aborts := map[string]int{}
	notes := map[string]int{}
	for _, n := range c.notes {
		notes[n]++
	}
	covers := map[string]int{}
	var samples []string
	var ents []map[string]interface{}
	for _, e := range exs {
		paths += e.pathsFinished
		steps += e.steps
		branches += e.st.queries
		asserts += e.asserts
		trivial += e.trivial
		undecided += e.undecided
		brUnk += e.branchUnknown
		queries += e.st.queries
		sat += e.st.qsat
		unsat += e.st.qunsat
		unk += e.st.qunknown
		oneshot += e.st.oneshot
		intq += e.st.intQueries
		ns += e.st.solverNs
		aborted += e.aborted
		trunc += e.truncated
		infeas += e.infeasible
		for k, n := range e.aborts {
			aborts[k] += n
		}
		for k, n := range e.notes {
			notes[k] += n
		}
		for k, n := range e.covers {
			covers[e.entry+"/"+k] += n
		}
		n := len(e.samples)
		if n > 3 {
			n = 3
		}
		samples = append(samples, e.samples[:n]...)
		ents = append(ents, map[string]interface{}{
			"entry": e.entry, "paths": e.pathsFinished, "assertions": e.asserts, "queries": e.st.queries,
			"max_decisions_on_a_path": e.maxDec, "max_symbolic_variables": e.maxVars, "wall_s": e.wall.Seconds(),
			"complete_within_bound": e.aborted == 0 && e.truncated == 0 && e.undecided == 0 && e.branchUnknown == 0,
		})
	}
	var fns []string
	fs := map[string]*funcCov{}
	if len(exs) > 0 {
		fs = exs[0].funcs
	}
	for _, f := range fs {
		n := 0
		for _, b := range f.Covered {
			if b {
				n++
			}
		}
		fns = append(fns, fmt.Sprintf("%s blocks %d/%d", f.Name, n, f.Blocks))
	}
	sort.Strings(fns)
	cov["states"] = paths
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = c.validated
	cov["samples"] = samples
	cov["state_meaning"] = "states: symbolic paths completed (each stands for every input satisfying its path condition); transitions: SSA instructions executed symbolically"
	cov["functions_encoded"] = fns
	cov["entries"] = ents
	cov["bounds"] = c.boundText()
	cov["assertions_decided"] = asserts - undecided
	cov["assertions_decided_by_simplification"] = trivial
	cov["assertions_undecided"] = undecided
	cov["branches_undecided"] = brUnk
	cov["queries"] = queries
	cov["queries_sat"] = sat
	cov["queries_unsat"] = unsat
	cov["queries_unknown"] = unk
	cov["queries_portfolio"] = oneshot
	cov["queries_decided_over_integers"] = intq
	cov["solver_s"] = float64(ns) / 1e9
	cov["paths_infeasible"] = infeas
	cov["paths_aborted"] = aborted
	cov["paths_not_explored_in_time"] = trunc
	cov["abort_reasons"] = aborts
	cov["reached"] = covers
	cov["candidates_replayed"] = c.replays
	cov["mismatches"] = c.mismatches
	cov["load_s"] = loadS
	cov["complete_within_bound"] = len(exs) > 0 && aborted == 0 && trunc == 0 && undecided == 0 && brUnk == 0
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations),
		"assumptions": c.assumptions(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*evDir, c.prop+".json"), append(b, '\n'), 0o644)
}

// boundText and assumptions come from comments in the harness: lines starting
// with "// bound:" and "// assume:".
func (c *checker) boundText() []string { return c.directives("bound:") }

func (c *checker) assumptions() []string {
	a := c.directives("assume:")
	return append(a, "the SSA interpreter's semantics of Go and z3/cvc5 are trusted; accepted paths are sampled and replayed natively, counterexamples are reported only if they reproduce natively",
		"claims hold within the stated bounds only")
}

func (c *checker) directives(pre string) []string {
	var out []string
	m, _ := filepath.Glob(filepath.Join(*verifDir, "harness", strings.ToLower(c.prop), "*.go"))
	for _, f := range m {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if r, ok := strings.CutPrefix(l, "//"); ok {
				if r, ok = strings.CutPrefix(strings.TrimSpace(r), pre); ok {
					out = append(out, strings.TrimSpace(r))
				}
			}
		}
	}
	return out
}
