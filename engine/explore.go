package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	kind   uint8 // 0 branch, 1 concretise, 2 choice, 3 assertion
	taken  bool
	forced bool
	val    uint64
}

type item struct {
	prefix []decision
	model  Model
}

type Config struct {
	workers  int
	softMs   int
	hardMs   int
	maxSteps int64
	deadline time.Time
	tier     string
	seed     int64
	maxPaths int64
}

// candidate is a solver-found violation, before native replay.
type candidate struct {
	Entry   string            `json:"entry"`
	Kind    string            `json:"kind"` // assert, panic, steps
	Msg     string            `json:"msg"`
	Vector  map[string]uint64 `json:"vector"`
	entryFn *ssa.Function
}

type Explorer struct {
	cfg  Config
	prog *Program
	st   Stats

	mu      sync.Mutex
	cond    *sync.Cond
	work    []item
	active  int
	stopF   int32
	fn      *ssa.Function
	entry   string
	cands   []candidate
	candKey map[string]int
	onCand  func(c candidate) bool // true: confirmed, stop

	paths, infeasible, aborted   int64
	asserts, trivial, undecided  int64
	branchUnknown, pathsFinished int64
	steps                        int64
	truncated                    int64
	notes                        map[string]int
	aborts                       map[string]int
	covers                       map[string]int
	funcs                        map[string]*funcCov
	samples                      []string
	maxDec                       int
	maxVars                      int
	wall                         time.Duration
	usedUF                       bool // some path applied an uninterpreted function
	vectors                      []map[string]uint64
}

type funcCov struct {
	Name    string
	Blocks  int
	Covered []bool
	Pos     string
}

func newExplorer(p *Program, cfg Config) *Explorer {
	ex := &Explorer{prog: p, cfg: cfg, notes: map[string]int{}, aborts: map[string]int{},
		covers: map[string]int{}, funcs: map[string]*funcCov{}, candKey: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) stopped() bool { return atomic.LoadInt32(&ex.stopF) != 0 }

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.work = append(ex.work, it)
	ex.cond.Signal()
	ex.mu.Unlock()
}

// run explores every path of fn.
func (ex *Explorer) run(fn *ssa.Function, workers []*Interp) {
	ex.fn = fn
	ex.entry = fn.Name()
	ex.work = []item{{model: Model{}}}
	ex.active = 0
	timer := time.AfterFunc(time.Until(ex.cfg.deadline), func() {
		atomic.StoreInt32(&ex.stopF, 1)
		ex.mu.Lock()
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	for i, in := range workers {
		in.active = false
		in.sol.close() // variable names are per entry
		wg.Add(1)
		go func(in *Interp, i int) {
			defer wg.Done()
			ex.worker(in)
		}(in, i)
	}
	wg.Wait()
	if n := len(ex.work); n > 0 {
		ex.truncated += int64(n)
	}
	ex.work = nil
}

func (ex *Explorer) worker(in *Interp) {
	var local []item
	for {
		var it item
		ex.mu.Lock()
		if len(local) > 0 {
			// share when others starve
			if len(ex.work) == 0 && len(local) > 1 && ex.active < ex.cfg.workers {
				k := (len(local) + 1) / 2
				ex.work = append(ex.work, local[:k]...)
				local = append([]item(nil), local[k:]...)
				ex.cond.Broadcast()
			}
			it = local[len(local)-1]
			local = local[:len(local)-1]
			if ex.stopped() {
				ex.work = append(ex.work, local...)
				ex.work = append(ex.work, it)
				ex.active--
				in.active = false
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			ex.mu.Unlock()
		} else {
			if in.active {
				ex.active--
				in.active = false
			}
			for len(ex.work) == 0 && ex.active > 0 && !ex.stopped() {
				ex.cond.Wait()
			}
			if len(ex.work) == 0 || ex.stopped() {
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			it = ex.work[len(ex.work)-1]
			ex.work = ex.work[:len(ex.work)-1]
			ex.active++
			in.active = true
			ex.mu.Unlock()
		}
		in.pend = in.pend[:0]
		in.runPath(it)
		local = append(local, in.pend...)
		if ex.cfg.maxPaths > 0 && atomic.LoadInt64(&ex.paths) > ex.cfg.maxPaths {
			atomic.StoreInt32(&ex.stopF, 1)
		}
	}
}

// ---- path execution -----------------------------------------------------------

func (in *Interp) resetPath(it item) {
	in.prefix, in.pos = it.prefix, 0
	in.trace = in.trace[:0]
	in.pc = in.pc[:0]
	in.known = map[*Term]bool{}
	in.facts = nil
	in.model = it.model
	in.evGen++
	in.ev = Evaluator{gen: in.evGen, m: in.model}
	in.vars = in.vars[:0]
	in.names = map[string]int{}
	in.choices = map[string]uint64{}
	in.steps = 0
	in.maxSteps = in.ex.cfg.maxSteps
	in.depth = 0
	in.divs = nil
	in.uf = nil
	in.usedUF = false
	in.covers = nil
	in.locks = nil
	in.hostObj = nil
	in.uniq = 0
	in.outputs = nil
}

func (in *Interp) runPath(it item) {
	ex := in.ex
	if len(in.tc.tab) > 1500000 {
		in.tc.tab = map[termKey]*Term{}
		in.tc.tables = nil
		in.tc.small = [65][1024]*Term{}
		in.tc.ff = in.tc.mk(termKey{op: OConst, w: 0, v: 0})
		in.tc.tt = in.tc.mk(termKey{op: OConst, w: 0, v: 1})
		in.sol.close()
	}
	in.resetPath(it)
	end := in.execEntry()
	in.killCos()
	atomic.AddInt64(&ex.paths, 1)
	atomic.AddInt64(&ex.steps, in.steps)
	ex.mu.Lock()
	if n := len(in.trace); n > ex.maxDec {
		ex.maxDec = n
	}
	if n := len(in.vars); n > ex.maxVars {
		ex.maxVars = n
	}
	switch end.kind {
	case "":
		ex.pathsFinished++
		for c := range in.covers {
			ex.covers[c]++
		}
		if len(ex.samples) < 3 || (ex.pathsFinished&(ex.pathsFinished-1)) == 0 && len(ex.samples) < 12 {
			ex.samples = append(ex.samples, in.describe())
		}
		if n := ex.pathsFinished; len(ex.vectors) < 24 && (n <= 4 || n&(n-1) == 0 || n%997 == 0) {
			ex.vectors = append(ex.vectors, in.vector())
			ex.usedUF = ex.usedUF || in.usedUF
		}
	case "assume":
		ex.infeasible++
	case "violation":
		ex.pathsFinished++
	case "deadline":
		ex.truncated++
	default:
		ex.aborted++
		ex.aborts[end.kind+": "+end.msg]++
	}
	ex.mu.Unlock()
	switch end.kind {
	case "panic":
		in.report("panic", end.msg)
	case "steps", "depth":
		in.report("steps", end.msg)
	}
	in.undo()
}

func (in *Interp) describe() string {
	v := in.vector()
	keys := make([]string, 0, len(v))
	for k := range v {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := in.ex.entry + ":"
	for i, k := range keys {
		if i > 24 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %s=%d", k, int64(v[k]))
	}
	return s + fmt.Sprintf(" | constraints=%d", len(in.pc))
}

func (in *Interp) vector() map[string]uint64 {
	v := map[string]uint64{}
	for _, t := range in.vars {
		v[t.name] = in.model[t.name] & maskOr1(t.w)
	}
	for k, c := range in.choices {
		v[k] = c
	}
	return v
}

func maskOr1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (in *Interp) execEntry() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end = r
			case *targetPanic:
				end = pathEnd{"panic", in.panicString(r)}
			default:
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(r)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine: %v", r)}
			}
		}
	}()
	if in.initPanic != "" {
		return pathEnd{"panic", in.initPanic}
	}
	in.callFn(in.getFunc(in.ex.fn), nil, nil, nil)
	return pathEnd{}
}

// ---- decisions ------------------------------------------------------------------

func (in *Interp) learn(t *Term) {
	if t.op == OAnd {
		in.learn(t.a)
		in.learn(t.b)
	}
	in.known[t] = true
	if in.facts != nil {
		in.facts.learn(t)
	}
}

func (in *Interp) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	in.pc = append(in.pc, t)
	in.learn(t)
}

func (in *Interp) fork(d decision, m Model) {
	p := make([]decision, len(in.trace)+1)
	copy(p, in.trace)
	p[len(in.trace)] = d
	in.pend = append(in.pend, item{prefix: p, model: m})
}

func (in *Interp) mergeModel(m Model) Model {
	// variables the solver was not asked about keep their old value
	n := make(Model, len(in.model)+len(m))
	for k, v := range in.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (in *Interp) decide(c *Term) bool {
	if c.op == OConst {
		return c.v != 0
	}
	if in.known[c] {
		return true
	}
	nc := in.tc.Not(c)
	if in.known[nc] {
		return false
	}
	if in.facts != nil {
		if r, ok := in.facts.decide(c); ok {
			return r
		}
	}
	if in.inInit > 0 {
		panic(unsupported("symbolic branch in initialiser"))
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		if d.kind != 0 {
			panic(fmt.Sprintf("engine: decision mismatch (branch vs kind %d) at %d", d.kind, in.pos))
		}
		in.trace = append(in.trace, d)
		t := c
		if !d.taken {
			t = nc
		}
		if d.forced {
			in.learn(t)
		} else {
			in.addPC(t)
		}
		return d.taken
	}
	s := in.ev.eval(c) != 0
	t, o := c, nc
	if !s {
		t, o = nc, c
	}
	r, m := in.query(o)
	switch r {
	case rSat:
		in.fork(decision{kind: 0, taken: !s}, in.mergeModel(m))
		in.trace = append(in.trace, decision{kind: 0, taken: s})
		in.addPC(t)
	case rUnsat:
		in.trace = append(in.trace, decision{kind: 0, taken: s, forced: true})
		in.learn(t)
	default:
		atomic.AddInt64(&in.ex.branchUnknown, 1)
		in.trace = append(in.trace, decision{kind: 0, taken: s})
		in.addPC(t)
	}
	return s
}

func (in *Interp) query(q *Term) (satResult, Model) {
	if in.facts != nil && len(in.pc) > 60 {
		return in.lazyQuery(q)
	}
	return in.sol.check(in.pc, q, in.vars)
}

// concretize forks over the feasible values of t.
func (in *Interp) concretize(t *Term) uint64 { return in.concretizeN(t, 0) }

// concretizeN is concretize for a term known to have exactly lim feasible
// values (0: unknown).
func (in *Interp) concretizeN(t *Term, lim int) uint64 {
	if t.op == OConst {
		return t.v
	}
	if in.inInit > 0 {
		panic(unsupported("symbolic value in initialiser"))
	}
	for {
		v := in.ev.eval(t)
		eq := in.tc.Eq(t, in.tc.BV(t.w, v))
		if eq.isTrue() || in.known[eq] {
			return v
		}
		if in.pos < len(in.prefix) {
			d := in.prefix[in.pos]
			in.pos++
			if d.kind != 1 {
				panic("engine: decision mismatch (concretise)")
			}
			in.trace = append(in.trace, d)
			eq := in.tc.Eq(t, in.tc.BV(t.w, d.val))
			if d.taken {
				if d.forced {
					in.learn(eq)
				} else {
					in.addPC(eq)
				}
				return d.val
			}
			in.addPC(in.tc.Not(eq))
			lim--
			continue
		}
		r, m := rUnsat, Model(nil)
		if lim != 1 {
			r, m = in.query(in.tc.Not(eq))
		}
		if r == rSat {
			in.fork(decision{kind: 1, taken: false, val: v}, in.mergeModel(m))
		} else if r == rUnknown {
			atomic.AddInt64(&in.ex.branchUnknown, 1)
		}
		in.trace = append(in.trace, decision{kind: 1, taken: true, val: v, forced: r == rUnsat})
		if r == rUnsat {
			in.learn(eq)
		} else {
			in.addPC(eq)
		}
		return v
	}
}

// choice forks over 0..n-1 without involving the solver.
func (in *Interp) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		if d.kind != 2 {
			panic("engine: decision mismatch (choice)")
		}
		in.trace = append(in.trace, d)
		return int(d.val)
	}
	for i := n - 1; i > 0; i-- {
		m := make(Model, len(in.model))
		for k, v := range in.model {
			m[k] = v
		}
		in.fork(decision{kind: 2, val: uint64(i)}, m)
	}
	in.trace = append(in.trace, decision{kind: 2, val: 0})
	return 0
}

func (in *Interp) freshVar(name string, w uint8) *Term {
	t := in.tc.Var(name, w)
	in.vars = append(in.vars, t)
	return t
}

// rangeVar is a fresh variable in [lo,hi] (signed).
func (in *Interp) rangeVar(name string, w uint8, lo, hi int64) *Term {
	t := in.tc.VarR(name, w, lo, hi)
	in.vars = append(in.vars, t)
	if v := int64(sx(in.model[name]&mask(w), w)); v < lo || v > hi {
		in.setModel(Model{name: uint64(lo) & mask(w)})
	}
	// not through Cmp, which knows the answer
	in.assume(in.tc.mk(termKey{op: OSle, a: in.tc.BV(w, uint64(lo)&mask(w)), b: t}))
	in.assume(in.tc.mk(termKey{op: OSle, a: t, b: in.tc.BV(w, uint64(hi)&mask(w))}))
	return t
}

func (in *Interp) newName(base string) string {
	k := in.names[base]
	in.names[base] = k + 1
	return fmt.Sprintf("%s_%d", sanitize(base), k)
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			b[i] = '_'
		}
	}
	return "v_" + string(b)
}

func (in *Interp) setModel(m Model) {
	in.model = in.mergeModel(m)
	in.evGen++
	in.ev = Evaluator{gen: in.evGen, m: in.model}
}

func (in *Interp) assume(c *Term) {
	if c.op == OConst {
		if c.v == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if in.known[c] {
		return
	}
	if in.ev.eval(c) == 0 {
		if in.pos < len(in.prefix) {
			panic("engine: assumption violated during replay")
		}
		r, m := in.query(c)
		if r == rUnknown {
			atomic.AddInt64(&in.ex.branchUnknown, 1)
		}
		if r != rSat {
			panic(pathEnd{"assume", ""})
		}
		in.setModel(m)
	}
	in.addPC(c)
}

func (in *Interp) assert(c *Term, msg string) {
	if c.op == OConst && c.v != 0 || in.known[c] {
		if in.pos >= len(in.prefix) {
			atomic.AddInt64(&in.ex.asserts, 1)
			atomic.AddInt64(&in.ex.trivial, 1)
		}
		return
	}
	if in.pos < len(in.prefix) { // already decided on the parent path
		d := in.prefix[in.pos]
		in.pos++
		if d.kind != 3 {
			panic(fmt.Sprintf("engine: decision mismatch (assert vs kind %d) at %d", d.kind, in.pos))
		}
		in.trace = append(in.trace, d)
		if d.forced {
			in.learn(c)
		} else if d.taken {
			in.addPC(c)
		}
		return
	}
	ex := in.ex
	atomic.AddInt64(&ex.asserts, 1)
	if c.op == OConst || in.ev.eval(c) == 0 {
		in.report("assert", msg)
		if c.op == OConst {
			panic(pathEnd{"violation", msg})
		}
		in.assume(c)
		in.trace = append(in.trace, decision{kind: 3, taken: true})
		return
	}
	r, m := in.query(in.tc.Not(c))
	switch r {
	case rUnsat:
		in.trace = append(in.trace, decision{kind: 3, forced: true})
		in.learn(c)
	case rSat:
		save, sgen := in.model, in.ev
		in.setModel(m)
		in.report("assert", msg)
		in.model, in.ev = save, sgen
		in.trace = append(in.trace, decision{kind: 3, taken: true})
		in.addPC(c)
	default:
		in.trace = append(in.trace, decision{kind: 3})
		atomic.AddInt64(&ex.undecided, 1)
	}
}

func (in *Interp) report(kind, msg string) {
	ex := in.ex
	c := candidate{Entry: ex.entry, Kind: kind, Msg: msg, Vector: in.vector(), entryFn: ex.fn}
	ex.mu.Lock()
	key := ex.entry + "|" + kind + "|" + msg
	ex.candKey[key]++
	n := ex.candKey[key]
	if n > 4 || ex.stopped() {
		ex.mu.Unlock()
		return
	}
	ex.cands = append(ex.cands, c)
	ex.mu.Unlock()
	if ex.onCand != nil && ex.onCand(c) {
		atomic.StoreInt32(&ex.stopF, 1)
		ex.mu.Lock()
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}
}

// collect merges the block coverage of gx functions run by the workers.
func (ex *Explorer) collect(ins []*Interp) {
	for _, in := range ins {
		for _, cf := range in.funcs {
			if !cf.gx || !cf.compiled || cf.blocks == nil || cf.fn.Synthetic != "" {
				continue
			}
			fc := ex.funcs[cf.name]
			if fc == nil {
				fc = &funcCov{Name: cf.name, Blocks: len(cf.blocks), Covered: make([]bool, len(cf.blocks))}
				fc.Pos = ex.prog.prog.Fset.Position(cf.fn.Pos()).String()
				ex.funcs[cf.name] = fc
			}
			for i, c := range cf.cov {
				if c {
					fc.Covered[i] = true
				}
			}
		}
	}
}
