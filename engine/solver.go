package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type satResult int

const (
	rUnknown satResult = iota
	rSat
	rUnsat
)

// Stats shared by all workers.
type Stats struct {
	queries    int64
	qsat       int64
	qunsat     int64
	qunknown   int64
	oneshot    int64
	intQueries int64
	solverNs   int64
	cacheHits  int64
	restarts   int64
	solverErrs int64
}

// Solver keeps one incremental SMT process in sync with the path condition.
type Solver struct {
	bin     string
	mode    int // 0: bit-vectors; 1: integers
	ints    *Solver
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	gen     int32
	stack   []*Term
	declGen int32
	decl    map[string]bool
	nterms  int
	st      *Stats
	timeout int // ms, incremental
	hard    int // ms, one-shot portfolio
	dump    io.Writer
	dead    bool
}

var solverGen int32

func newSolver(st *Stats, timeoutMs, hardMs int) *Solver {
	bin := os.Getenv("VERIF_Z3")
	if bin == "" {
		bin = "z3-new"
		if _, err := exec.LookPath(bin); err != nil {
			bin = "z3"
		}
	}
	return &Solver{bin: bin, st: st, timeout: timeoutMs, hard: hardMs, ints: &Solver{bin: bin, st: st, timeout: timeoutMs, mode: 1}}
}

func (s *Solver) start() {
	s.gen = atomic.AddInt32(&solverGen, 1)
	s.stack = s.stack[:0]
	s.nterms = 0
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	ip, _ := s.cmd.StdinPipe()
	op, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.w("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) close() {
	if s.ints != nil {
		s.ints.close()
	}
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	x := s.ints
	s.ints = nil
	s.close()
	s.ints = x
	atomic.AddInt64(&s.st.restarts, 1)
	s.start()
}

func (s *Solver) w(x string) { s.in.WriteString(x) }

// emit defines t (and its subterms) in the solver.
func (s *Solver) emit(t *Term) {
	if t.op == OConst || t.emitted[s.mode] == s.gen {
		return
	}
	// iterative post-order, terms can be deep
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || f.t.emitted[s.mode] == s.gen {
			st = st[:len(st)-1]
			continue
		}
		var k *Term
		for f.i < 3 {
			switch f.i {
			case 0:
				k = f.t.a
			case 1:
				k = f.t.b
			default:
				k = f.t.c
			}
			f.i++
			if k != nil && k.op != OConst && k.emitted[s.mode] != s.gen {
				break
			}
			k = nil
		}
		if k != nil {
			st = append(st, fr{k, 0})
			continue
		}
		tt := f.t
		tt.emitted[s.mode] = s.gen
		s.nterms++
		if tt.op == OVar {
			// one name may stand for several ranged variables
			if s.declGen != s.gen {
				s.declGen, s.decl = s.gen, map[string]bool{}
			}
			if s.decl[tt.name] {
				st = st[:len(st)-1]
				continue
			}
			s.decl[tt.name] = true
		}
		if s.mode == 1 {
			s.w(tt.intDef())
		} else if tt.op == OVar {
			s.w("(declare-const " + tt.name + " " + sortOf(tt) + ")\n")
		} else {
			s.w("(define-fun t" + strconv.Itoa(int(tt.id)) + " () " + sortOf(tt) + " " + body(tt) + ")\n")
		}
		st = st[:len(st)-1]
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil {
		s.start()
	}
	if s.nterms > 400000 {
		s.restart()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		s.w(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.emit(pc[n])
		s.w("(push 1)\n(assert " + s.ref(pc[n]) + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) ref(t *Term) string {
	if s.mode == 1 {
		return t.intRef()
	}
	return ref(t)
}

func (s *Solver) readLine() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	for {
		l, e := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || e != nil {
			return l, e
		}
	}
}

// check decides pc ∧ q. On sat the values of vars are returned.
func (s *Solver) check(pc []*Term, q *Term, vars []*Term) (satResult, Model) {
	t0 := time.Now()
	atomic.AddInt64(&s.st.queries, 1)
	var r satResult
	var m Model
	if s.ints != nil && allPure(pc, q) {
		atomic.AddInt64(&s.st.intQueries, 1)
		s.ints.st = s.st
		r, m = s.ints.checkInc(pc, q, vars)
	}
	if r == rUnknown {
		r, m = s.checkInc(pc, q, vars)
	}
	if r == rUnknown && s.hard > 0 {
		atomic.AddInt64(&s.st.oneshot, 1)
		t1 := time.Now()
		r, m = oneShot(pc, q, vars, s.hard)
		// where the portfolio is quicker, turn to it earlier
		if d := int(time.Since(t1).Milliseconds()); r != rUnknown && d < s.timeout/2 && s.timeout > 300 {
			s.timeout = max(300, s.timeout/2)
			if s.cmd != nil {
				s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
			}
		}
	}
	atomic.AddInt64(&s.st.solverNs, int64(time.Since(t0)))
	switch r {
	case rSat:
		atomic.AddInt64(&s.st.qsat, 1)
	case rUnsat:
		atomic.AddInt64(&s.st.qunsat, 1)
	default:
		atomic.AddInt64(&s.st.qunknown, 1)
	}
	return r, m
}

func (s *Solver) checkInc(pc []*Term, q *Term, vars []*Term) (satResult, Model) {
	s.sync(pc)
	if s.dead {
		return rUnknown, nil
	}
	s.emit(q)
	if s.mode == 1 {
		var pv []*Term
		for _, v := range vars {
			if v.pure {
				pv = append(pv, v)
			}
		}
		vars = pv
	}
	for _, v := range vars {
		s.emit(v)
	}
	s.w("(push 1)\n(assert " + s.ref(q) + ")\n(check-sat)\n")
	wd := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3+5*time.Second, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	l, err := s.readLine()
	wd.Stop()
	if err != nil {
		s.restart()
		return rUnknown, nil
	}
	switch l {
	case "unsat":
		s.w("(pop 1)\n")
		return rUnsat, nil
	case "sat":
		m, ok := s.model(vars)
		if ok && s.mode == 1 {
			// integer variables are unbounded so far: insist on the range
			if out := outOfRange(vars, m); len(out) > 0 {
				for _, v := range vars {
					if v.w > 0 {
						s.w(fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))\n", intNum(v.lo), v.name, v.name, intNum(v.hi)))
					}
				}
				s.w("(check-sat)\n")
				l, err := s.readLine()
				if err != nil {
					s.restart()
					return rUnknown, nil
				}
				switch l {
				case "unsat":
					s.w("(pop 1)\n")
					return rUnsat, nil
				case "sat":
					m, ok = s.model(vars)
				default:
					s.w("(pop 1)\n")
					return rUnknown, nil
				}
			}
			for _, v := range vars {
				m[v.name] &= maskOr1(v.w)
			}
		}
		s.w("(pop 1)\n")
		if !ok {
			s.restart()
			return rUnknown, nil
		}
		return rSat, m
	case "unknown", "timeout":
		s.w("(pop 1)\n")
		return rUnknown, nil
	}
	// an error line: drop this process, inconclusive
	atomic.AddInt64(&s.st.solverErrs, 1)
	if atomic.LoadInt64(&s.st.solverErrs) < 5 {
		fmt.Fprintln(os.Stderr, "solver:", l)
	}
	s.restart()
	return rUnknown, nil
}

func (s *Solver) model(vars []*Term) (Model, bool) {
	m := Model{}
	if len(vars) == 0 {
		return m, true
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(v.name)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.w(sb.String())
	if s.in.Flush() != nil {
		return nil, false
	}
	txt, err := readSexp(s.out)
	if err != nil || strings.Contains(txt, "(error ") {
		return nil, false
	}
	parseModel(txt, m)
	return m, true
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth, started := 0, false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func outOfRange(vars []*Term, m Model) (out []*Term) {
	for _, v := range vars {
		if x := int64(m[v.name]); v.w > 0 && (x < v.lo || x > v.hi || m[v.name+"!big"] != 0) {
			out = append(out, v)
		}
	}
	return
}

func parseModel(txt string, m Model) {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i < len(f); {
		name := f[i]
		if i+1 >= len(f) {
			break
		}
		v := f[i+1]
		i += 2
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = n
		case v == "-": // (- N)
			if i < len(f) {
				n, err := strconv.ParseUint(f[i], 10, 64)
				m[name] = -n
				if err != nil || n > 1<<63 {
					m[name+"!big"] = 1
				}
				i++
			}
		case v[0] >= '0' && v[0] <= '9':
			n, err := strconv.ParseUint(v, 10, 64)
			m[name] = n
			if err != nil || n >= 1<<63 {
				m[name+"!big"] = 1
			}
		case v == "_": // (_ bvN w)
			if i+1 < len(f) {
				n, _ := strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
				m[name] = n
				i += 2
			}
		}
	}
}

// script writes a stand-alone SMT-LIB2 problem.
func script(pc []*Term, q *Term, vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
	seen, names := map[*Term]bool{}, map[string]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		visit(t.a)
		visit(t.b)
		visit(t.c)
		if t.op == OVar {
			if names[t.name] {
				return
			}
			names[t.name] = true
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.name, sortOf(t))
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t), body(t))
		}
	}
	for _, v := range vars {
		visit(v)
	}
	for _, p := range pc {
		visit(p)
	}
	visit(q)
	for _, p := range pc {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(p))
	}
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", ref(q))
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.name + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// slice keeps only the constraints connected to q through shared variables.
func slicePC(pc []*Term, q *Term) []*Term {
	vs := map[*Term]bool{}
	add := func(t *Term) {
		var l []*Term
		collectVars(t, map[*Term]bool{}, &l)
		for _, v := range l {
			vs[v] = true
		}
	}
	add(q)
	pv := make([][]*Term, len(pc))
	for i, p := range pc {
		collectVars(p, map[*Term]bool{}, &pv[i])
	}
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i := range pc {
			if in[i] {
				continue
			}
			for _, v := range pv[i] {
				if vs[v] {
					in[i] = true
					changed = true
					for _, u := range pv[i] {
						vs[u] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i := range pc {
		if in[i] {
			out = append(out, pc[i])
		}
	}
	return out
}

// oneShot runs a small portfolio on the stand-alone problem. The whole path
// condition is kept when sat models are needed for all variables.
func oneShot(pc []*Term, q *Term, vars []*Term, ms int) (satResult, Model) {
	txt := script(pc, q, vars)
	f, err := os.CreateTemp("", "verifq*.smt2")
	if err != nil {
		return rUnknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(txt)
	f.Close()
	secs := (ms + 999) / 1000
	cmds := [][]string{
		{"z3-new", "-T:" + strconv.Itoa(secs), f.Name()},
		{"cvc5", "--tlimit=" + strconv.Itoa(ms), "--produce-models", f.Name()},
		{"cvc5", "--tlimit=" + strconv.Itoa(ms), "--produce-models", "--solve-bv-as-int=sum", f.Name()},
		{"z3", "-T:" + strconv.Itoa(secs), f.Name()},
	}
	type res struct {
		r satResult
		m Model
	}
	ch := make(chan res, len(cmds))
	var procs []*exec.Cmd
	for _, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		op, _ := cmd.StdoutPipe()
		if cmd.Start() != nil {
			ch <- res{}
			continue
		}
		procs = append(procs, cmd)
		go func(cmd *exec.Cmd) {
			b, _ := io.ReadAll(op)
			s := strings.TrimSpace(string(b))
			switch {
			case strings.HasPrefix(s, "unsat") && !strings.Contains(firstLine(s), "error"):
				ch <- res{rUnsat, nil}
			case strings.HasPrefix(s, "sat"):
				m := Model{}
				parseModel(s[3:], m)
				ch <- res{rSat, m}
			default:
				ch <- res{}
			}
		}(cmd)
	}
	var out res
	to := time.After(time.Duration(ms)*time.Millisecond + 3*time.Second)
loop:
	for i := 0; i < len(cmds); i++ {
		select {
		case out = <-ch:
			if out.r != rUnknown {
				break loop
			}
		case <-to:
			break loop
		}
	}
	for _, p := range procs {
		p.Process.Kill()
		go p.Wait()
	}
	return out.r, out.m
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
