package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals -------------------------------------------------

type targetPanic struct {
	v  value // iface
	rt bool
}

type pathEnd struct {
	kind string // "assume", "unsupported", "steps", "depth", "exit", "deadline", "violation"
	msg  string
}

func unsupported(msg string) pathEnd { return pathEnd{"unsupported", msg} }

// ---- compiled form ----------------------------------------------------------

type operand struct {
	reg int32
	v   value
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	ops []operand
	ti  tinfo
	ti2 tinfo
	x   interface{}
}

type cblock struct {
	phis   []cinstr
	instrs []cinstr
	succs  []int
	preds  []int
}

type cfunc struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []cblock
	params   []int32
	frees    []int32
	hasDefer bool
	intr     intrinsic
	model    *cfunc
	gx       bool
	cov      []bool
	compiled bool
}

type intrinsic func(in *Interp, fr *frame, args []value) value

type frame struct {
	cf        *cfunc
	regs      []value
	block     int
	prev      int
	caller    *frame
	defers    []deferred
	result    value
	panicking bool
	pan       *targetPanic
	done      bool
	pos       token.Pos // of the call being made
}

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

type Interp struct {
	prog    *Program
	tc      *TermCtx
	sol     *Solver
	ex      *Explorer
	funcs   map[*ssa.Function]*cfunc
	sites   map[siteKey]int
	siteTab []*site
	rtFuncs map[string]*value
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	mcache  map[mkey]*ssa.Function
	icache  map[ikey]bool

	hdrs    map[*value]*hdrWords
	realFn  map[*ssa.Function]*cfunc
	divs    map[string][2]*Term
	trail   []trailEnt
	noTrail int

	// per path
	prefix    []decision
	pos       int
	trace     []decision
	pc        []*Term
	known     map[*Term]bool
	facts     *facts
	initPanic string
	model     Model
	ev        Evaluator
	evGen     int32
	vars      []*Term
	names     map[string]int
	choices   map[string]uint64
	steps     int64
	maxSteps  int64
	depth     int
	uf        []ufEntry
	locks     map[*value]int
	covers    map[string]bool
	hostObj   map[*value]interface{}
	ndec      int
	outputs   []string
	inInit    int
	uniq      int
	active    bool
	usedUF    bool
	cos       []*coV
	pend      []item
}

type mkey struct {
	t types.Type
	m *types.Func
}
type ikey struct {
	t types.Type
	i types.Type
}

func newInterp(p *Program, ex *Explorer) *Interp {
	in := &Interp{prog: p, ex: ex, tc: newTermCtx(),
		funcs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*value{},
		inited: map[*ssa.Package]bool{}, mcache: map[mkey]*ssa.Function{}, icache: map[ikey]bool{}}
	in.sol = newSolver(&ex.st, ex.cfg.softMs, ex.cfg.hardMs)
	return in
}

var buildMu sync.Mutex

func (in *Interp) getFunc(fn *ssa.Function) *cfunc {
	if cf, ok := in.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, name: fnName(fn)}
	in.funcs[fn] = cf
	if i, ok := intrinsics[cf.name]; ok {
		cf.intr = i
	} else if m, ok := redirects[cf.name]; ok {
		if mf := in.prog.lookupModel(m); mf != nil {
			cf.model = in.getFunc(mf)
		}
	}
	cf.gx = isGx(fn)
	return cf
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func isGx(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Parent() != nil {
		return isGx(fn.Parent())
	}
	if p == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), gxPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), gxPath)
}

const gxPath = "github.com/vipally/gx"

func (in *Interp) compile(cf *cfunc) {
	fn := cf.fn
	cf.compiled = true
	buildMu.Lock()
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	buildMu.Unlock()
	if fn.Blocks == nil {
		return
	}
	reg := map[ssa.Value]int32{}
	n := int32(0)
	newReg := func(v ssa.Value) int32 {
		reg[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		cf.params = append(cf.params, newReg(p))
	}
	for _, p := range fn.FreeVars {
		cf.frees = append(cf.frees, newReg(p))
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	cf.nregs = int(n)
	conv := func(v ssa.Value) operand {
		if v == nil {
			return operand{reg: -1}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return operand{reg: -1, v: in.constVal(v)}
		case *ssa.Global:
			return operand{reg: -1, v: in.global(v)}
		case *ssa.Function:
			return operand{reg: -1, v: v}
		case *ssa.Builtin:
			return operand{reg: -1, v: v}
		}
		r, ok := reg[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return operand{reg: r}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	cf.cov = make([]bool, len(fn.Blocks))
	var buf []*ssa.Value
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			switch i := i.(type) {
			case *ssa.Phi:
				for _, e := range i.Edges {
					ci.ops = append(ci.ops, conv(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Call:
				ci.ops = convCall(&i.Call, conv)
			case *ssa.Defer:
				cf.hasDefer = true
				ci.ops = convCall(&i.Call, conv)
			case *ssa.Go:
				ci.ops = convCall(&i.Call, conv)
			case *ssa.Slice:
				ci.ops = []operand{conv(i.X), conv(i.Low), conv(i.High), conv(i.Max)}
				if i.Low == nil {
					ci.ops[1].reg = -2
				}
				if i.High == nil {
					ci.ops[2].reg = -2
				}
				if i.Max == nil {
					ci.ops[3].reg = -2
				}
			case *ssa.MakeClosure:
				ci.ops = []operand{conv(i.Fn)}
				for _, b := range i.Bindings {
					ci.ops = append(ci.ops, conv(b))
				}
			default:
				buf = i.Operands(buf[:0])
				for _, o := range buf {
					ci.ops = append(ci.ops, conv(*o))
				}
			}
			switch i := i.(type) {
			case *ssa.BinOp:
				ci.ti = infoOf(i.X.Type())
				ci.ti2 = infoOf(i.Y.Type())
			case *ssa.UnOp:
				ci.ti = infoOf(i.X.Type())
			case *ssa.Convert:
				ci.ti = infoOf(i.X.Type())
				ci.ti2 = infoOf(i.Type())
			case *ssa.IndexAddr:
				ci.ti = infoOf(i.Index.Type())
				et := i.Type().Underlying().(*types.Pointer).Elem()
				ci.ti2 = infoOf(et)
			case *ssa.Index:
				ci.ti = infoOf(i.Index.Type())
				ci.ti2 = infoOf(i.Type())
			case *ssa.Lookup:
				ci.ti = infoOf(i.X.Type())
			case *ssa.Alloc:
				ci.x = i.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Slice:
				ci.ti = infoOf(i.X.Type())
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
	if fn.Recover != nil {
		cf.hasDefer = true
	}
}

func convCall(c *ssa.CallCommon, conv func(ssa.Value) operand) []operand {
	ops := []operand{conv(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, conv(a))
	}
	return ops
}

func (in *Interp) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	ti := infoOf(c.Type())
	switch ti.k {
	case kBool:
		return in.tc.Bool(constant.BoolVal(c.Value))
	case kInt:
		if ti.signed {
			return in.tc.BV(ti.w, uint64(c.Int64()))
		}
		return in.tc.BV(ti.w, c.Uint64())
	case kFloat:
		f := c.Float64()
		return in.tc.FP(ti.w, fto(f, ti.w))
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case kComplex:
		x := c.Complex128()
		return cplxV{in.tc.FP(ti.w, fto(real(x), ti.w)), in.tc.FP(ti.w, fto(imag(x), ti.w))}
	case kUnsafe:
		return uptr{}
	}
	// type parameter instantiated etc.
	panic(unsupported("const " + c.String()))
}

func (in *Interp) global(g *ssa.Global) *value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
	in.globals[g] = p
	if g.Pkg != nil && !eagerPkg(g.Pkg.Pkg.Path()) {
		in.ensureInit(g.Pkg)
	}
	return p
}

// ensureInit runs a standard-library package initialiser the first time one of
// its variables is referenced. Packages of gx and the harnesses are
// initialised eagerly.
func (in *Interp) ensureInit(p *ssa.Package) {
	if in.inited[p] {
		return
	}
	in.inited[p] = true
	path := p.Pkg.Path()
	if skipInit[path] {
		return
	}
	in.runInit(p)
}

func eagerPkg(path string) bool {
	return strings.HasPrefix(path, gxPath) || strings.HasPrefix(path, "verif/")
}

func (in *Interp) runInit(p *ssa.Package) {
	f := p.Func("init")
	if f == nil {
		return
	}
	in.noTrail++
	in.inInit++
	saveSteps := in.steps
	defer func() {
		in.noTrail--
		in.inInit--
		in.steps = saveSteps
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				in.ex.note("init of " + p.Pkg.Path() + " stopped: " + r.kind + " " + r.msg)
			case *targetPanic:
				in.ex.note("init of " + p.Pkg.Path() + " panicked: " + in.panicString(r))
				if eagerPkg(p.Pkg.Path()) {
					in.initPanic = in.panicString(r)
				}
			default:
				panic(r)
			}
		}
	}()
	in.callFn(in.getFunc(f), nil, nil, nil)
}

// ---- calls ------------------------------------------------------------------

func (in *Interp) call(fr *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		return in.callFn(in.getFunc(f), args, nil, fr)
	case *closure:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if f.native != nil {
			return f.native(in, fr, args)
		}
		return in.callFn(in.getFunc(f.fn), args, f.env, fr)
	case *ssa.Builtin:
		return in.builtin(fr, f, args, nil)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (in *Interp) callFn(cf *cfunc, args []value, env []value, caller *frame) value {
	if cf.intr != nil {
		return cf.intr(in, caller, args)
	}
	if cf.model != nil {
		cf = cf.model
	}
	// initialisers of imported standard packages run lazily
	if cf.fn.Synthetic == "package initializer" && caller != nil && !eagerPkg(cf.fn.Pkg.Pkg.Path()) {
		return nil
	}
	if !cf.compiled {
		in.compile(cf)
	}
	if cf.blocks == nil {
		panic(unsupported("no body: " + cf.name))
	}
	in.depth++
	if in.depth > 3000 {
		panic(pathEnd{"depth", "call depth limit in " + cf.name})
	}
	fr := &frame{cf: cf, regs: make([]value, cf.nregs), caller: caller, prev: -1}
	for i, r := range cf.params {
		fr.regs[r] = args[i]
	}
	for i, r := range cf.frees {
		fr.regs[r] = env[i]
	}
	if !cf.hasDefer {
		in.loop(fr)
		in.depth--
		return fr.result
	}
	d := in.depth
	for {
		p := in.loopCatch(fr)
		if p == nil {
			break
		}
		in.depth = d
		fr.pan = p
		fr.panicking = true
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.pan)
		}
		in.depth = d
		if cf.fn.Recover == nil {
			fr.result = in.zero(cf.fn.Signature.Results())
			break
		}
		fr.prev, fr.block = fr.block, cf.fn.Recover.Index
	}
	in.depth--
	return fr.result
}

func (in *Interp) loopCatch(fr *frame) (p *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				p = tp
				return
			}
			panic(r)
		}
	}()
	in.loop(fr)
	return nil
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if p := in.callCatch(fr, d); p != nil {
			fr.pan = p
			fr.panicking = true
		}
	}
}

func (in *Interp) callCatch(fr *frame, d deferred) (p *targetPanic) {
	dep := in.depth
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				in.depth = dep
				p = tp
				return
			}
			panic(r)
		}
	}()
	if b, ok := d.fn.(*ssa.Builtin); ok {
		in.builtin(fr, b, d.args, d.call)
		return nil
	}
	in.call(fr, d.fn, d.args)
	return nil
}

func (fr *frame) get(o operand) value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.v
}

func (in *Interp) loop(fr *frame) {
	cf := fr.cf
	for {
		cb := &cf.blocks[fr.block]
		if cf.gx && !cf.cov[fr.block] {
			cf.cov[fr.block] = true
		}
		if len(cb.phis) > 0 {
			pi := 0
			for i, p := range cb.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				ph := &cb.phis[0]
				fr.regs[ph.dst] = fr.get(ph.ops[pi])
			} else {
				var tmp [16]value
				t := tmp[:0]
				for i := range cb.phis {
					t = append(t, fr.get(cb.phis[i].ops[pi]))
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = t[i]
				}
			}
		}
		in.steps += int64(len(cb.instrs))
		if in.steps > in.maxSteps && in.inInit == 0 {
			panic(pathEnd{"steps", "step limit in " + cf.name})
		}
		if in.ex.stopped() && in.inInit == 0 {
			panic(pathEnd{"deadline", ""})
		}
		next := -1
		for i := range cb.instrs {
			ci := &cb.instrs[i]
			n := in.exec(fr, ci)
			if n >= 0 {
				next = n
			} else if n == -2 {
				return
			}
		}
		if next < 0 {
			panic("fell off block in " + cf.name)
		}
		fr.prev = fr.block
		fr.block = next
	}
}

// exec runs one instruction: >=0 next block, -1 continue, -2 return.
func (in *Interp) exec(fr *frame, ci *cinstr) int {
	switch i := ci.in.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = in.zero(ci.x.(types.Type))
		fr.regs[ci.dst] = p
	case *ssa.UnOp:
		fr.regs[ci.dst] = in.unop(fr, i, ci, fr.get(ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(i.Op, ci.ti, ci.ti2, fr.get(ci.ops[0]), fr.get(ci.ops[1]))
	case *ssa.Call:
		fr.pos = i.Call.Pos()
		fr.regs[ci.dst] = in.doCall(fr, &i.Call, ci)
	case *ssa.If:
		c := fr.get(ci.ops[0]).(*Term)
		cb := &fr.cf.blocks[fr.block]
		if in.decide(c) {
			return cb.succs[0]
		}
		return cb.succs[1]
	case *ssa.Jump:
		return fr.cf.blocks[fr.block].succs[0]
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
		case 1:
			fr.result = copyVal(fr.get(ci.ops[0]))
		default:
			t := make(tuple, len(ci.ops))
			for k, o := range ci.ops {
				t[k] = copyVal(fr.get(o))
			}
			fr.result = t
		}
		return -2
	case *ssa.Store:
		in.store(fr.get(ci.ops[0]), fr.get(ci.ops[1]))
	case *ssa.FieldAddr:
		switch p := fr.get(ci.ops[0]).(type) {
		case *value:
			if p == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			fr.regs[ci.dst] = &(*p).(structure)[i.Field]
		case *castptr:
			fr.regs[ci.dst] = in.castField(p, i.Field)
		default:
			panic(unsupported(fmt.Sprintf("FieldAddr of %T", p)))
		}
	case *ssa.Field:
		fr.regs[ci.dst] = copyVal(fr.get(ci.ops[0]).(structure)[i.Field])
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = in.indexAddr(fr.get(ci.ops[0]), fr.get(ci.ops[1]).(*Term), ci)
	case *ssa.Index:
		fr.regs[ci.dst] = in.index(fr.get(ci.ops[0]), fr.get(ci.ops[1]).(*Term), ci)
	case *ssa.Lookup:
		m := fr.get(ci.ops[0])
		k := fr.get(ci.ops[1])
		if ci.ti.k == kString {
			fr.regs[ci.dst] = in.index(m, k.(*Term), ci)
			break
		}
		e := in.mapFind(m.(*mapV), k)
		var v value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = in.zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			fr.regs[ci.dst] = tuple{v, in.tc.Bool(e != nil)}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.MapUpdate:
		in.mapSet(fr.get(ci.ops[0]).(*mapV), fr.get(ci.ops[1]), fr.get(ci.ops[2]))
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(ci.ops[0]).(tuple)[i.Index]
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(fr, i.X.Type(), i.Type(), ci, fr.get(ci.ops[0]))
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(ci.ops[0])
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = iface{i.X.Type(), copyVal(fr.get(ci.ops[0]))}
	case *ssa.Slice:
		fr.regs[ci.dst] = in.slice(fr, ci)
	case *ssa.MakeSlice:
		n := in.concInt(fr.get(ci.ops[0]).(*Term), infoOf(i.Len.Type()))
		c := in.concInt(fr.get(ci.ops[1]).(*Term), infoOf(i.Cap.Type()))
		if n < 0 || n > 1<<26 {
			in.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			in.rtPanic("makeslice: cap out of range")
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		fr.regs[ci.dst] = in.makeSlice(et, int(n), int(c))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.MakeChan:
		n := in.concInt(fr.get(ci.ops[0]).(*Term), infoOf(i.Size.Type()))
		fr.regs[ci.dst] = &chanV{cap: int(n)}
	case *ssa.MakeClosure:
		c := &closure{fn: i.Fn.(*ssa.Function)}
		for _, o := range ci.ops[1:] {
			c.env = append(c.env, fr.get(o))
		}
		fr.regs[ci.dst] = c
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(i, fr.get(ci.ops[0]).(iface))
	case *ssa.Panic:
		in.goPanic(fr.get(ci.ops[0]).(iface))
	case *ssa.Defer:
		fn, args := in.prepCall(fr, &i.Call, ci)
		fr.defers = append(fr.defers, deferred{fn, args, &i.Call})
	case *ssa.RunDefers:
		in.runDefers(fr)
		if fr.panicking {
			p := fr.pan
			panic(p)
		}
	case *ssa.Range:
		switch x := fr.get(ci.ops[0]).(type) {
		case *mapV:
			if x == nil {
				x = newMap()
			}
			fr.regs[ci.dst] = &mapIter{m: x}
		default:
			fr.regs[ci.dst] = &strIter{s: x}
		}
	case *ssa.Next:
		fr.regs[ci.dst] = in.next(i, fr.get(ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(ci.ops[0]).([]value)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			in.rtPanic("cannot convert slice to array pointer: length mismatch")
		}
		p := new(value)
		*p = array(s[:n:n])
		fr.regs[ci.dst] = p
	case *ssa.Go:
		panic(unsupported("go statement in " + fr.cf.name))
	case *ssa.Send:
		c := fr.get(ci.ops[0]).(*chanV)
		if c == nil || len(c.buf) >= c.cap {
			panic(unsupported("blocking send"))
		}
		c.buf = append(c.buf, fr.get(ci.ops[1]))
	case *ssa.Select:
		panic(unsupported("select in " + fr.cf.name))
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	default:
		panic(unsupported(fmt.Sprintf("instr %T", i)))
	}
	return -1
}

func (in *Interp) makeSlice(et types.Type, n, c int) []value {
	s := make([]value, n, c)
	full := s[:c]
	ei := infoOf(et)
	if ei.k == kStruct || ei.k == kArray {
		for i := range full {
			full[i] = in.zero(et)
		}
	} else {
		z := in.zero(et)
		for i := range full {
			full[i] = z
		}
	}
	return s
}

func (in *Interp) prepCall(fr *frame, c *ssa.CallCommon, ci *cinstr) (value, []value) {
	if c.IsInvoke() {
		recv, ok := fr.get(ci.ops[0]).(iface)
		if !ok {
			panic(unsupported("invoke on non iface"))
		}
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]value, 0, len(ci.ops))
		args = append(args, recv.v)
		for _, o := range ci.ops[1:] {
			args = append(args, fr.get(o))
		}
		if rt, ok := recv.v.(*rtypeV); ok {
			return &closure{native: rtypeMethod(rt, c.Method.Name())}, args
		}
		f := in.method(recv.t, c.Method)
		return f, args
	}
	fn := fr.get(ci.ops[0])
	args := make([]value, len(ci.ops)-1)
	for k, o := range ci.ops[1:] {
		args[k] = fr.get(o)
	}
	return fn, args
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := in.mcache[k]; ok {
		return f
	}
	buildMu.Lock()
	f := in.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	buildMu.Unlock()
	if f == nil {
		panic(unsupported("method " + m.Name() + " of " + t.String()))
	}
	in.mcache[k] = f
	return f
}

func (in *Interp) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) value {
	if !c.IsInvoke() {
		switch f := ci.ops[0].v.(type) {
		case *ssa.Function:
			args := make([]value, len(ci.ops)-1)
			for k, o := range ci.ops[1:] {
				args[k] = fr.get(o)
			}
			var cf *cfunc
			if ci.x != nil {
				cf = ci.x.(*cfunc)
			} else {
				cf = in.getFunc(f)
				ci.x = cf
			}
			return in.callFn(cf, args, nil, fr)
		case *ssa.Builtin:
			args := make([]value, len(ci.ops)-1)
			for k, o := range ci.ops[1:] {
				args[k] = fr.get(o)
			}
			return in.builtin(fr, f, args, c)
		}
	}
	fn, args := in.prepCall(fr, c, ci)
	return in.call(fr, fn, args)
}

// ---- panics -----------------------------------------------------------------

func (in *Interp) goPanic(v iface) { panic(&targetPanic{v: v}) }

func (in *Interp) rtErrType() types.Type { return in.prog.rtErr }

func (in *Interp) rtPanic(msg string) {
	panic(&targetPanic{v: iface{in.prog.rtErr, msg}, rt: true})
}

func (in *Interp) panicString(p *targetPanic) string {
	f, ok := p.v.(iface)
	if !ok || f.t == nil {
		return "nil"
	}
	switch v := f.v.(type) {
	case string:
		return v
	case *Term:
		return in.tc.Show(v)
	}
	return f.t.String()
}

// ---- operators ----------------------------------------------------------------

func (in *Interp) unop(fr *frame, i *ssa.UnOp, ci *cinstr, x value) value {
	switch i.Op {
	case token.MUL:
		return in.load(x, i.Type())
	case token.NOT:
		return in.tc.Not(x.(*Term))
	case token.SUB:
		if ci.ti.k == kFloat {
			return in.tc.FUn(OFNeg, x.(*Term))
		}
		if ci.ti.k == kComplex {
			c := x.(cplxV)
			return cplxV{in.tc.FUn(OFNeg, c.re), in.tc.FUn(OFNeg, c.im)}
		}
		return in.tc.Neg(x.(*Term))
	case token.XOR:
		return in.tc.BNot(x.(*Term))
	case token.ARROW:
		c := x.(*chanV)
		if c == nil {
			panic(unsupported("receive from nil channel"))
		}
		if len(c.buf) > 0 {
			v := c.buf[0]
			c.buf = c.buf[1:]
			if i.CommaOk {
				return tuple{v, in.tc.tt}
			}
			return v
		}
		if c.closed {
			z := in.zero(i.X.Type().Underlying().(*types.Chan).Elem())
			if i.CommaOk {
				return tuple{z, in.tc.ff}
			}
			return z
		}
		panic(unsupported("blocking receive"))
	}
	panic(unsupported("unop " + i.Op.String()))
}

func (in *Interp) binop(op token.Token, ti, ti2 tinfo, x, y value) value {
	tc := in.tc
	switch op {
	case token.EQL:
		return in.equal(x, y)
	case token.NEQ:
		return tc.Not(in.equal(x, y))
	}
	switch ti.k {
	case kInt:
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.ADD:
			return tc.Bin(OAdd, a, b)
		case token.SUB:
			return tc.Bin(OSub, a, b)
		case token.MUL:
			return tc.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if in.decide(tc.Eq(b, tc.BV(b.w, 0))) {
				in.rtPanic("integer divide by zero")
			}
			if in.facts != nil && b.isConst() && a.op == OZext && b.v <= mask(a.a.w) {
				n := tc.BV(a.a.w, b.v)
				if op == token.QUO {
					return tc.Zext(tc.Bin(OUdiv, a.a, n), a.w)
				}
				return tc.Zext(tc.Bin(OUrem, a.a, n), a.w)
			}
			if ti.w >= 32 && b.isConst() && (!ti.signed && ti.w == 64 || a.pure && a.lo >= 0 && sval(b) > 0) {
				q, r := in.divConst(a, b.v)
				if op == token.QUO {
					return q
				}
				return r
			}
			o := OUdiv
			switch {
			case op == token.QUO && ti.signed:
				o = OSdiv
			case op == token.REM && ti.signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			r := tc.Bin(o, a, b)
			if o == OUrem && r.op == OUrem && a.w >= 32 && !b.isConst() {
				in.addPC(tc.Cmp(OUlt, r, b)) // a fact, b is not 0; saves the solver the division
			}
			return r
		case token.AND:
			return tc.Bin(OBand, a, b)
		case token.OR:
			return tc.Bin(OBor, a, b)
		case token.XOR:
			return tc.Bin(OBxor, a, b)
		case token.AND_NOT:
			return tc.Bin(OBand, a, tc.BNot(b))
		case token.SHL, token.SHR:
			if ti2.signed {
				if in.decide(tc.Cmp(OSlt, b, tc.BV(b.w, 0))) {
					in.rtPanic("negative shift amount")
				}
			}
			// bring the count to the operand width, saturating
			var cnt *Term
			if b.w > a.w {
				big := tc.Cmp(OUle, tc.BV(b.w, uint64(a.w)), b)
				cnt = tc.Ite(big, tc.BV(a.w, uint64(a.w)), tc.Extract(b, a.w-1, 0))
			} else {
				cnt = tc.Zext(b, a.w)
			}
			if op == token.SHL {
				return tc.Bin(OShl, a, cnt)
			}
			if ti.signed {
				return tc.Bin(OAshr, a, cnt)
			}
			return tc.Bin(OLshr, a, cnt)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			strict := op == token.LSS || op == token.GTR
			o := OUle
			switch {
			case strict && ti.signed:
				o = OSlt
			case strict:
				o = OUlt
			case ti.signed:
				o = OSle
			}
			return tc.Cmp(o, a, b)
		}
	case kFloat:
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.ADD:
			return tc.FBin(OFAdd, a, b)
		case token.SUB:
			return tc.FBin(OFSub, a, b)
		case token.MUL:
			return tc.FBin(OFMul, a, b)
		case token.QUO:
			return tc.FBin(OFDiv, a, b)
		case token.LSS:
			return tc.FCmp(OFLt, a, b)
		case token.LEQ:
			return tc.FCmp(OFLe, a, b)
		case token.GTR:
			return tc.FCmp(OFLt, b, a)
		case token.GEQ:
			return tc.FCmp(OFLe, b, a)
		}
	case kString:
		switch op {
		case token.ADD:
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					return a + b
				}
			}
			cat := func() []*Term {
				a, b := in.strTerms(x), in.strTerms(y)
				r := make([]*Term, 0, len(a)+len(b))
				return append(append(r, a...), b...)
			}
			if isLazy(x) || isLazy(y) {
				return &symStr{lazy: cat}
			}
			return mkStr(cat())
		case token.LSS:
			return in.strLess(x, y, false)
		case token.LEQ:
			return in.strLess(x, y, true)
		case token.GTR:
			return in.strLess(y, x, false)
		case token.GEQ:
			return in.strLess(y, x, true)
		}
	case kBool:
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.AND:
			return tc.And(a, b)
		case token.OR:
			return tc.Or(a, b)
		}
	case kComplex:
		a, b := x.(cplxV), y.(cplxV)
		switch op {
		case token.ADD:
			return cplxV{tc.FBin(OFAdd, a.re, b.re), tc.FBin(OFAdd, a.im, b.im)}
		case token.SUB:
			return cplxV{tc.FBin(OFSub, a.re, b.re), tc.FBin(OFSub, a.im, b.im)}
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s %T %T", op, x, y)))
}

// asIdx brings an index term to 64 bits.
func (in *Interp) asIdx(t *Term, ti tinfo) *Term {
	if t.w == 64 {
		return t
	}
	if ti.signed {
		return in.tc.Sext(t, 64)
	}
	return in.tc.Zext(t, 64)
}

func (in *Interp) boundsCheck(idx *Term, n int) {
	if idx.isConst() {
		if idx.v >= uint64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.v), n))
		}
		return
	}
	if !in.decide(in.tc.Cmp(OUlt, idx, in.tc.BV(64, uint64(n)))) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func allTerms(a []value) bool {
	for _, v := range a {
		if _, ok := v.(*Term); !ok {
			return false
		}
	}
	return true
}

func (in *Interp) indexAddr(x value, idx *Term, ci *cinstr) value {
	var s []value
	switch x := x.(type) {
	case []value:
		s = x
	case *value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = []value((*x).(array))
	case *castptr:
		s = in.castArray(x)
	default:
		panic(unsupported(fmt.Sprintf("IndexAddr %T", x)))
	}
	idx = in.asIdx(idx, ci.ti)
	in.boundsCheck(idx, len(s))
	if idx.isConst() {
		return &s[idx.v]
	}
	if (ci.ti2.k == kInt || ci.ti2.k == kBool || ci.ti2.k == kFloat) && allTerms(s) {
		return &symptr{s, idx}
	}
	return &s[in.concretize(idx)]
}

func (in *Interp) index(x value, idx *Term, ci *cinstr) value {
	ti := ci.ti
	if _, ok := ci.in.(*ssa.Lookup); ok {
		ti = infoOf(ci.in.(*ssa.Lookup).Index.Type())
	}
	idx = in.asIdx(idx, ti)
	switch x := x.(type) {
	case array:
		in.boundsCheck(idx, len(x))
		if idx.isConst() {
			return copyVal(x[idx.v])
		}
		if allTerms(x) {
			return in.selectTerm(x, idx)
		}
		return copyVal(x[in.concretize(idx)])
	case string, *symStr:
		in.boundsCheck(idx, strLen(x))
		if idx.isConst() {
			return in.strAt(x, int(idx.v))
		}
		return in.selectTerm(in.strToBytes(x), idx)
	}
	panic(unsupported(fmt.Sprintf("Index %T", x)))
}

// concInt gives a concrete signed value for a length-like term (forking).
func (in *Interp) concInt(t *Term, ti tinfo) int64 {
	t = in.asIdx(t, ti)
	return int64(in.concretize(t))
}

func (in *Interp) slice(fr *frame, ci *cinstr) value {
	i := ci.in.(*ssa.Slice)
	x := fr.get(ci.ops[0])
	bound := func(k int, ti types.Type) (int64, bool) {
		if ci.ops[k].reg == -2 {
			return 0, false
		}
		t := fr.get(ci.ops[k]).(*Term)
		return in.concInt(t, infoOf(ti)), true
	}
	var lo, hi, mx int64
	var hasHi, hasMax bool
	if i.Low != nil {
		lo, _ = bound(1, i.Low.Type())
	}
	if i.High != nil {
		hi, hasHi = bound(2, i.High.Type())
	}
	if i.Max != nil {
		mx, hasMax = bound(3, i.Max.Type())
	}
	switch s := x.(type) {
	case string, *symStr:
		n := int64(strLen(s))
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return in.strSlice(s, int(lo), int(hi))
	case []value:
		return in.sliceOf(s, lo, hi, mx, hasHi, hasMax)
	case *value:
		if s == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.sliceOf([]value((*s).(array)), lo, hi, mx, hasHi, hasMax)
	case *castptr:
		return in.sliceOf(in.castArray(s), lo, hi, mx, hasHi, hasMax)
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (in *Interp) sliceOf(s []value, lo, hi, mx int64, hasHi, hasMax bool) value {
	c := int64(cap(s))
	if !hasHi {
		hi = int64(len(s))
	}
	if !hasMax {
		mx = c
	}
	if mx < 0 || mx > c || hi < 0 || hi > mx || lo < 0 || lo > hi {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
	}
	return s[lo:hi:mx]
}

func (in *Interp) next(i *ssa.Next, it value) value {
	tc := in.tc
	switch it := it.(type) {
	case *mapIter:
		for it.i < len(it.m.entries) {
			e := it.m.entries[it.i]
			it.i++
			if !e.dead {
				return tuple{tc.tt, e.k, copyVal(e.v)}
			}
		}
		tt := i.Type().(*types.Tuple)
		zk, zv := value(nil), value(nil)
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = in.zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = in.zero(tt.At(2).Type())
		}
		return tuple{tc.ff, zk, zv}
	case *strIter:
		n := strLen(it.s)
		if it.i >= n {
			return tuple{tc.ff, tc.BV(64, 0), tc.BV(32, 0)}
		}
		pos := it.i
		r, sz := in.decodeRune(it.s, pos)
		it.i += sz
		return tuple{tc.tt, tc.BV(64, uint64(pos)), r}
	}
	panic(unsupported(fmt.Sprintf("next %T", it)))
}

// decodeRune decodes the UTF-8 sequence at pos, using the real unicode/utf8
// code when the first byte may be non-ASCII.
func (in *Interp) decodeRune(s value, pos int) (*Term, int) {
	b := in.strAt(s, pos)
	if in.decide(in.tc.Cmp(OUlt, b, in.tc.BV(8, 0x80))) {
		return in.tc.Zext(b, 32), 1
	}
	f := in.prog.lookupFunc("unicode/utf8", "DecodeRuneInString")
	if f == nil {
		panic(unsupported("utf8"))
	}
	r := in.callFn(in.getFunc(f), []value{in.strSlice(s, pos, strLen(s))}, nil, nil).(tuple)
	return r[0].(*Term), int(in.concretize(r[1].(*Term)))
}

func (in *Interp) encodeRune(r *Term) value {
	if r.isConst() {
		return string(rune(int32(r.v)))
	}
	if in.decide(in.tc.Cmp(OUlt, r, in.tc.BV(r.w, 0x80))) {
		return mkStr([]*Term{in.tc.Extract(r, 7, 0)})
	}
	f := in.prog.lookupFunc("unicode/utf8", "AppendRune")
	x := in.callFn(in.getFunc(f), []value{[]value(nil), in.tc.Zext(r, 32)}, nil, nil).([]value)
	return in.bytesToStr(x)
}

func (in *Interp) convert(fr *frame, from, to types.Type, ci *cinstr, x value) value {
	tc := in.tc
	a, b := ci.ti, ci.ti2
	if a.k == kInvalid || b.k == kInvalid {
		a, b = infoOf(from), infoOf(to)
	}
	switch {
	case a.k == kInt && b.k == kInt:
		t, ok := x.(*Term)
		if !ok {
			return x // opaque address in a uintptr
		}
		if b.w <= t.w {
			return tc.Extract2(t, b.w)
		}
		if a.signed {
			return tc.Sext(t, b.w)
		}
		return tc.Zext(t, b.w)
	case a.k == kInt && b.k == kFloat:
		return tc.FFromInt(x.(*Term), a.signed, b.w)
	case a.k == kFloat && b.k == kFloat:
		return tc.FCvt(x.(*Term), b.w)
	case a.k == kFloat && b.k == kInt:
		t := x.(*Term)
		if t.isConst() {
			f := ffrom(t.v, t.w)
			if b.signed {
				return tc.BV(b.w, uint64(int64(f)))
			}
			if f >= 9.3e18 {
				return tc.BV(b.w, uint64(f))
			}
			return tc.BV(b.w, uint64(int64(f)))
		}
		return tc.FToInt(t, b.signed, b.w)
	case a.k == kInt && b.k == kString:
		t := x.(*Term)
		if t.w > 32 {
			if !in.decide(tc.Cmp(OUlt, t, tc.BV(t.w, 0x110000))) {
				return "\uFFFD"
			}
			t = tc.Extract(t, 31, 0)
		} else {
			t = tc.Zext(t, 32)
		}
		return in.encodeRune(t)
	case a.k == kSlice && b.k == kString:
		s := x.([]value)
		ei := infoOf(from.Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			return in.bytesToStr(s)
		}
		var out []*Term
		for _, r := range s {
			out = append(out, in.strTerms(in.encodeRune(r.(*Term)))...)
		}
		return mkStr(out)
	case a.k == kString && b.k == kSlice:
		ei := infoOf(to.Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			r := in.strToBytes(x)
			// conversion rounds the capacity up like the runtime does
			if n := len(r); n > 0 {
				c := growCap(growKey{0, 0, n, 1, false})
				full := make([]value, n, c)
				copy(full, r)
				z := tc.BV(8, 0)
				for k := n; k < c; k++ {
					full[:c][k] = z
				}
				return full
			}
			return r
		}
		var out []value
		n := strLen(x)
		for p := 0; p < n; {
			r, sz := in.decodeRune(x, p)
			out = append(out, r)
			p += sz
		}
		if out == nil {
			out = []value{}
		}
		return out
	case b.k == kUnsafe:
		switch p := x.(type) {
		case uptr:
			return p
		case *hdrData:
			return hdrPtr(p)
		case *Term:
			if p.isConst() && p.v == 0 {
				return uptr{}
			}
			panic(unsupported("uintptr to pointer"))
		case *castptr:
			return uptr{p.p, p.from}
		}
		return uptr{x, from.Underlying().(*types.Pointer).Elem()}
	case a.k == kUnsafe && b.k == kPtr:
		u := x.(uptr)
		te := to.Underlying().(*types.Pointer).Elem()
		return in.unsafeCast(u, te)
	case a.k == kUnsafe && b.k == kInt:
		u := x.(uptr)
		if isNilPtr(u.p) {
			return tc.BV(64, 0)
		}
		return in.addrOf(u.p)
	case a.k == kPtr && b.k == kPtr, a.k == kSlice && b.k == kSlice, a.k == kString && b.k == kString,
		a.k == kStruct && b.k == kStruct, a.k == kMap && b.k == kMap, a.k == kFunc && b.k == kFunc:
		return x
	case a.k == kComplex && b.k == kComplex:
		c := x.(cplxV)
		return cplxV{in.tc.FCvt(c.re, b.w), in.tc.FCvt(c.im, b.w)}
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

// addrOf gives an opaque, stable non-zero address for a cell. Addresses are
// per-path unique constants, 16-byte aligned; ordering between them carries
// no meaning.
func (in *Interp) addrOf(p value) value {
	switch p := p.(type) {
	case *hdrData:
		return p
	case *value:
		if in.hostObj == nil {
			in.hostObj = map[*value]interface{}{}
		}
		if a, ok := in.hostObj[p].(uint64); ok {
			return in.tc.BV(64, a)
		}
		in.uniq++
		a := uint64(0xc000000000) + uint64(in.uniq)*4096
		in.hostObj[p] = a
		return in.tc.BV(64, a)
	}
	panic(unsupported(fmt.Sprintf("address of %T", p)))
}

func (c *TermCtx) Extract2(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	return c.Extract(t, w-1, 0)
}

func (in *Interp) implements(t, it types.Type) bool {
	k := ikey{t, it}
	if r, ok := in.icache[k]; ok {
		return r
	}
	buildMu.Lock()
	r := types.Implements(t, it.Underlying().(*types.Interface))
	buildMu.Unlock()
	in.icache[k] = r
	return r
}

func (in *Interp) typeAssert(i *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if x.t != nil {
		if types.IsInterface(i.AssertedType) {
			if _, isR := x.v.(*rtypeV); isR {
				ok = true
			} else {
				ok = in.implements(x.t, i.AssertedType)
			}
			v = x
		} else {
			ok = x.t == i.AssertedType || types.Identical(x.t, i.AssertedType)
			v = copyVal(x.v)
		}
	}
	if !ok {
		if !i.CommaOk {
			have := "nil"
			if x.t != nil {
				have = x.t.String()
			}
			in.rtPanic("interface conversion: interface is " + have + ", not " + i.AssertedType.String())
		}
		return tuple{in.zero(i.AssertedType), in.tc.ff}
	}
	if i.CommaOk {
		return tuple{v, in.tc.tt}
	}
	return v
}

// ---- builtins -----------------------------------------------------------------

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	tc := in.tc
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *symStr:
			return tc.BV(64, uint64(strLen(x)))
		case []value:
			return tc.BV(64, uint64(len(x)))
		case array:
			return tc.BV(64, uint64(len(x)))
		case *value:
			return tc.BV(64, uint64(len((*x).(array))))
		case *mapV:
			if x == nil {
				return tc.BV(64, 0)
			}
			return tc.BV(64, uint64(x.n))
		case *chanV:
			if x == nil {
				return tc.BV(64, 0)
			}
			return tc.BV(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return tc.BV(64, uint64(cap(x)))
		case array:
			return tc.BV(64, uint64(len(x)))
		case *value:
			return tc.BV(64, uint64(len((*x).(array))))
		case *chanV:
			return tc.BV(64, uint64(x.cap))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]value)
		var add []value
		switch y := args[1].(type) {
		case string, *symStr:
			add = in.strToBytes(y)
		case []value:
			add = y
		}
		if len(add) == 0 {
			return s
		}
		return in.appendVals(s, add, b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem())
	case "copy":
		d := args[0].([]value)
		var s []value
		switch y := args[1].(type) {
		case string, *symStr:
			s = in.strToBytes(y)
		case []value:
			s = y
		}
		n := min(len(d), len(s))
		tmp := make([]value, n)
		for k := 0; k < n; k++ {
			tmp[k] = copyVal(s[k])
		}
		for k := 0; k < n; k++ {
			in.storeTo(&d[k], tmp[k])
		}
		return tc.BV(64, uint64(n))
	case "delete":
		in.mapDelete(args[0].(*mapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				for _, e := range x.entries {
					if !e.dead {
						in.mapDelete(x, e.k)
					}
				}
			}
		case []value:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for k := range x {
				in.storeTo(&x[k], in.zero(et))
			}
		}
		return nil
	case "panic":
		in.goPanic(args[0].(iface))
	case "recover":
		// fr is the deferred function's frame
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			p := fr.caller
			p.panicking = false
			return p.pan.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		x := args[0]
		st := b.Type().(*types.Signature).Params().At(0).Type()
		ti := infoOf(st)
		for _, y := range args[1:] {
			var lt *Term
			if b.Name() == "min" {
				lt = in.binop(token.LSS, ti, ti, y, x).(*Term)
			} else {
				lt = in.binop(token.LSS, ti, ti, x, y).(*Term)
			}
			if a, ok := x.(*Term); ok && !a.fp {
				x = tc.Ite(lt, y.(*Term), a)
			} else if in.decide(lt) {
				x = y
			}
		}
		return x
	case "close":
		args[0].(*chanV).closed = true
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(in.concretize(in.asIdx(args[1].(*Term), tinfo{kInt, args[1].(*Term).w, true})))
		switch p := args[0].(type) {
		case *value:
			if n == 0 {
				return ""
			}
			return viewStr(unsafeSlice(p, n))
		case *castptr:
			if h, ok := p.p.(*hdrData); ok {
				return in.hdrString(h, n)
			}
		}
	case "SliceData":
		s := args[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &s[:1][0]
	case "StringData":
		if y, ok := args[0].(*symStr); ok {
			if v := in.strView(y); len(v) > 0 {
				return &v[0]
			}
		}
		return &castptr{p: &hdrData{str: args[0]}, to: types.Typ[types.Uint8]}
	case "Slice":
		n := int(in.concretize(in.asIdx(args[1].(*Term), tinfo{kInt, args[1].(*Term).w, true})))
		switch p := args[0].(type) {
		case *value:
			if p == nil {
				return []value(nil)
			}
			return unsafeSlice(p, n)
		case *castptr:
			if h, ok := p.p.(*hdrData); ok && h.str != nil {
				return in.strToBytes(h.str)[h.off : h.off+n]
			}
		}
	case "Add":
		panic(unsupported("unsafe.Add"))
	case "complex":
		return cplxV{args[0].(*Term), args[1].(*Term)}
	case "real":
		return args[0].(cplxV).re
	case "imag":
		return args[0].(cplxV).im
	}
	panic(unsupported(fmt.Sprintf("builtin %s %T", b.Name(), args[0])))
}

var _ = atomic.AddInt64

// appendVals is append(s, add...) for elements of type et.
func (in *Interp) appendVals(s, add []value, et types.Type) []value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		// copy first: source may alias
		tmp := make([]value, len(add))
		for k := range add {
			tmp[k] = copyVal(add[k])
		}
		for k := range tmp {
			in.storeTo(&r[len(s)+k], tmp[k])
		}
		return r
	}
	nc := growCap(growKey{len(s), cap(s), len(add), sizes.Sizeof(et), hasPointers(et)})
	r := make([]value, n, nc)
	for k := range s {
		r[k] = copyVal(s[k])
	}
	for k := range add {
		r[len(s)+k] = copyVal(add[k])
	}
	ei := infoOf(et)
	full := r[:nc]
	if ei.k == kStruct || ei.k == kArray {
		for k := n; k < nc; k++ {
			full[k] = in.zero(et)
		}
	} else if nc > n {
		z := in.zero(et)
		for k := n; k < nc; k++ {
			full[k] = z
		}
	}
	return r
}
