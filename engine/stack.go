package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The call stack as package runtime tells it. The encoding has no machine
// code: a call site gets a made-up program counter, one more than which is
// the return address. As the documentation of runtime warns, a return
// address stands for what follows the call: FuncForPC and FileLine read it
// as the next line, CallersFrames as the call.

const pcBase = 0x400000

type site struct {
	fn   *ssa.Function
	pos  token.Pos
	name string // instead of fn
}

type siteKey struct {
	fn  *ssa.Function
	pos token.Pos
}

type rtFunc struct{ s *site }

func (in *Interp) sitePC(s site) uint64 {
	if in.sites == nil {
		in.sites = map[siteKey]int{}
	}
	k := siteKey{s.fn, s.pos}
	i, ok := in.sites[k]
	if !ok {
		i = len(in.siteTab)
		in.sites[k] = i
		c := s
		in.siteTab = append(in.siteTab, &c)
	}
	return pcBase + uint64(i)*16
}

// siteOf: the call site of a program counter, and how far behind it is.
func (in *Interp) siteOf(pc uint64) (*site, int) {
	if pc < pcBase {
		return nil, 0
	}
	i := int((pc - pcBase) / 16)
	if i >= len(in.siteTab) {
		return nil, 0
	}
	return in.siteTab[i], int((pc - pcBase) % 16)
}

// goName is the name the runtime uses.
func goName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		n := fn.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			return goName(p) + ".func" + n[i+1:]
		}
		return goName(p) + "." + n
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		ptr := false
		if p, ok := t.(*types.Pointer); ok {
			t, ptr = p.Elem(), true
		}
		n := types.TypeString(t, func(*types.Package) string { return "" })
		if ptr {
			n = "(*" + n + ")"
		}
		return pkg + n + "." + fn.Name()
	}
	return pkg + fn.Name()
}

func (s *site) funcName() string {
	if s.fn == nil {
		return s.name
	}
	return goName(s.fn)
}

func (in *Interp) sitePos(s *site) (string, int) {
	if s.fn == nil {
		return "runtime/extern.go", 1
	}
	p := in.prog.prog.Fset.Position(s.pos)
	return p.Filename, p.Line
}

// stack lists the call sites from fr outwards.
func (in *Interp) stack(fr *frame) []site {
	var r []site
	for ; fr != nil; fr = fr.caller {
		if fr.cf.fn == nil || fr.cf.fn.Synthetic != "" {
			continue
		}
		r = append(r, site{fn: fr.cf.fn, pos: fr.pos})
	}
	return r
}

// skipTo: the index of the frame a (possibly symbolic) skip count means, -1
// if there is none.
func (in *Interp) skipTo(t *Term, n int) int {
	for i := 0; i < n; i++ {
		if in.decide(in.tc.Eq(t, in.tc.BV(64, uint64(i)))) {
			return i
		}
	}
	if in.decide(in.tc.Cmp(OSlt, t, in.tc.BV(64, 0))) {
		panic(unsupported("negative skip count"))
	}
	return -1
}

func (in *Interp) concPC(v value) uint64 {
	return in.concretize(v.(*Term))
}

func stackIntrinsics() {
	rt := map[string]intrinsic{
		"runtime.Caller": func(in *Interp, fr *frame, a []value) value {
			st := in.stack(fr)
			i := in.skipTo(a[0].(*Term), len(st))
			if i < 0 {
				return tuple{in.tc.BV(64, 0), "", in.tc.BV(64, 0), in.tc.ff}
			}
			f, l := in.sitePos(&st[i])
			return tuple{in.tc.BV(64, in.sitePC(st[i])), f, in.tc.BV(64, uint64(l)), in.tc.tt}
		},
		"runtime.Callers": func(in *Interp, fr *frame, a []value) value {
			st := append([]site{{name: "runtime.Callers"}}, in.stack(fr)...)
			pcs, _ := a[1].([]value)
			i := in.skipTo(a[0].(*Term), len(st))
			n := 0
			if i >= 0 {
				for ; n < len(pcs) && i+n < len(st); n++ {
					pcs[n] = in.tc.BV(64, in.sitePC(st[i+n])+1)
				}
			}
			return in.tc.BV(64, uint64(n))
		},
		"runtime.FuncForPC": func(in *Interp, fr *frame, a []value) value {
			s, _ := in.siteOf(in.concPC(a[0]))
			if s == nil {
				return (*value)(nil)
			}
			return in.funcOf(s)
		},
		"(*runtime.Func).Name": func(in *Interp, fr *frame, a []value) value {
			p := a[0].(*value)
			if p == nil {
				return ""
			}
			return (*p).(rtFunc).s.funcName()
		},
		"(*runtime.Func).Entry": func(in *Interp, fr *frame, a []value) value {
			p := a[0].(*value)
			s := (*p).(rtFunc).s
			return in.tc.BV(64, in.sitePC(site{fn: s.fn, name: s.name}))
		},
		"(*runtime.Func).FileLine": func(in *Interp, fr *frame, a []value) value {
			s, d := in.siteOf(in.concPC(a[1]))
			if s == nil {
				return tuple{"?", in.tc.BV(64, 0)}
			}
			f, l := in.sitePos(s)
			if d > 0 {
				l++
			}
			return tuple{f, in.tc.BV(64, uint64(l))}
		},
		"runtime.CallersFrames": func(in *Interp, fr *frame, a []value) value {
			p := new(value)
			pcs, _ := a[0].([]value)
			*p = structure{pcs}
			return p
		},
		"(*runtime.Frames).Next": func(in *Interp, fr *frame, a []value) value {
			p := a[0].(*value)
			rest := (*p).(structure)[0].([]value)
			ft := in.prog.pkgs["runtime"].Pkg.Scope().Lookup("Frame").Type()
			st := ft.Underlying().(*types.Struct)
			f := in.zero(ft).(structure)
			if len(rest) == 0 {
				return tuple{f, in.tc.ff}
			}
			pc := in.concPC(rest[0])
			(*p) = structure{rest[1:]}
			if s, _ := in.siteOf(pc - 1); s != nil {
				file, line := in.sitePos(s)
				for i := 0; i < st.NumFields(); i++ {
					switch st.Field(i).Name() {
					case "PC":
						f[i] = in.tc.BV(64, pc-1)
					case "Func":
						f[i] = in.funcOf(s)
					case "Function":
						f[i] = s.funcName()
					case "File":
						f[i] = file
					case "Line":
						f[i] = in.tc.BV(64, uint64(line))
					}
				}
			}
			more := in.tc.ff
			if len(rest) > 1 {
				more = in.tc.tt
			}
			return tuple{f, more}
		},
	}
	for k, v := range rt {
		intrinsics[k] = v
	}
}

func (in *Interp) funcOf(s *site) *value {
	if in.rtFuncs == nil {
		in.rtFuncs = map[string]*value{}
	}
	k := fmt.Sprintf("%p %s", s.fn, s.name)
	p := in.rtFuncs[k]
	if p == nil {
		p = new(value)
		*p = rtFunc{s}
		in.rtFuncs[k] = p
	}
	return p
}
