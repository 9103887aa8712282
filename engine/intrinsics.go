package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "os": true, "syscall": true, "internal/poll": true,
	"internal/godebug": true, "internal/godebugs": true, "internal/runtime/sys": true,
	"log": true, "testing": true, "flag": true, "net": true,
}

// redirects: standard-library constructors replaced by environment models
// written in Go (package verif/models).
var redirects = map[string]string{
	"crypto/aes.NewCipher":               "NewAES",
	"crypto/des.NewCipher":               "NewDES",
	"crypto/des.NewTripleDESCipher":      "NewTripleDES",
	"crypto/md5.New":                     "NewMD5",
	"crypto/sha1.New":                    "NewSHA1",
	"crypto/sha256.New":                  "NewSHA256",
	"crypto/sha256.New224":               "NewSHA224",
	"crypto/sha512.New":                  "NewSHA512",
	"crypto/sha512.New384":               "NewSHA384",
	"crypto/sha512.New512_224":           "NewSHA512_224",
	"crypto/sha512.New512_256":           "NewSHA512_256",
	"crypto/md5.Sum":                     "SumMD5",
	"crypto/sha1.Sum":                    "SumSHA1",
	"crypto/sha256.Sum256":               "SumSHA256",
	"crypto/sha256.Sum224":               "SumSHA224",
	"crypto/sha512.Sum512":               "SumSHA512",
	"crypto/sha512.Sum384":               "SumSHA384",
	"hash/crc32.NewIEEE":                 "NewCRC32",
	"hash/crc32.New":                     "NewCRC32T",
	"hash/crc64.New":                     "NewCRC64T",
	"hash/crc32.ChecksumIEEE":            "ChecksumCRC32",
	"hash/crc32.Checksum":                "ChecksumCRC32T",
	"hash/crc64.Checksum":                "ChecksumCRC64T",
	"hash/adler32.New":                   "NewAdler32",
	"time.Now":                           "Now",
	"errors.As":                          "ErrorsAs",
	"sort.Slice":                         "SortSlice",
	"sort.SliceStable":                   "SortSliceStable",
	"sort.SliceIsSorted":                 "SortSliceIsSorted",
	"(crypto.Hash).New":                  "verif/vrsa.HashNew",
	"(crypto.Hash).Available":            "verif/vrsa.HashAvailable",
	"crypto/rsa.GenerateKey":             "verif/vrsa.GenerateKey",
	"crypto/rsa.EncryptPKCS1v15":         "verif/vrsa.EncryptPKCS1v15",
	"crypto/rsa.DecryptPKCS1v15":         "verif/vrsa.DecryptPKCS1v15",
	"crypto/rsa.SignPKCS1v15":            "verif/vrsa.SignPKCS1v15",
	"crypto/rsa.VerifyPKCS1v15":          "verif/vrsa.VerifyPKCS1v15",
	"crypto/x509.ParsePKIXPublicKey":     "verif/vrsa.ParsePKIXPublicKey",
	"crypto/x509.ParsePKCS1PrivateKey":   "verif/vrsa.ParsePKCS1PrivateKey",
	"crypto/x509.ParsePKCS1PublicKey":    "verif/vrsa.ParsePKCS1PublicKey",
	"crypto/x509.ParsePKCS8PrivateKey":   "verif/vrsa.ParsePKCS8PrivateKey",
	"crypto/x509.MarshalPKCS1PrivateKey": "verif/vrsa.MarshalPKCS1PrivateKey",
	"crypto/x509.MarshalPKIXPublicKey":   "verif/vrsa.MarshalPKIXPublicKey",
}

var intrinsics map[string]intrinsic

// lockOp: a mutex where nothing runs concurrently (packages with concurrency
// are instrumented instead). from: 0 free, -1 held, 1 not held by a writer, 2
// held by readers; waiting for it would be for ever.
func lockOp(from, to int, must bool) intrinsic {
	return func(in *Interp, fr *frame, a []value) value {
		m, ok := a[0].(*value)
		if !ok || m == nil {
			return in.tc.tt
		}
		n := in.locks[m]
		switch {
		case from == 0 && n == 0:
			n = -1
		case from == -1 && n == -1:
			n = 0
		case from == 1 && n >= 0:
			n++
		case from == 2 && n > 0:
			n--
		case !must:
			return in.tc.Bool(false)
		case from == -1 || from == 2:
			in.rtPanic("sync: unlock of unlocked mutex")
		default:
			in.rtPanic("all goroutines are asleep - deadlock!")
		}
		if in.locks == nil {
			in.locks = map[*value]int{}
		}
		in.locks[m] = n
		return in.tc.tt
	}
}

// syncMap: a sync.Map is a map where nothing runs concurrently; it is kept in
// the place of the one of its implementation.
func (in *Interp) syncMap(p value) *mapV {
	s := (*p.(*value)).(structure)
	f := &s[len(s)-1]
	m, ok := (*f).(*mapV)
	if !ok {
		m = newMap()
		in.storeTo(f, m)
	}
	return m
}

func (in *Interp) smGet(p, k value) value {
	if e := in.mapFind(in.syncMap(p), k); e != nil {
		return tuple{copyVal(e.v), in.tc.tt}
	}
	return tuple{iface{}, in.tc.Bool(false)}
}

func argStr(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	return s
}

func init() {
	defer coIntrinsics()
	nop := func(in *Interp, fr *frame, a []value) value { return nil }
	intrinsics = map[string]intrinsic{
		// ---- harness primitives ----
		"verif/sym.Assume": func(in *Interp, fr *frame, a []value) value { in.assume(a[0].(*Term)); return nil },
		"verif/sym.Assert": func(in *Interp, fr *frame, a []value) value {
			in.assert(a[0].(*Term), fmt.Sprint(strOrSym(a[1])))
			return nil
		},
		"verif/sym.Example": func(in *Interp, fr *frame, a []value) value {
			x, v := a[0].(*Term), a[1].(*Term)
			if in.facts == nil {
				in.facts = &facts{map[*Term][2]uint64{}, map[*Term]map[uint64]bool{}, map[*Term]map[uint64]uint64{}}
			}
			if _, ok := in.model[x.name]; x.op == OVar && v.isConst() && !ok {
				in.setModel(Model{x.name: v.v})
			}
			return nil
		},
		"verif/sym.NoDivisor": func(in *Interp, fr *frame, a []value) value {
			x := a[0].(*Term)
			for _, e := range a[1].([]value) {
				d := e.(*Term)
				c := in.tc.Not(in.tc.Eq(in.tc.Bin(OUrem, x, d), in.tc.BV(x.w, 0)))
				if c.isTrue() {
					continue
				}
				if in.ev.eval(c) == 0 {
					in.assume(c)
					continue
				}
				in.pc = append(in.pc, c)
				in.facts.noDiv(x, d.v)
			}
			return nil
		},
		"verif/sym.SliceLen": func(in *Interp, fr *frame, a []value) value {
			s, _ := a[0].(iface).v.([]value)
			return in.tc.BV(64, uint64(len(s)))
		},
		"verif/sym.SliceSwap": func(in *Interp, fr *frame, a []value) value {
			s := a[0].(iface).v.([]value)
			i, j := in.concretize(a[1].(*Term)), in.concretize(a[2].(*Term))
			x, y := copyVal(s[i]), copyVal(s[j])
			in.storeTo(&s[i], y)
			in.storeTo(&s[j], x)
			return nil
		},
		"slices.overlaps": func(in *Interp, fr *frame, a []value) value {
			x, y := a[0].([]value), a[1].([]value)
			r := false
			if len(x) > 0 && len(y) > 0 {
				at := func(v *value) uintptr { return uintptr(unsafe.Pointer(v)) }
				r = at(&x[0]) <= at(&y[len(y)-1]) && at(&y[0]) <= at(&x[len(x)-1])
			}
			return in.tc.Bool(r)
		},
		"verif/sym.Cover": func(in *Interp, fr *frame, a []value) value {
			if in.covers == nil {
				in.covers = map[string]bool{}
			}
			in.covers[argStr(a[0])] = true
			return nil
		},
		"verif/sym.Bool":  symVar(0),
		"verif/sym.varBV": nil,
		"verif/sym.Int":   symVar(64), "verif/sym.Int64": symVar(64), "verif/sym.Uint64": symVar(64), "verif/sym.Uint": symVar(64),
		"verif/sym.Int32": symVar(32), "verif/sym.Uint32": symVar(32), "verif/sym.Int16": symVar(16), "verif/sym.Uint16": symVar(16),
		"verif/sym.Int8": symVar(8), "verif/sym.Byte": symVar(8),
		"verif/sym.Float64": func(in *Interp, fr *frame, a []value) value {
			return in.tc.FFromBits(in.freshVar(in.newName(argStr(a[0])), 64))
		},
		"verif/sym.IntRange": func(in *Interp, fr *frame, a []value) value {
			lo, hi := a[1].(*Term), a[2].(*Term)
			if lo.isConst() && hi.isConst() && sval(lo) <= sval(hi) {
				return in.rangeVar(in.newName(argStr(a[0])), 64, sval(lo), sval(hi))
			}
			v := in.freshVar(in.newName(argStr(a[0])), 64)
			if lo.isConst() {
				if _, ok := in.model[v.name]; !ok {
					in.model[v.name] = lo.v
				}
			}
			in.assume(in.tc.Cmp(OSle, lo, v))
			in.assume(in.tc.Cmp(OSle, v, hi))
			return v
		},
		"verif/sym.Bytes": func(in *Interp, fr *frame, a []value) value {
			n := int(in.concretize(a[1].(*Term)))
			out := make([]value, n)
			nm := in.newName(argStr(a[0]))
			for i := range out {
				out[i] = in.freshVar(fmt.Sprintf("%s_b%d", nm, i), 8)
			}
			return out
		},
		"verif/sym.String": func(in *Interp, fr *frame, a []value) value {
			n := int(in.concretize(a[1].(*Term)))
			out := make([]*Term, n)
			nm := in.newName(argStr(a[0]))
			for i := range out {
				out[i] = in.freshVar(fmt.Sprintf("%s_b%d", nm, i), 8)
			}
			return mkStr(out)
		},
		"verif/sym.Choice": func(in *Interp, fr *frame, a []value) value {
			n := int(in.concretize(a[1].(*Term)))
			nm := in.newName(argStr(a[0]))
			if n <= 1 {
				in.choices[nm] = 0
				return in.tc.BV(64, 0)
			}
			// the alternative taken is a symbolic variable; the path splits on
			// its feasible values
			v := in.freshVar(nm, 16)
			in.assume(in.tc.Cmp(OSle, in.tc.BV(16, 0), v))
			in.assume(in.tc.Cmp(OSlt, v, in.tc.BV(16, uint64(n))))
			c := in.concretizeN(v, n)
			return in.tc.BV(64, uint64(c))
		},
		"verif/sym.Same": func(in *Interp, fr *frame, a []value) value {
			x, y := a[0].(*Term), a[1].(*Term)
			return in.tc.Bool(x == y || x.isConst() && y.isConst() && x.v == y.v)
		},
		"verif/sym.Bound": func(in *Interp, fr *frame, a []value) value {
			if in.ex.cfg.tier == "thorough" {
				return a[1]
			}
			return a[0]
		},
		"verif/sym.Concrete": func(in *Interp, fr *frame, a []value) value {
			return in.tc.BV(64, in.concretize(a[0].(*Term)))
		},
		"verif/sym.Havoc":    func(in *Interp, fr *frame, a []value) value { in.havoc(argStr(a[0])); return nil },
		"verif/sym.Symbolic": func(in *Interp, fr *frame, a []value) value { return in.tc.tt },
		"verif/sym.And": func(in *Interp, fr *frame, a []value) value {
			return in.tc.And(a[0].(*Term), a[1].(*Term))
		},
		"verif/sym.Or": func(in *Interp, fr *frame, a []value) value {
			return in.tc.Or(a[0].(*Term), a[1].(*Term))
		},
		"verif/sym.Implies": func(in *Interp, fr *frame, a []value) value {
			return in.tc.Implies(a[0].(*Term), a[1].(*Term))
		},
		"verif/sym.Ite": func(in *Interp, fr *frame, a []value) value {
			return in.tc.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"verif/sym.EqBytes": func(in *Interp, fr *frame, a []value) value {
			x, y := a[0].([]value), a[1].([]value)
			if len(x) != len(y) {
				return in.tc.ff
			}
			r := in.tc.tt
			for i := range x {
				r = in.tc.And(r, in.tc.Eq(x[i].(*Term), y[i].(*Term)))
			}
			return r
		},
		"verif/sym.UF":     ufCall,
		"verif/sym.UFPair": ufPair,
		"verif/sym.Skip":   func(in *Interp, fr *frame, a []value) value { panic(pathEnd{"assume", ""}) },
		"verif/sym.Overlap": func(in *Interp, fr *frame, a []value) value {
			return in.tc.Bool(overlap(a[0].([]value), a[1].([]value)))
		},

		// ---- sync ----
		"(*sync.Mutex).Lock": lockOp(0, -1, true), "(*sync.Mutex).Unlock": lockOp(-1, 0, true),
		"(*sync.RWMutex).Lock": lockOp(0, -1, true), "(*sync.RWMutex).Unlock": lockOp(-1, 0, true),
		"(*sync.RWMutex).RLock": lockOp(1, 1, true), "(*sync.RWMutex).RUnlock": lockOp(2, 2, true),
		"(*sync.RWMutex).TryLock": lockOp(0, -1, false), "(*sync.RWMutex).TryRLock": lockOp(1, 1, false),
		"(*internal/sync.Mutex).Lock": nop, "(*internal/sync.Mutex).Unlock": nop,
		"(*sync.Mutex).TryLock": lockOp(0, -1, false),
		"(*sync/atomic.Value).Load": func(in *Interp, fr *frame, a []value) value {
			return copyVal((*a[0].(*value)).(structure)[0])
		},
		"(*sync/atomic.Value).Store": func(in *Interp, fr *frame, a []value) value {
			in.storeTo(&(*a[0].(*value)).(structure)[0], a[1])
			return nil
		},
		"(*sync/atomic.Value).Swap": func(in *Interp, fr *frame, a []value) value {
			p := &(*a[0].(*value)).(structure)[0]
			r := copyVal(*p)
			in.storeTo(p, a[1])
			return r
		},
		"(*sync.Map).Load": func(in *Interp, fr *frame, a []value) value { return in.smGet(a[0], a[1]) },
		"(*sync.Map).Store": func(in *Interp, fr *frame, a []value) value {
			in.mapSet(in.syncMap(a[0]), a[1], a[2])
			return nil
		},
		"(*sync.Map).LoadOrStore": func(in *Interp, fr *frame, a []value) value {
			m := in.syncMap(a[0])
			if e := in.mapFind(m, a[1]); e != nil {
				return tuple{copyVal(e.v), in.tc.tt}
			}
			in.mapSet(m, a[1], a[2])
			return tuple{copyVal(a[2]), in.tc.Bool(false)}
		},
		"(*sync.Map).LoadAndDelete": func(in *Interp, fr *frame, a []value) value {
			r := in.smGet(a[0], a[1])
			in.mapDelete(in.syncMap(a[0]), a[1])
			return r
		},
		"(*sync.Map).Swap": func(in *Interp, fr *frame, a []value) value {
			r := in.smGet(a[0], a[1])
			in.mapSet(in.syncMap(a[0]), a[1], a[2])
			return r
		},
		"(*sync.Map).Delete": func(in *Interp, fr *frame, a []value) value {
			in.mapDelete(in.syncMap(a[0]), a[1])
			return nil
		},
		"(*sync.Map).Range": func(in *Interp, fr *frame, a []value) value {
			m := in.syncMap(a[0])
			for _, e := range append([]*mapEntry(nil), m.entries...) {
				if !e.dead && !in.decide(in.call(fr, a[1], []value{copyVal(e.k), copyVal(e.v)}).(*Term)) {
					break
				}
			}
			return nil
		},
		"maps.clone": func(in *Interp, fr *frame, a []value) value {
			x := a[0].(iface)
			m, _ := x.v.(*mapV)
			if m == nil {
				return x
			}
			r := newMap()
			for _, e := range m.entries {
				if !e.dead {
					in.mapSet(r, copyVal(e.k), copyVal(e.v))
				}
			}
			return iface{x.t, r}
		},
		"verif/sym.AsTarget": func(in *Interp, fr *frame, a []value) value {
			e, t := a[0].(iface), a[1].(iface)
			pt := t.t.Underlying().(*types.Pointer).Elem()
			if types.IsInterface(pt) {
				if !in.implements(e.t, pt.Underlying()) {
					return in.tc.Bool(false)
				}
				in.store(t.v, e)
				return in.tc.tt
			}
			if !types.Identical(e.t, pt) {
				return in.tc.Bool(false)
			}
			in.store(t.v, e.v)
			return in.tc.tt
		},
		"(*sync.Pool).Get": func(in *Interp, fr *frame, a []value) value {
			p := a[0].(*value)
			s := (*p).(structure)
			f := s[len(s)-1]
			if c, ok := f.(*closure); ok && c == nil {
				return iface{}
			}
			return in.call(fr, f, nil)
		},
		"(*sync.Pool).Put": nop,
		"runtime.Gosched":  nop, "runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop,
		"os.Exit":               func(in *Interp, fr *frame, a []value) value { panic(pathEnd{"exit", "os.Exit"}) },
		"os.Getenv":             func(in *Interp, fr *frame, a []value) value { return "" },
		"internal/abi.NoEscape": func(in *Interp, fr *frame, a []value) value { return a[0] },
		"time.Sleep":            nop,

		// ---- fmt output ----
		"fmt.Sprintf": nil, "fmt.Errorf": nil,
		"fmt.Println": fmtOut, "fmt.Printf": fmtOut, "fmt.Print": fmtOut,
		"log.Println": nop, "log.Printf": nop, "log.Print": nop,

		// ---- math ----
		"math.Float64bits":     func(in *Interp, fr *frame, a []value) value { return in.floatBits(a[0].(*Term)) },
		"math.Float64frombits": func(in *Interp, fr *frame, a []value) value { return in.tc.FFromBits(a[0].(*Term)) },
		"math.Float32bits":     func(in *Interp, fr *frame, a []value) value { return in.floatBits(a[0].(*Term)) },
		"math.Float32frombits": func(in *Interp, fr *frame, a []value) value { return in.tc.FFromBits(a[0].(*Term)) },
		"math.Sqrt":            func(in *Interp, fr *frame, a []value) value { return in.tc.FSqrt(a[0].(*Term)) },
		"math.sqrt":            func(in *Interp, fr *frame, a []value) value { return in.tc.FSqrt(a[0].(*Term)) },
		"math.Abs":             func(in *Interp, fr *frame, a []value) value { return in.tc.FUn(OFAbs, a[0].(*Term)) },
		"math.Floor":           f1(math.Floor), "math.Ceil": f1(math.Ceil), "math.Trunc": f1(math.Trunc),
		"math.Log": f1(math.Log), "math.Exp": f1(math.Exp), "math.Pow": f2(math.Pow), "math.Mod": f2(math.Mod),
		"math.FMA": nil,

		// ---- internal/bytealg ----
		"internal/bytealg.IndexByte": func(in *Interp, fr *frame, a []value) value {
			b := a[0].([]value)
			for i, x := range b {
				if in.decide(in.tc.Eq(x.(*Term), a[1].(*Term))) {
					return in.tc.BV(64, uint64(i))
				}
			}
			return in.tc.BV(64, math.MaxUint64)
		},
		"internal/bytealg.IndexByteString": func(in *Interp, fr *frame, a []value) value {
			n := strLen(a[0])
			for i := 0; i < n; i++ {
				if in.decide(in.tc.Eq(in.strAt(a[0], i), a[1].(*Term))) {
					return in.tc.BV(64, uint64(i))
				}
			}
			return in.tc.BV(64, math.MaxUint64)
		},
		"internal/bytealg.Count": func(in *Interp, fr *frame, a []value) value {
			return in.countByte(in.bytesToStr(a[0].([]value)), a[1].(*Term))
		},
		"internal/bytealg.CountString": func(in *Interp, fr *frame, a []value) value {
			return in.countByte(a[0], a[1].(*Term))
		},
		"internal/bytealg.IndexString": func(in *Interp, fr *frame, a []value) value { return in.indexStr(a[0], a[1]) },
		"internal/bytealg.Index": func(in *Interp, fr *frame, a []value) value {
			return in.indexStr(in.bytesToStr(a[0].([]value)), in.bytesToStr(a[1].([]value)))
		},
		"strings.Index":              func(in *Interp, fr *frame, a []value) value { return in.indexStr(a[0], a[1]) },
		"internal/stringslite.Index": func(in *Interp, fr *frame, a []value) value { return in.indexStr(a[0], a[1]) },
		"bytes.Index": func(in *Interp, fr *frame, a []value) value {
			return in.indexStr(in.bytesToStr(a[0].([]value)), in.bytesToStr(a[1].([]value)))
		},
		"bytes.Equal": func(in *Interp, fr *frame, a []value) value {
			return in.strEq(in.bytesToStr(a[0].([]value)), in.bytesToStr(a[1].([]value)))
		},
		"internal/bytealg.Compare": func(in *Interp, fr *frame, a []value) value {
			return in.cmpStr(in.bytesToStr(a[0].([]value)), in.bytesToStr(a[1].([]value)))
		},
		"internal/bytealg.CompareString": func(in *Interp, fr *frame, a []value) value { return in.cmpStr(a[0], a[1]) },
		"internal/bytealg.MakeNoZero": func(in *Interp, fr *frame, a []value) value {
			n := int(in.concretize(a[0].(*Term)))
			return in.makeSlice(types.Typ[types.Uint8], n, n)
		},

		// ---- crypto helpers ----
		"crypto/subtle.XORBytes":                  xorBytes,
		"crypto/internal/fips140/subtle.XORBytes": xorBytes,
		"crypto/internal/fips140/alias.AnyOverlap": func(in *Interp, fr *frame, a []value) value {
			return in.tc.Bool(overlap(a[0].([]value), a[1].([]value)))
		},
		"crypto/internal/fips140/alias.InexactOverlap":  inexact,
		"crypto/internal/fips140only.Enforced":          func(in *Interp, fr *frame, a []value) value { return in.tc.ff },
		"crypto/internal/fips140.RecordApproved":        nop,
		"crypto/internal/fips140.RecordNonApproved":     nop,
		"crypto/internal/boring.Unreachable":            nop,
		"crypto/internal/boring.UnreachableExceptTests": nop,

		// ---- reflection (minimal) ----
		"reflect.TypeOf":              typeOf,
		"internal/reflectlite.TypeOf": typeOf,
		"reflect.New": func(in *Interp, fr *frame, a []value) value {
			t := a[0].(iface).v.(*rtypeV).t
			p := new(value)
			*p = in.zero(t)
			return structure{&rtypeV{types.NewPointer(t)}, p, in.tc.BV(64, 0)}
		},
		"reflect.ValueOf": func(in *Interp, fr *frame, a []value) value {
			f := a[0].(iface)
			if f.t == nil {
				return structure{(*value)(nil), nil, in.tc.BV(64, 0)}
			}
			return structure{&rtypeV{f.t}, f.v, in.tc.BV(64, 0)}
		},
		"(reflect.Value).Interface": func(in *Interp, fr *frame, a []value) value {
			s := a[0].(structure)
			return iface{s[0].(*rtypeV).t, s[1]}
		},
		"(reflect.Value).Kind": func(in *Interp, fr *frame, a []value) value {
			s := a[0].(structure)
			if r, ok := s[0].(*rtypeV); ok {
				return in.tc.BV(64, kindNum(r.t))
			}
			return in.tc.BV(64, 0)
		},
		"(reflect.Value).Type": func(in *Interp, fr *frame, a []value) value {
			s := a[0].(structure)
			return iface{in.prog.rtypePtr, s[0].(*rtypeV)}
		},
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	stackIntrinsics()
	intrinsics["fmt.Sprintf"] = sprintf
	for n, ty := range map[string]types.Type{"FormatInt": types.Typ[types.Int64], "FormatUint": types.Typ[types.Uint64], "Itoa": types.Typ[types.Int]} {
		intrinsics["strconv."+n] = func(in *Interp, fr *frame, a []value) value {
			if len(a) == 2 {
				if b := a[1].(*Term); !b.isConst() || b.v != 10 {
					return in.callReal(fr, "strconv", n, a)
				}
			}
			return sprintf(in, fr, []value{"%d", []value{iface{ty, a[0]}}})
		}
	}
	for n, ty := range map[string]types.Type{"AppendInt": types.Typ[types.Int64], "AppendUint": types.Typ[types.Uint64]} {
		intrinsics["strconv."+n] = func(in *Interp, fr *frame, a []value) value {
			if b := a[2].(*Term); !b.isConst() || b.v != 10 || a[1].(*Term).isConst() {
				return in.callReal(fr, "strconv", n, a)
			}
			s := sprintf(in, fr, []value{"%d", []value{iface{ty, a[1]}}})
			return in.appendVals(a[0].([]value), in.strToBytes(s), types.Typ[types.Uint8])
		}
	}
	intrinsics["fmt.Errorf"] = errorf
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		intrinsics["sync/atomic.Load"+ty] = func(in *Interp, fr *frame, a []value) value { return in.load(a[0], nil) }
		intrinsics["sync/atomic.Store"+ty] = func(in *Interp, fr *frame, a []value) value { in.store(a[0], a[1]); return nil }
		intrinsics["sync/atomic.Add"+ty] = func(in *Interp, fr *frame, a []value) value {
			n := in.tc.Bin(OAdd, in.load(a[0], nil).(*Term), a[1].(*Term))
			in.store(a[0], n)
			return n
		}
		intrinsics["sync/atomic.Swap"+ty] = func(in *Interp, fr *frame, a []value) value {
			o := in.load(a[0], nil)
			in.store(a[0], a[1])
			return o
		}
		intrinsics["sync/atomic.CompareAndSwap"+ty] = cas
	}
	intrinsics["sync/atomic.LoadPointer"] = func(in *Interp, fr *frame, a []value) value { return in.load(a[0], nil) }
	intrinsics["sync/atomic.StorePointer"] = func(in *Interp, fr *frame, a []value) value { in.store(a[0], a[1]); return nil }
	intrinsics["sync/atomic.CompareAndSwapPointer"] = cas
	intrinsics["sync/atomic.SwapPointer"] = func(in *Interp, fr *frame, a []value) value {
		o := in.load(a[0], nil)
		in.store(a[0], a[1])
		return o
	}
}

func strOrSym(v value) string {
	switch s := v.(type) {
	case string:
		return s
	}
	return "<message>"
}

func cas(in *Interp, fr *frame, a []value) value {
	o := in.load(a[0], nil)
	eq := in.equal(o, a[1])
	if in.decide(eq) {
		in.store(a[0], a[2])
		return in.tc.tt
	}
	return in.tc.ff
}

func symVar(w uint8) intrinsic {
	return func(in *Interp, fr *frame, a []value) value {
		return in.freshVar(in.newName(argStr(a[0])), w)
	}
}

func fmtOut(in *Interp, fr *frame, a []value) value {
	return tuple{in.tc.BV(64, 0), iface{}}
}

func f1(f func(float64) float64) intrinsic {
	return func(in *Interp, fr *frame, a []value) value {
		t := a[0].(*Term)
		if !t.isConst() {
			panic(unsupported("symbolic transcendental"))
		}
		return in.tc.FP(64, math.Float64bits(f(ffrom(t.v, 64))))
	}
}

func f2(f func(x, y float64) float64) intrinsic {
	return func(in *Interp, fr *frame, a []value) value {
		t, u := a[0].(*Term), a[1].(*Term)
		if !t.isConst() || !u.isConst() {
			panic(unsupported("symbolic transcendental"))
		}
		return in.tc.FP(64, math.Float64bits(f(ffrom(t.v, 64), ffrom(u.v, 64))))
	}
}

func (in *Interp) countByte(s value, c *Term) value {
	n := strLen(s)
	r := in.tc.BV(64, 0)
	one, zero := in.tc.BV(64, 1), in.tc.BV(64, 0)
	for i := 0; i < n; i++ {
		r = in.tc.Bin(OAdd, r, in.tc.Ite(in.tc.Eq(in.strAt(s, i), c), one, zero))
	}
	return r
}

func (in *Interp) indexStr(s, sub value) value {
	a, ok1 := s.(string)
	b, ok2 := sub.(string)
	if ok1 && ok2 {
		return in.tc.BV(64, uint64(strings.Index(a, b)))
	}
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if in.decide(in.strEq(in.strSlice(s, i, i+m), sub)) {
			return in.tc.BV(64, uint64(i))
		}
	}
	return in.tc.BV(64, math.MaxUint64)
}

func (in *Interp) cmpStr(x, y value) value {
	if in.decide(in.strEq(x, y)) {
		return in.tc.BV(64, 0)
	}
	if in.decide(in.strLess(x, y, false)) {
		return in.tc.BV(64, math.MaxUint64)
	}
	return in.tc.BV(64, 1)
}

func xorBytes(in *Interp, fr *frame, a []value) value {
	d, x, y := a[0].([]value), a[1].([]value), a[2].([]value)
	n := min(len(x), len(y))
	if n > len(d) {
		in.goPanic(iface{in.prog.rtErr, "subtle.XORBytes: dst too short"})
	}
	tmp := make([]*Term, n)
	for i := 0; i < n; i++ {
		tmp[i] = in.tc.Bin(OBxor, x[i].(*Term), y[i].(*Term))
	}
	for i := 0; i < n; i++ {
		in.set(&d[i], tmp[i])
	}
	return in.tc.BV(64, uint64(n))
}

func overlap(a, b []value) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	for i := range a {
		if &a[i] == &b[0] {
			return true
		}
	}
	for i := range b {
		if &b[i] == &a[0] {
			return true
		}
	}
	return false
}

func inexact(in *Interp, fr *frame, a []value) value {
	x, y := a[0].([]value), a[1].([]value)
	if len(x) == 0 || len(y) == 0 || &x[0] == &y[0] {
		return in.tc.ff
	}
	return in.tc.Bool(overlap(x, y))
}

// ---- uninterpreted functions ------------------------------------------------

type ufEntry struct {
	tag string
	in  []*Term
	out []*Term
}

func termsOf(v value) []*Term {
	s := v.([]value)
	t := make([]*Term, len(s))
	for i := range s {
		t[i] = s[i].(*Term)
	}
	return t
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(a[i].isConst() && b[i].isConst() && a[i].v == b[i].v) {
			return false
		}
	}
	return true
}

func (in *Interp) eqAll(a, b []*Term) *Term {
	if len(a) != len(b) {
		return in.tc.ff
	}
	r := in.tc.tt
	for i := range a {
		r = in.tc.And(r, in.tc.Eq(a[i], b[i]))
		if r.isFalse() {
			break
		}
	}
	return r
}

// ufApply gives the result of uninterpreted function tag on args, n bytes.
// Congruence is asserted against the earlier applications on this path.
func (in *Interp) ufApply(tag string, args []*Term, n int) []*Term {
	for _, e := range in.uf {
		if e.tag == tag && sameTerms(e.in, args) && len(e.out) == n {
			return e.out
		}
	}
	out := make([]*Term, n)
	in.uniq++
	nm := in.newName("uf_" + tag)
	for i := range out {
		out[i] = in.freshVar(fmt.Sprintf("%s_b%d", nm, i), 8)
	}
	in.ufConstrain(tag, args, out)
	return out
}

func (in *Interp) ufConstrain(tag string, args, out []*Term) {
	old := in.uf
	in.usedUF = true
	in.uf = append(in.uf, ufEntry{tag, args, out})
	for _, e := range old {
		if e.tag != tag || len(e.in) != len(args) || len(e.out) != len(out) {
			continue
		}
		c := in.eqAll(e.in, args)
		if c.isFalse() {
			continue
		}
		in.assume(in.tc.Implies(c, in.eqAll(e.out, out)))
	}
}

// UF(tag string, in []byte, n int) []byte
func ufCall(in *Interp, fr *frame, a []value) value {
	n := int(in.concretize(a[2].(*Term)))
	out := in.ufApply(argStr(a[0]), termsOf(a[1]), n)
	r := make([]value, n)
	for i := range r {
		r[i] = out[i]
	}
	return r
}

// UFPair(fwd, bwd string, key, in []byte) []byte: fwd is a permutation of
// len(in)-byte blocks for every key, bwd its inverse.
func ufPair(in *Interp, fr *frame, a []value) value {
	fwd, bwd := argStr(a[0]), argStr(a[1])
	key, x := termsOf(a[2]), termsOf(a[3])
	args := append(append([]*Term{}, key...), x...)
	nk := len(key)
	mk := func(out []*Term) value {
		r := make([]value, len(out))
		for i := range r {
			r[i] = out[i]
		}
		return r
	}
	for _, e := range in.uf {
		if e.tag == fwd && sameTerms(e.in, args) {
			return mk(e.out)
		}
		if e.tag == bwd && len(e.in) == len(args) && sameTerms(e.in[:nk], key) && sameTerms(e.out, x) {
			return mk(e.in[nk:])
		}
	}
	out := in.ufApply(fwd, args, len(x))
	in.ufConstrain(bwd, append(append([]*Term{}, key...), out...), x)
	return mk(out)
}

// ---- reflection ---------------------------------------------------------------

func typeOf(in *Interp, fr *frame, a []value) value {
	f := a[0].(iface)
	if f.t == nil {
		return iface{}
	}
	return iface{in.prog.rtypePtr, &rtypeV{f.t}}
}

func kindNum(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
			types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func rtypeMethod(rt *rtypeV, name string) func(in *Interp, fr *frame, args []value) value {
	return func(in *Interp, fr *frame, args []value) value {
		switch name {
		case "Kind":
			return in.tc.BV(64, kindNum(rt.t))
		case "String":
			return types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
		case "Name":
			if n, ok := rt.t.(*types.Named); ok {
				return n.Obj().Name()
			}
			if b, ok := rt.t.(*types.Basic); ok {
				return b.Name()
			}
			return ""
		case "Comparable":
			return in.tc.Bool(types.Comparable(rt.t))
		case "Elem":
			switch u := rt.t.Underlying().(type) {
			case *types.Pointer:
				return iface{in.prog.rtypePtr, &rtypeV{u.Elem()}}
			case *types.Slice:
				return iface{in.prog.rtypePtr, &rtypeV{u.Elem()}}
			}
		case "Size":
			return in.tc.BV(64, uint64(sizes.Sizeof(rt.t)))
		}
		panic(unsupported("reflect type method " + name))
	}
}

var _ = ssa.Function{}

// havoc makes the numbers among the variables of a package arbitrary.
func (in *Interp) havoc(path string) {
	p := in.prog.prog.ImportedPackage(path)
	if p == nil {
		panic(unsupported("no package " + path))
	}
	var names []string
	for n, m := range p.Members {
		if _, ok := m.(*ssa.Global); ok && n != "init$guard" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	seen := map[*value]bool{}
	var visit func(c *value)
	visit = func(c *value) {
		if c == nil || seen[c] {
			return
		}
		seen[c] = true
		switch v := (*c).(type) {
		case *Term:
			if v.w > 0 && v.isConst() && !v.fp {
				in.set(c, in.freshVar(in.newName("state"), v.w))
			}
		case structure:
			for i := range v {
				visit(&v[i])
			}
		case *value:
			visit(v)
		}
	}
	for _, n := range names {
		visit(in.global(p.Members[n].(*ssa.Global)))
	}
}
