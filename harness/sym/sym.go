// Package sym is the vocabulary of the harnesses. The symbolic engine
// intercepts these functions; compiled natively they read a replay vector, so
// that a solver counterexample runs against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
)

var (
	vec    map[string]uint64
	names  = map[string]int{}
	tier   = os.Getenv("VERIF_TIER")
	failed = false
)

// Load reads the replay vector (native runs only).
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var f struct {
		Vector map[string]uint64 `json:"vector"`
		Tier   string            `json:"tier"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	vec = f.Vector
	if f.Tier != "" {
		tier = f.Tier
	}
	return nil
}

func newName(base string) string {
	k := names[base]
	names[base] = k + 1
	b := []byte(base)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			b[i] = '_'
		}
	}
	return fmt.Sprintf("v_%s_%d", b, k)
}

func get(name string) uint64 { return vec[newName(name)] }

func Bool(name string) bool       { return get(name) != 0 }
func Int(name string) int         { return int(get(name)) }
func Int64(name string) int64     { return int64(get(name)) }
func Uint64(name string) uint64   { return get(name) }
func Uint(name string) uint       { return uint(get(name)) }
func Int32(name string) int32     { return int32(get(name)) }
func Uint32(name string) uint32   { return uint32(get(name)) }
func Int16(name string) int16     { return int16(get(name)) }
func Uint16(name string) uint16   { return uint16(get(name)) }
func Int8(name string) int8       { return int8(get(name)) }
func Byte(name string) byte       { return byte(get(name)) }
func Float64(name string) float64 { return math.Float64frombits(get(name)) }

// IntRange is an arbitrary int in [lo,hi].
func IntRange(name string, lo, hi int) int {
	v := int(get(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Bytes is an arbitrary byte slice of length n.
func Bytes(name string, n int) []byte {
	nm := newName(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vec[fmt.Sprintf("%s_b%d", nm, i)])
	}
	return b
}

// String is an arbitrary string of length n.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choice is an arbitrary number in [0,n); the engine forks on it.
func Choice(name string, n int) int {
	nm := newName(name)
	return int(vec[nm])
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY-ASSUME-FAILED")
		os.Exit(0)
	}
}

// Example tells the engine a value of x that the assumptions to come allow;
// from then on branches are decided from intervals and divisors where these
// settle them.
func Example(x, v uint32) {}

// NoDivisor assumes that none of ds divides x.
func NoDivisor(x uint32, ds []uint32) {
	for _, d := range ds {
		Assume(x%d != 0)
	}
}

// Skip ends the path: nothing to check here.
func Skip() { Assume(false) }

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("REPLAY-VIOLATION assert: " + msg)
		os.Exit(3)
	}
}

// Cover marks a situation as reached.
func Cover(label string) {}

// Bound picks the bound of the tier.
func Bound(quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// Concrete forks on the values of x.
func Concrete(x int) int { return x }

// Havoc makes the numbers among the variables of a package, and behind the
// pointers they hold, arbitrary. Native runs cannot: they have to go through
// many states.
func Havoc(pkg string) {}

// Symbolic is true inside the engine.
func Symbolic() bool { return false }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Overlap reports whether a and b share memory.
func Overlap(a, b []byte) bool {
	for i := range a {
		for j := range b {
			if &a[i] == &b[j] {
				return true
			}
		}
	}
	return false
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	p = true
	defer func() {
		if p {
			recover()
		}
	}()
	f()
	p = false
	return
}

// UF and UFPair are only meaningful inside the engine (environment models).
func UF(tag string, in []byte, n int) []byte { panic("UF outside the engine") }

func UFPair(fwd, bwd string, key, in []byte) []byte { panic("UFPair outside the engine") }

// SliceLen and SliceSwap: length of a slice of any type, swap of two of its
// elements (the model of sort.Slice).
func SliceLen(s interface{}) int        { panic("SliceLen outside the engine") }
func SliceSwap(s interface{}, i, j int) { panic("SliceSwap outside the engine") }

// AsTarget: assigns err to what target points to if the types fit (the model of
// errors.As).
func AsTarget(err error, target interface{}) bool { panic("AsTarget outside the engine") }

// Same: a and b are known to be equal (the engine answers syntactically and
// may say no for equal values).
func Same(a, b int) bool { return a == b }
