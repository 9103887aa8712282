package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type value = interface{}

type structure []value

// cplxV is a complex number.
type cplxV struct{ re, im *Term }
type array []value
type tuple []value

type iface struct {
	t types.Type // nil: nil interface
	v value
}

type closure struct {
	fn     *ssa.Function
	env    []value
	native func(in *Interp, fr *frame, args []value) value
}

// symStr is a string of concrete length with (some) symbolic bytes.
type symStr struct {
	b    []*Term
	lazy func() []*Term // not yet formatted
	view []value        // the memory behind it, when something else sees it too
}

// bytes formats a lazy string on first use.
func (s *symStr) bytes() []*Term {
	if s.view != nil {
		b := make([]*Term, len(s.view))
		for i, v := range s.view {
			b[i] = v.(*Term)
		}
		return b
	}
	if s.lazy != nil {
		f := s.lazy
		s.lazy = nil
		s.b = f()
	}
	return s.b
}

// symptr is the address of a scalar element at a symbolic index.
type symptr struct {
	arr []value
	idx *Term
}

// uptr is an unsafe.Pointer made from a typed pointer.
type uptr struct {
	p value      // *value (or nil)
	t types.Type // pointee type it was made from
}

// castptr is a pointer obtained by reinterpreting another pointer.
type castptr struct {
	p        value
	from, to types.Type
}

// hdrData is the Data word of a string/slice header taken apart.
type hdrData struct {
	str value   // string or *symStr (string data)
	sl  []value // slice data (full capacity)
	off int
}

type mapEntry struct {
	k, v value
	dead bool
}

type mapV struct {
	entries []*mapEntry
	index   map[interface{}]*mapEntry // concrete scalar keys
	symKeys int
	n       int
}

type mapIter struct {
	m *mapV
	i int
}

type strIter struct {
	s value
	i int
}

type chanV struct {
	buf    []value
	cap    int
	closed bool
}

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kIface
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kUnsafe
	kComplex
	kTuple
)

type tinfo struct {
	k      kind
	w      uint8
	signed bool
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true}
		case types.Int8:
			return tinfo{kInt, 8, true}
		case types.Int16:
			return tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false}
		case types.Uint8:
			return tinfo{kInt, 8, false}
		case types.Uint16:
			return tinfo{kInt, 16, false}
		case types.Uint32:
			return tinfo{kInt, 32, false}
		case types.Float32:
			return tinfo{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64, true}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer:
			return tinfo{k: kUnsafe}
		case types.Complex64:
			return tinfo{k: kComplex, w: 32}
		case types.Complex128, types.UntypedComplex:
			return tinfo{k: kComplex, w: 64}
		case types.UntypedNil:
			return tinfo{k: kUnsafe}
		}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Struct:
		return tinfo{k: kStruct}
	case *types.Array:
		return tinfo{k: kArray}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Chan:
		return tinfo{k: kChan}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Tuple:
		return tinfo{k: kTuple}
	}
	return tinfo{}
}

func (in *Interp) zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := infoOf(u)
		switch i.k {
		case kBool:
			return in.tc.ff
		case kInt:
			return in.tc.BV(i.w, 0)
		case kFloat:
			return in.tc.FP(i.w, 0)
		case kString:
			return ""
		case kUnsafe:
			return uptr{}
		case kComplex:
			return cplxV{in.tc.FP(i.w, 0), in.tc.FP(i.w, 0)}
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(array, n)
		if n > 0 {
			ei := infoOf(u.Elem())
			if ei.k == kStruct || ei.k == kArray {
				for i := range a {
					a[i] = in.zero(u.Elem())
				}
			} else {
				z := in.zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return in.zero(u.At(0).Type())
		}
		tp := make(tuple, u.Len())
		for i := range tp {
			tp[i] = in.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero of " + t.String()))
}

// copyVal copies aggregates so that values have value semantics.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

type trailEnt struct {
	p   *value
	old value
	f   func()
}

func (in *Interp) set(p *value, v value) {
	if in.noTrail == 0 {
		in.trail = append(in.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) onUndo(f func()) {
	if in.noTrail == 0 {
		in.trail = append(in.trail, trailEnt{f: f})
	}
}

func (in *Interp) undo() {
	for i := len(in.trail) - 1; i >= 0; i-- {
		e := &in.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
	}
	for i := range in.trail {
		in.trail[i] = trailEnt{}
	}
	in.trail = in.trail[:0]
	if cap(in.trail) > 1<<20 {
		in.trail = nil
	}
}

// storeTo assigns v through p, keeping the addresses of aggregate parts.
func (in *Interp) storeTo(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(v) {
			for i := range v {
				in.storeTo(&d[i], v[i])
			}
			return
		}
		in.set(p, copyVal(v))
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(v) {
			for i := range v {
				in.storeTo(&d[i], v[i])
			}
			return
		}
		in.set(p, copyVal(v))
	default:
		in.set(p, v)
	}
}

func (in *Interp) load(p value, t types.Type) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case *symptr:
		return in.symLoad(p)
	case *castptr:
		return in.castLoad(p)
	case *hdrCell:
		return in.hdrLoad(p)
	}
	panic(unsupported(fmt.Sprintf("load from %T", p)))
}

func (in *Interp) store(p value, v value) {
	switch p := p.(type) {
	case *hdrCell:
		in.hdrStore(p, v)
		return
	case *value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.storeTo(p, v)
		return
	case *symptr:
		x, ok := v.(*Term)
		if !ok {
			panic(unsupported("symbolic-index store of non scalar"))
		}
		for i := range p.arr {
			c := in.tc.Eq(p.idx, in.tc.BV(p.idx.w, uint64(i)))
			old := p.arr[i].(*Term)
			n := in.tc.Ite(c, x, old)
			if n != old {
				in.set(&p.arr[i], n)
			}
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store to %T", p)))
}

func (in *Interp) symLoad(p *symptr) value {
	return in.selectTerm(p.arr, p.idx)
}

// selectTerm builds arr[idx] as a balanced decision tree over the index bits.
func (in *Interp) selectTerm(arr []value, idx *Term) *Term {
	if r := in.composeTable(arr, idx); r != nil {
		return r
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return arr[lo].(*Term)
		}
		mid := (lo + hi) / 2
		a, b := rec(lo, mid), rec(mid, hi)
		return in.tc.Ite(in.tc.Cmp(OUlt, idx, in.tc.BV(idx.w, uint64(mid))), a, b)
	}
	t := rec(0, len(arr))
	if t.op == OIte {
		tab := make([]uint64, len(arr))
		for i, v := range arr {
			x := v.(*Term)
			if x.op != OConst {
				return t
			}
			tab[i] = x.v
		}
		if in.tc.tables == nil || len(in.tc.tables) > 100000 {
			in.tc.tables = map[*Term]tableOf{}
		}
		in.tc.tables[t] = tableOf{idx, tab}
	}
	return t
}

// tableOf remembers that a term is a table of constants at an index known to
// be in range.
type tableOf struct {
	idx *Term
	tab []uint64
}

// composeTable is arr[idx] for an index that is itself a decision tree over
// constants: the decisions stay, the leaves are looked up.
func (in *Interp) composeTable(arr []value, idx *Term) *Term {
	for idx.op == OZext {
		idx = idx.a
	}
	if idx.op != OIte {
		return nil
	}
	if m, ok := in.tc.tables[idx]; ok {
		sub := make([]value, len(m.tab))
		w, same := uint8(0), true
		for i, v := range m.tab {
			if v >= uint64(len(arr)) {
				return nil
			}
			x, ok := arr[v].(*Term)
			if !ok || x.fp || x.w == 0 {
				return nil
			}
			sub[i], w = x, x.w
			same = same && x.op == OConst && x.v == uint64(i)
		}
		if same { // the second table undoes the first
			if w >= m.idx.w {
				return in.tc.Zext(m.idx, w)
			}
			return in.tc.Extract(m.idx, w-1, 0)
		}
		return in.selectTerm(sub, m.idx)
	}
	leaves := 0
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.op == OConst:
			if leaves++; leaves <= 300 && t.v < uint64(len(arr)) {
				r, _ = arr[t.v].(*Term)
			}
		case t.op == OIte:
			if a := rec(t.b); a != nil {
				if b := rec(t.c); b != nil {
					r = in.tc.Ite(t.a, a, b)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(idx)
}

// ---- strings --------------------------------------------------------------

func strLen(s value) int {
	switch s := s.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.bytes())
	}
	panic(unsupported(fmt.Sprintf("strLen %T", s)))
}

func (in *Interp) strAt(s value, i int) *Term {
	switch s := s.(type) {
	case string:
		return in.tc.BV(8, uint64(s[i]))
	case *symStr:
		return s.bytes()[i]
	}
	panic("strAt")
}

func mkStr(b []*Term) value {
	for _, t := range b {
		if !t.isConst() {
			return &symStr{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.v)
	}
	return string(bs)
}

func (in *Interp) strTerms(s value) []*Term {
	switch s := s.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := range b {
			b[i] = in.tc.BV(8, uint64(s[i]))
		}
		return b
	case *symStr:
		return s.bytes()
	}
	panic(unsupported(fmt.Sprintf("strTerms %T", s)))
}

func (in *Interp) strSlice(s value, lo, hi int) value {
	switch s := s.(type) {
	case string:
		return s[lo:hi]
	case *symStr:
		if s.view != nil {
			return viewStr(s.view[lo:hi])
		}
		return mkStr(s.bytes()[lo:hi])
	}
	panic("strSlice")
}

// viewStr is a string that shares memory with a byte slice.
func viewStr(b []value) value {
	if len(b) == 0 {
		return ""
	}
	return &symStr{view: b[:len(b):len(b)]}
}

// strView gives the memory behind a string. Constant strings have no
// identity: theirs is a copy.
func (in *Interp) strView(s value) []value {
	y, ok := s.(*symStr)
	if !ok {
		return in.strToBytes(s)
	}
	if y.view == nil {
		v := in.strToBytes(y)
		y.view = v[:len(v):len(v)]
	}
	return y.view
}

func (in *Interp) strEq(x, y value) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return in.tc.Bool(a == b)
		}
	}
	if strLen(x) != strLen(y) {
		return in.tc.ff
	}
	a, b := in.chunks(in.strTerms(x), in.strTerms(y))
	r := in.tc.tt
	for i := range a {
		r = in.tc.And(r, in.tc.Eq(a[i], b[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess: x < y lexicographically (orEq: x <= y)
func (in *Interp) strLess(x, y value, orEq bool) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if orEq {
				return in.tc.Bool(a <= b)
			}
			return in.tc.Bool(a < b)
		}
	}
	a, b := in.strTerms(x), in.strTerms(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var r *Term
	if len(a) == len(b) {
		r = in.tc.Bool(orEq)
	} else {
		r = in.tc.Bool(len(a) < len(b))
	}
	a, b = in.chunks(a[:n], b[:n])
	for i := len(a) - 1; i >= 0; i-- {
		r = in.tc.Ite(in.tc.Eq(a[i], b[i]), r, in.tc.Cmp(OUlt, a[i], b[i]))
	}
	return r
}

// chunks gives two texts of the same length in larger pieces where that keeps
// their order: characters looked up in the same increasing table (the digits
// of hexadecimal numbers) are replaced by their indices, and adjacent indices
// are joined.
func (in *Interp) chunks(a, b []*Term) (x, y []*Term) {
	tc := in.tc
	if len(tc.tables) == 0 {
		return a, b
	}
	open := false
	for i := range a {
		p, q, ok := tc.tablePair(a[i], b[i])
		if !ok {
			x, y, open = append(x, a[i]), append(y, b[i]), false
			continue
		}
		if open && x[len(x)-1].w+p.w <= 64 {
			x[len(x)-1], y[len(y)-1] = tc.Concat(x[len(x)-1], p), tc.Concat(y[len(y)-1], q)
			continue
		}
		x, y, open = append(x, p), append(y, q), true
	}
	return
}

// tablePair: two lookups in the same increasing table compare as their
// indices do; one of them may be a constant of the table.
func (c *TermCtx) tablePair(a, b *Term) (p, q *Term, ok bool) {
	m, ok1 := c.tables[a]
	n, ok2 := c.tables[b]
	if !ok1 && !ok2 {
		return nil, nil, false
	}
	if !ok1 {
		q, p, ok = c.tablePair(b, a)
		return
	}
	for i := 1; i < len(m.tab); i++ {
		if m.tab[i-1] >= m.tab[i] {
			return nil, nil, false
		}
	}
	p = m.idx
	for p.op == OZext {
		p = p.a
	}
	if ok2 {
		if len(m.tab) != len(n.tab) {
			return nil, nil, false
		}
		for i := range m.tab {
			if m.tab[i] != n.tab[i] {
				return nil, nil, false
			}
		}
		q = n.idx
		for q.op == OZext {
			q = q.a
		}
		return p, q, p.w == q.w
	}
	if b.op != OConst {
		return nil, nil, false
	}
	for i, v := range m.tab {
		if v == b.v {
			return p, c.BV(p.w, uint64(i)), true
		}
	}
	return nil, nil, false
}

func (in *Interp) bytesToStr(b []value) value {
	ts := make([]*Term, len(b))
	for i, v := range b {
		ts[i] = v.(*Term)
	}
	return mkStr(ts)
}

func (in *Interp) strToBytes(s value) []value {
	ts := in.strTerms(s)
	out := make([]value, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

// ---- equality -------------------------------------------------------------

func (in *Interp) equal(x, y value) *Term {
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.fp {
			return in.tc.FCmp(OFEq, a, b)
		}
		return in.tc.Eq(a, b)
	case cplxV:
		b := y.(cplxV)
		return in.tc.And(in.tc.FCmp(OFEq, a.re, b.re), in.tc.FCmp(OFEq, a.im, b.im))
	case string, *symStr:
		return in.strEq(x, y)
	case *value:
		switch b := y.(type) {
		case *value:
			return in.tc.Bool(a == b)
		case *symptr:
			if a == nil {
				return in.tc.ff
			}
			for i := range b.arr {
				if &b.arr[i] == a {
					return in.tc.Eq(b.idx, in.tc.BV(b.idx.w, uint64(i)))
				}
			}
			return in.tc.ff
		case *castptr:
			return in.tc.Bool(b.p == value(a))
		}
	case *symptr:
		if b, ok := y.(*value); ok {
			return in.equal(b, a)
		}
		if b, ok := y.(*symptr); ok && len(a.arr) > 0 && len(b.arr) > 0 && &a.arr[0] == &b.arr[0] {
			return in.tc.Eq(a.idx, b.idx)
		}
	case *castptr:
		switch b := y.(type) {
		case *value:
			return in.tc.Bool(a.p == value(b))
		case *castptr:
			return in.tc.Bool(a.p == b.p)
		}
	case uptr:
		b := y.(uptr)
		return in.tc.Bool(isNilPtr(a.p) && isNilPtr(b.p) || a.p == b.p)
	case iface:
		b, ok := y.(iface)
		if !ok {
			panic(unsupported("iface compare"))
		}
		if a.t == nil || b.t == nil {
			return in.tc.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return in.tc.ff
		}
		if !types.Comparable(a.t) {
			in.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return in.equal(a.v, b.v)
	case structure:
		b := y.(structure)
		r := in.tc.tt
		for i := range a {
			r = in.tc.And(r, in.equal(a[i], b[i]))
		}
		return r
	case array:
		b := y.(array)
		r := in.tc.tt
		for i := range a {
			r = in.tc.And(r, in.equal(a[i], b[i]))
		}
		return r
	case []value:
		b := y.([]value)
		if a != nil && b != nil {
			panic(unsupported("slice compare"))
		}
		return in.tc.Bool(a == nil && b == nil)
	case *mapV:
		return in.tc.Bool(a == y.(*mapV))
	case *chanV:
		return in.tc.Bool(a == y.(*chanV))
	case *closure:
		if b, ok := y.(*closure); ok {
			return in.tc.Bool(a == nil && b == nil)
		}
		return in.tc.ff
	case *ssa.Function:
		return in.tc.ff // only comparable with nil
	case *rtypeV:
		b, ok := y.(*rtypeV)
		return in.tc.Bool(ok && types.Identical(a.t, b.t))
	}
	panic(unsupported(fmt.Sprintf("equal %T %T", x, y)))
}

type rtypeV struct{ t types.Type }

func isNilPtr(p value) bool {
	switch p := p.(type) {
	case nil:
		return true
	case *value:
		return p == nil
	}
	return false
}

// ---- maps -----------------------------------------------------------------

func concreteKey(k value) (interface{}, bool) {
	switch k := k.(type) {
	case *Term:
		if k.isConst() {
			return [2]uint64{k.v, uint64(k.w)}, true
		}
		return nil, false
	case string:
		return k, true
	case *value:
		return k, true
	case iface:
		if k.t == nil {
			return "\x00nil", true
		}
		if c, ok := concreteKey(k.v); ok {
			return struct {
				t string
				c interface{}
			}{k.t.String(), c}, true
		}
		return nil, false
	case structure:
		s := ""
		for _, f := range k {
			c, ok := concreteKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", c, c)
		}
		return s, true
	case array:
		s := ""
		for _, f := range k {
			c, ok := concreteKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", c, c)
		}
		return "a" + s, true
	}
	return nil, false
}

func (in *Interp) mapFind(m *mapV, k value) *mapEntry {
	if m == nil {
		return nil
	}
	if f, ok := k.(iface); ok && f.t != nil && !types.Comparable(f.t) {
		in.rtPanic("hash of unhashable type " + f.t.String())
	}
	ck, conc := concreteKey(k)
	if conc {
		if e, ok := m.index[ck]; ok {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := concreteKey(e.k); c2 {
				continue
			}
		}
		if in.decide(in.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *mapV, k, v value) {
	if m == nil {
		in.goPanic(iface{in.rtErrType(), "assignment to entry in nil map"})
	}
	if e := in.mapFind(m, k); e != nil {
		in.set(&e.v, copyVal(v))
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	m.entries = append(m.entries, e)
	m.n++
	ck, conc := concreteKey(k)
	if conc {
		m.index[ck] = e
	} else {
		m.symKeys++
	}
	in.onUndo(func() {
		m.entries = m.entries[:len(m.entries)-1]
		m.n--
		if conc {
			delete(m.index, ck)
		} else {
			m.symKeys--
		}
	})
}

func (in *Interp) mapDelete(m *mapV, k value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	ck, conc := concreteKey(e.k)
	if conc {
		delete(m.index, ck)
	} else {
		m.symKeys--
	}
	in.onUndo(func() {
		e.dead = false
		m.n++
		if conc {
			m.index[ck] = e
		} else {
			m.symKeys++
		}
	})
}

func newMap() *mapV { return &mapV{index: map[interface{}]*mapEntry{}} }

// ---- append growth ----------------------------------------------------------

type growKey struct {
	oldLen, oldCap, add int
	size                int64
	ptr                 bool
}

var growCache sync.Map

// growCap gives the capacity the Go runtime would choose, by asking it.
func growCap(k growKey) int {
	if v, ok := growCache.Load(k); ok {
		return v.(int)
	}
	var et reflect.Type
	if k.ptr && k.size%8 == 0 && k.size > 0 {
		et = reflect.ArrayOf(int(k.size/8), reflect.TypeOf((*int)(nil)))
	} else {
		et = reflect.ArrayOf(int(k.size), reflect.TypeOf(byte(0)))
	}
	st := reflect.SliceOf(et)
	s := reflect.MakeSlice(st, k.oldLen, k.oldCap)
	s2 := reflect.MakeSlice(st, k.add, k.add)
	r := reflect.AppendSlice(s, s2).Cap()
	growCache.Store(k, r)
	return r
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}
