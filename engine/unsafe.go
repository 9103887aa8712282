package main

import (
	"fmt"
	"go/types"
	"unsafe"
)

// unsafeSlice views n consecutive cells starting at p; callers only pass
// addresses of slice or array elements.
func unsafeSlice(p *value, n int) []value { return unsafe.Slice(p, n) }

func (in *Interp) hdrString(h *hdrData, n int) value {
	if h == nil || n == 0 {
		return ""
	}
	if h.str != nil {
		return in.strSlice(h.str, h.off, h.off+n)
	}
	return viewStr(h.sl[h.off : h.off+n])
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && infoOf(s.Elem()).w == 8 && infoOf(s.Elem()).k == kInt
}

func isStr(t types.Type) bool { return infoOf(t).k == kString }

func isHdr(t types.Type) int { // 2: StringHeader shape, 3: SliceHeader shape
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() < 2 || s.Field(0).Name() != "Data" {
		return 0
	}
	return s.NumFields()
}

func (in *Interp) unsafeCast(u uptr, te types.Type) value {
	if u.t != nil && types.Identical(u.t, te) {
		return u.p
	}
	if isNilPtr(u.p) {
		return (*value)(nil)
	}
	if h, ok := u.p.(*hdrData); ok {
		return &castptr{p: h, from: u.t, to: te}
	}
	if u.t == nil {
		panic(unsupported("unsafe cast of unknown pointer"))
	}
	if types.Identical(u.t.Underlying(), te.Underlying()) {
		return u.p
	}
	a, b := infoOf(u.t), infoOf(te)
	if a.k == kInt && b.k == kInt && a.w == b.w {
		return u.p
	}
	if a.k == kPtr && b.k == kPtr || a.k == kUnsafe && b.k == kPtr || a.k == kPtr && b.k == kUnsafe {
		return &castptr{p: u.p, from: u.t, to: te}
	}
	return &castptr{p: u.p, from: u.t, to: te}
}

func (in *Interp) castLoad(c *castptr) value {
	if h, ok := c.p.(*hdrData); ok {
		if infoOf(c.to).w == 8 && infoOf(c.to).k == kInt {
			if h.str != nil {
				if h.off >= strLen(h.str) {
					panic(unsupported("read past string"))
				}
				return in.strAt(h.str, h.off)
			}
			if h.off < len(h.sl) {
				return h.sl[h.off]
			}
		}
		panic(unsupported("load through header data"))
	}
	v := in.load(c.p, c.from)
	switch {
	case isStr(c.from) && isStr(c.to):
		return v
	case isByteSlice(c.from) && isByteSlice(c.to):
		return v
	case isByteSlice(c.from) && isStr(c.to):
		return viewStr(v.([]value))
	case isStr(c.from) && isByteSlice(c.to):
		// capacity is whatever word follows: not modelled
		panic(unsupported("string header read as slice header"))
	case isHdr(c.from) >= 2 && isStr(c.to):
		s := v.(structure)
		n := int(in.concretize(s[1].(*Term)))
		return in.hdrStringV(s[0], n)
	case isHdr(c.from) == 3 && isByteSlice(c.to):
		s := v.(structure)
		n := int(in.concretize(s[1].(*Term)))
		cp := int(in.concretize(s[2].(*Term)))
		if n < 0 || cp < n || cp > 1<<20 {
			panic(unsupported("odd slice header"))
		}
		h, ok := s[0].(*hdrData)
		if !ok {
			if t, ok := s[0].(*Term); ok && t.isConst() && t.v == 0 && n == 0 {
				return []value(nil)
			}
			panic(unsupported("slice header with foreign data"))
		}
		if h.str != nil {
			if h.off+cp > strLen(h.str) {
				// view beyond the string: bytes outside are not modelled
				panic(&targetPanic{v: iface{in.prog.rtErr, "slice view extends beyond string data"}})
			}
			return in.strView(h.str)[h.off : h.off+n : h.off+cp]
		}
		if h.off+cp > len(h.sl) {
			panic(&targetPanic{v: iface{in.prog.rtErr, "slice view extends beyond backing array"}})
		}
		return h.sl[h.off : h.off+n : h.off+cp]
	}
	a, b := infoOf(c.from), infoOf(c.to)
	if a.k == kFloat && b.k == kInt && a.w == b.w {
		return in.floatBits(v.(*Term))
	}
	if a.k == kInt && b.k == kFloat && a.w == b.w {
		return in.tc.FFromBits(v.(*Term))
	}
	panic(unsupported(fmt.Sprintf("reinterpreting load %s as %s", c.from, c.to)))
}

func (in *Interp) hdrStringV(d value, n int) value {
	if n == 0 {
		return ""
	}
	if h, ok := d.(*hdrData); ok {
		if h.str != nil && h.off+n > strLen(h.str) || h.str == nil && h.off+n > len(h.sl) {
			panic(&targetPanic{v: iface{in.prog.rtErr, "string view extends beyond data"}})
		}
		return in.hdrString(h, n)
	}
	panic(unsupported("string header with foreign data"))
}

// hdrCell is the address of a field of a header view of a string or slice.
type hdrCell struct {
	c *castptr
	f int
}

// hdrWords are the words last written through a header view, and the value
// they gave.
type hdrWords struct {
	w   [3]value
	was value
}

// sameWords: two strings or slices with the same header.
func sameWords(a, b value) bool {
	x, ok := a.([]value)
	y, ok2 := b.([]value)
	if ok && ok2 {
		return len(x) == len(y) && cap(x) == cap(y) && (cap(x) == 0 || &x[:1][0] == &y[:1][0])
	}
	return !ok && !ok2 && a == b
}

func (in *Interp) hdrWordsOf(c *castptr) [3]value {
	v := in.load(c.p, c.from)
	if p, ok := c.p.(*value); ok {
		if h := in.hdrs[p]; h != nil && sameWords(h.was, v) {
			return h.w
		}
	}
	var w [3]value
	for f := range w[:isHdr(c.to)] {
		w[f] = *in.castField1(c, f)
	}
	return w
}

func (in *Interp) hdrLoad(h *hdrCell) value { return in.hdrWordsOf(h.c)[h.f] }

// hdrStore writes a word. The string or slice changes as soon as its words
// make sense together.
func (in *Interp) hdrStore(h *hdrCell, x value) {
	p, ok := h.c.p.(*value)
	if !ok {
		panic(unsupported("store through a header view"))
	}
	n := &hdrWords{w: in.hdrWordsOf(h.c)}
	n.w[h.f] = x
	if v, ok := in.fromWords(n.w, isStr(h.c.from)); ok {
		in.storeTo(p, v)
	}
	n.was = in.load(p, h.c.from)
	old := in.hdrs[p]
	if in.hdrs == nil {
		in.hdrs = map[*value]*hdrWords{}
	}
	in.hdrs[p] = n
	in.onUndo(func() {
		if old == nil {
			delete(in.hdrs, p)
		} else {
			in.hdrs[p] = old
		}
	})
}

func (in *Interp) fromWords(w [3]value, str bool) (value, bool) {
	n := int(in.concretize(w[1].(*Term)))
	if str {
		if n == 0 {
			return "", true
		}
		h, ok := w[0].(*hdrData)
		if !ok || h.str != nil && h.off+n > strLen(h.str) || h.str == nil && h.off+n > len(h.sl) {
			return nil, false
		}
		return in.hdrString(h, n), true
	}
	cp := int(in.concretize(w[2].(*Term)))
	if n < 0 || cp < n {
		return nil, false
	}
	h, ok := w[0].(*hdrData)
	if !ok {
		t, ok := w[0].(*Term)
		return []value(nil), ok && t.isConst() && t.v == 0 && cp == 0
	}
	d := h.sl
	if h.str != nil {
		d = in.strView(h.str)
	}
	if h.off+cp > len(d) {
		return nil, false
	}
	return d[h.off : h.off+n : h.off+cp], true
}

// castField is the address of a field of a header view.
func (in *Interp) castField(c *castptr, f int) value {
	in.castField1(c, f)
	return &hdrCell{c, f}
}

func (in *Interp) castField1(c *castptr, f int) *value {
	v := in.load(c.p, c.from)
	p := new(value)
	if isHdr(c.to) >= 2 {
		switch {
		case isStr(c.from):
			switch f {
			case 0:
				if strLen(v) == 0 {
					*p = in.tc.BV(64, 0)
				} else {
					*p = in.strHdr(v)
				}
				return p
			case 1:
				*p = in.tc.BV(64, uint64(strLen(v)))
				return p
			}
		case infoOf(c.from).k == kSlice:
			s := v.([]value)
			switch f {
			case 0:
				if cap(s) == 0 {
					*p = in.tc.BV(64, 0)
				} else {
					*p = &hdrData{sl: s[:cap(s)]}
				}
				return p
			case 1:
				*p = in.tc.BV(64, uint64(len(s)))
				return p
			case 2:
				*p = in.tc.BV(64, uint64(cap(s)))
				return p
			}
		}
	}
	panic(unsupported(fmt.Sprintf("field %d of %s viewed as %s", f, c.from, c.to)))
}

func (in *Interp) castArray(c *castptr) []value {
	panic(unsupported(fmt.Sprintf("array view of %s as %s", c.from, c.to)))
}

// floatBits gives the IEEE bits of a float term. For symbolic floats a fresh
// bit-vector is constrained to denote the same float.
func (in *Interp) floatBits(t *Term) *Term {
	if t.isConst() {
		return in.tc.BV(t.w, t.v)
	}
	if t.op == OFFromBits {
		return t.a
	}
	in.uniq++
	v := in.freshVar(fmt.Sprintf("fbits%d", in.uniq), t.w)
	// value under the current model
	in.model[v.name] = in.ev.eval(t)
	in.addPC(in.tc.mk(termKey{op: OEqFP, a: in.tc.FFromBits(v), b: t}))
	return v
}

// strHdr is the data word of a string.
func (in *Interp) strHdr(s value) *hdrData {
	if y, ok := s.(*symStr); ok {
		return &hdrData{sl: in.strView(y)}
	}
	return &hdrData{str: s}
}

// hdrPtr is the address a data word holds.
func hdrPtr(h *hdrData) uptr {
	if h.str == nil && h.off < len(h.sl) {
		return uptr{p: &h.sl[h.off], t: types.Typ[types.Uint8]}
	}
	return uptr{p: h}
}
