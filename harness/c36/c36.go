// Package c36: the tree of file hashes as a container.
//
// replace: fs
//
// bound: CheckTree: every tree grown by up to 3 (thorough 4) insertions (any parent, any index -1..len) with arbitrary sizes and hashes of one byte, then one child removed, the children of a node sorted or a subtree attached; CheckWalk: every walk of 6 (thorough 8) Next/Prev steps over every tree of up to 4 nodes; CheckSlice: slices of 0..3 (thorough 0..4) nodes, then 2 (thorough 3) arbitrary operations with every index, or of 6, 7, 8, 17 nodes and 1 operation; CheckSort: 0..4 (thorough 5) nodes; CheckOrder: three arbitrary hashes of 0, 1, 2 or 33 bytes; CheckNames: names of 0..8 arbitrary bytes
package c36

import (
	"github.com/vipally/gx/fs"

	"verif/sym"
)

type mn struct {
	n  *fs.FileHashTreeNode
	v  fs.FileHash
	ch []*mn
}

func (m *mn) all() []*mn {
	r := []*mn{m}
	for _, c := range m.ch {
		r = append(r, c.all()...)
	}
	return r
}

var names = "abcdefghijklmnop"
var next int

// val has a path of its own.
func val() fs.FileHash {
	next++
	return fs.FileHash{Path: names[next-1 : next], Hash: sym.String("hash", 1), Size: fs.FileSize(sym.Uint64("size")), IsDir: sym.Bool("dir")}
}

func same(a, b fs.FileHash) bool {
	return sym.And(sym.And(a.Path == b.Path, a.IsDir == b.IsDir), sym.And(a.Size == b.Size, sym.EqBytes([]byte(a.Hash), []byte(b.Hash))))
}

// less is the documented order: by size, then by hash.
func less(a, b fs.FileHash) bool {
	return sym.Or(a.Size < b.Size, sym.And(a.Size == b.Size, a.Hash < b.Hash))
}

func grow(k int) *mn {
	root := &mn{n: &fs.FileHashTreeNode{}}
	for ; k > 0; k-- {
		nodes := root.all()
		p := nodes[sym.Choice("parent", len(nodes))]
		i := sym.Choice("idx", len(p.ch)+2) - 1
		v := val()
		n := &mn{n: p.n.AddChild(v, i), v: v}
		if i < 0 || i > len(p.ch) {
			i = len(p.ch)
		}
		ch := append([]*mn(nil), p.ch[:i]...)
		p.ch = append(append(ch, n), p.ch[i:]...)
	}
	return root
}

func (m *mn) check(where string) {
	nodes := m.all()
	list := m.n.All()
	sym.Assert(len(list) == len(nodes), where+": All has every node once")
	for i, x := range nodes {
		sym.Assert(same(list[i], x.v), where+": All is in pre-order")
		sym.Assert(x.n.NumChildren() == len(x.ch) && len(x.n.Children()) == len(x.ch), where+": NumChildren counts")
		for k, c := range x.ch {
			g, ok := x.n.GetChild(k)
			sym.Assert(ok && g == c.n && x.n.Children()[k] == c.n, where+": children are in order")
		}
		_, ok := x.n.GetChild(len(x.ch))
		_, ok2 := x.n.GetChild(-1)
		sym.Assert(!ok && !ok2, where+": no child outside")
	}
	v := m.n.Visitor()
	for _, x := range nodes {
		sym.Assert(v.Next(), where+": the visitor reaches every node")
		sym.Assert(same(v.Get(), x.v), where+": the visitor goes in pre-order")
	}
	sym.Assert(!v.Next(), where+": the visitor stops after the last node")
	v = m.n.Visitor()
	for i := len(nodes) - 1; i >= 0; i-- {
		sym.Assert(v.Prev(), where+": the visitor reaches every node backwards")
		sym.Assert(same(v.Get(), nodes[i].v), where+": backwards is reverse pre-order")
	}
	sym.Assert(!v.Prev(), where+": the visitor stops before the root")
}

func CheckTree() { ops(grow(sym.Choice("k", 1+sym.Bound(3, 4)))) }

// CheckLarge: a larger tree, one of whose sizes is arbitrary.
//
// bound: CheckLarge: wide, deep, comb and binary trees of 6, 9, 17, 33 (thorough also 64) nodes with fixed values and one arbitrary size, the same operations as CheckTree
func CheckLarge() {
	ops(shaped([]int{6, 9, 17, 33, 64}[sym.Choice("n", sym.Bound(4, 5))]))
}

func shaped(n int) *mn {
	shape := sym.Choice("shape", 4)
	root := &mn{n: &fs.FileHashTreeNode{}}
	l := []*mn{root}
	for i := 1; i < n; i++ {
		p := root
		switch shape {
		case 1: // a chain
			p = l[i-1]
		case 2: // a comb
			p = l[(i-1)/2*2]
		case 3: // binary
			p = l[(i-1)/2]
		}
		v := fs.FileHash{Path: names[i%16 : i%16+1], Hash: names[i*5%16 : i*5%16+1], Size: fs.FileSize(i * 7 % 10), IsDir: i%3 == 0}
		if i == n/2 {
			v.Size = fs.FileSize(sym.Uint64("size"))
		}
		c := &mn{n: p.n.AddChild(v, -1), v: v}
		p.ch = append(p.ch, c)
		l = append(l, c)
	}
	return root
}

// CheckTurn: visitors that turn round twice anywhere in a larger tree, two at
// a time, beginning at the root or below it.
//
// bound: CheckTurn: the trees of CheckLarge of 6, 9, 14 (thorough also 25) nodes, every pair of places to turn round in, from the root or one of the next two nodes
func CheckTurn() {
	t := shaped([]int{6, 9, 14, 25}[sym.Choice("n", sym.Bound(3, 4))])
	t = t.all()[sym.Choice("from", 3)]
	nodes := t.all()
	k := sym.Choice("turn", len(nodes))
	j := sym.Choice("back", k+1)
	v, w := t.n.Visitor(), t.n.Visitor()
	at, bt := -1, len(nodes)
	for i := 0; i <= k; i++ {
		at++
		sym.Assert(v.Next() && same(v.Get(), nodes[at].v), "Next goes to the following node")
		bt--
		sym.Assert(w.Prev() && same(w.Get(), nodes[bt].v), "Prev goes to the preceding node")
	}
	for i := 0; i < j; i++ {
		at--
		sym.Assert(v.Prev() && same(v.Get(), nodes[at].v), "Prev goes back to the preceding node")
		bt++
		sym.Assert(w.Next() && same(w.Get(), nodes[bt].v), "Next goes forth to the following node")
	}
	for at++; at < len(nodes); at++ {
		sym.Assert(v.Next() && same(v.Get(), nodes[at].v), "Next goes on to the following node")
	}
	sym.Assert(!v.Next(), "Next ends after the last node")
	for bt--; bt >= 0; bt-- {
		sym.Assert(w.Prev() && same(w.Get(), nodes[bt].v), "Prev goes on to the preceding node")
	}
	sym.Assert(!w.Prev(), "Prev ends before the first node")
	sym.Cover("done")
}

func ops(t *mn) {
	t.check("growing")
	nodes := t.all()
	x := nodes[sym.Choice("node", len(nodes))]
	switch sym.Choice("op", 4) {
	case 0:
		i := sym.Choice("child", len(x.ch)+2) - 1
		c, ok := x.n.RemoveChild(i)
		sym.Assert(ok == (i >= 0 && i < len(x.ch)), "RemoveChild ok iff the index is inside")
		if ok {
			sym.Assert(c == x.ch[i].n, "RemoveChild returns the child")
			sub := x.ch[i]
			x.ch = append(append([]*mn(nil), x.ch[:i]...), x.ch[i+1:]...)
			sub.check("RemoveChild (removed part)")
		}
		t.check("RemoveChild")
	case 1:
		x.n.SortChildren()
		var ch []*mn
		for _, c := range x.n.Children() {
			for _, o := range x.ch {
				if o.n == c {
					ch = append(ch, o)
				}
			}
		}
		sym.Assert(len(ch) == len(x.ch), "SortChildren keeps the children")
		for i := 1; i < len(ch); i++ {
			sym.Assert(ch[i] != ch[i-1] && !less(ch[i].v, ch[i-1].v), "SortChildren orders by size and hash")
			sym.Assert(ch[i-1].n.Less(ch[i].n) == less(ch[i-1].v, ch[i].v), "Less compares sizes and hashes")
		}
		x.ch = ch
		t.check("SortChildren")
	case 2: // attach a whole subtree
		sub := grow(1)
		i := sym.Choice("idx", len(x.ch)+1)
		sym.Assert(x.n.AddChildNode(sub.n, i) == sub.n, "AddChildNode returns the node")
		ch := append([]*mn(nil), x.ch[:i]...)
		x.ch = append(append(ch, sub), x.ch[i:]...)
		t.check("AddChildNode")
	case 3:
		x.check("a part of the tree")
	}
	sym.Cover("done")
}

func CheckWalk() {
	t := grow(sym.Choice("k", 4))
	nodes := t.all()
	v := t.n.Visitor()
	at := -1 // before the first step
	for i := sym.Bound(6, 8); i > 0; i-- {
		if sym.Choice("step", 2) == 0 {
			ok := v.Next()
			at++
			sym.Assert(ok == (at < len(nodes)), "Next ok iff there is a following node")
		} else {
			ok := v.Prev()
			if at == -1 {
				at = len(nodes)
			}
			at--
			sym.Assert(ok == (at >= 0), "Prev ok iff there is a preceding node")
		}
		if at < 0 || at >= len(nodes) {
			break
		}
		sym.Assert(same(v.Get(), nodes[at].v), "the visitor is a cursor over the pre-order sequence")
	}
	sym.Cover("done")
}

func eq(s *fs.FileHashSortSlice, m []*fs.FileHashTreeNode, where string) {
	sym.Assert(s.Len() == len(m) && len(s.Buffer()) == len(m), where+": the slice counts its elements")
	for i, n := range m {
		g, ok := s.Get(i)
		sym.Assert(ok && g == n && s.Buffer()[i] == n && s.MustGet(i) == n, where+": the elements are in order")
	}
	for _, i := range []int{-1, len(m), len(m) + 1} {
		_, ok := s.Get(i)
		i := i
		sym.Assert(!ok && sym.Panics(func() { s.MustGet(i) }), where+": no element outside")
	}
}

func CheckSlice() {
	parent := &fs.FileHashTreeNode{}
	s := fs.NewFileHashSortSlice(sym.Choice("cap", 2) * 4)
	var m []*fs.FileHashTreeNode
	node := func() *fs.FileHashTreeNode { return parent.AddChild(fs.FileHash{}, -1) }
	cnt, most := sym.Choice("n", sym.Bound(4, 5)+4), sym.Bound(2, 3)
	if big := cnt - sym.Bound(4, 5); big >= 0 {
		cnt, most = []int{6, 7, 8, 17}[big], 1
	}
	for i := cnt; i > 0; i-- {
		n := node()
		m = append(m, n)
		sym.Assert(s.Push(n) == len(m), "Push returns the length")
	}
	eq(s, m, "filling")
	for k := most; k > 0; k-- {
		switch sym.Choice("op", 5) {
		case 0:
			n := node()
			i := sym.Choice("idx", len(m)+4) - 2
			at := i
			if i < 0 || i > len(m) {
				at = len(m)
			}
			r := append([]*fs.FileHashTreeNode(nil), m[:at]...)
			m = append(append(r, n), m[at:]...)
			sym.Assert(s.Insert(n, i) == len(m), "Insert returns the length")
			eq(s, m, "Insert")
		case 1:
			i := sym.Choice("idx", len(m)+4) - 2
			r, ok := s.Remove(i)
			sym.Assert(ok == (i >= 0 && i < len(m)), "Remove ok iff inside")
			if ok {
				sym.Assert(r == m[i], "Remove returns the element")
				m = append(append([]*fs.FileHashTreeNode(nil), m[:i]...), m[i+1:]...)
			}
			eq(s, m, "Remove")
		case 2:
			r, ok := s.Pop()
			sym.Assert(ok == (len(m) > 0), "Pop ok iff non-empty")
			if ok {
				sym.Assert(r == m[len(m)-1], "Pop returns the last")
				m = m[:len(m)-1]
			}
			eq(s, m, "Pop")
		case 3:
			if len(m) > 0 {
				i, j := sym.Choice("i", len(m)), sym.Choice("j", len(m))
				s.Swap(i, j)
				m[i], m[j] = m[j], m[i]
				eq(s, m, "Swap")
			}
		case 4:
			s.Init(sym.Choice("recap", 2) * 30)
			m = nil
			eq(s, m, "Init")
		}
	}
	sym.Cover("done")
}

func CheckSort() {
	n := sym.Choice("n", sym.Bound(5, 6))
	var in []fs.FileHash
	for ; n > 0; n-- {
		in = append(in, val())
	}
	sorted(in)
}

// CheckDeep: more elements, one of them arbitrary.
//
// bound: CheckDeep: 12, 13, 33, 60 (thorough also 100) nodes of which 1 arbitrary, few or many sizes and hashes
func CheckDeep() {
	n := []int{12, 13, 33, 60, 100}[sym.Choice("n", sym.Bound(4, 5))]
	step, many := []int{1, 5, n - 1}[sym.Choice("step", 3)], []int{2, 7, 1000}[sym.Choice("many", 3)]
	var in []fs.FileHash
	for i := 0; i < n; i++ {
		k := i*step%n + 3
		in = append(in, fs.FileHash{Path: names[i%16 : i%16+1], Hash: names[k*5%16 : k*5%16+1], Size: fs.FileSize(k % many)})
	}
	in[n/2] = val()
	sorted(in)
}

func sorted(in []fs.FileHash) {
	parent := &fs.FileHashTreeNode{}
	s := fs.NewFileHashSortSlice(0)
	vals := map[*fs.FileHashTreeNode]fs.FileHash{}
	for _, v := range in {
		n := parent.AddChild(v, -1)
		s.Push(n)
		vals[n] = v
	}
	s.Sort()
	sym.Assert(s.Len() == len(vals), "Sort keeps the number of elements")
	seen := map[*fs.FileHashTreeNode]bool{}
	var last *fs.FileHashTreeNode
	for i, n := range s.Buffer() {
		_, ok := vals[n]
		sym.Assert(ok && !seen[n], "Sort keeps the elements")
		seen[n] = true
		if i > 0 {
			sym.Assert(!less(vals[n], vals[last]), "Sort orders by size and hash")
			sym.Assert(s.Less(i-1, i) == less(vals[last], vals[n]), "Less compares the elements")
		}
		last = n
	}
	sym.Cover("done")
}

func CheckOrder() {
	mk := func() fs.FileHash {
		return fs.FileHash{Hash: sym.String("hash", []int{0, 1, 2, 33}[sym.Choice("len", 4)]), Size: fs.FileSize(sym.Uint64("size")), IsDir: sym.Bool("dir")}
	}
	a, b, c := mk(), mk(), mk()
	sym.Assert(a.Less(b) == less(a, b), "Less is by size, then by hash")
	sym.Assert(!a.Less(a), "irreflexive")
	sym.Assert(!(a.Less(b) && b.Less(a)), "asymmetric")
	sym.Assert(!(a.Less(b) && b.Less(c)) || a.Less(c), "transitive")
	p := &fs.FileHashTreeNode{}
	x, y := p.AddChild(a, -1), p.AddChild(b, -1)
	l, g := fs.CmpFileHashLesser, fs.CmpFileHashGreater
	sym.Assert(x.Less(y) == less(a, b), "nodes compare as their hashes")
	sym.Assert(l.F(x, y) == less(a, b), "Lesser is the order")
	sym.Assert(g.F(x, y) == less(b, a), "Greater is the opposite order")
	for _, f := range []fs.CmpFileHash{l, g} {
		sym.Assert(f.Lesser() == l && f.Greater() == g, "Lesser and Greater do not depend on the receiver")
		sym.Assert(f.CreateByBool(true) == g && f.CreateByBool(false) == l, "CreateByBool: big first is Greater")
	}
}

func CheckNames() {
	s := sym.String("name", sym.Choice("len", 9))
	known := s == "" || s == "Lesser" || s == "Greater"
	var f fs.CmpFileHash
	p := sym.Panics(func() { f = fs.CreateCmpFileHash(s) })
	sym.Assert(p == !known, "only known names make a functor")
	if known {
		want := fs.CmpFileHashLesser
		if s == "Greater" {
			want = fs.CmpFileHashGreater
		}
		sym.Assert(f == want, "the name selects the functor")
		sym.Assert(fs.CreateCmpFileHash(f.String()) == f, "String names the functor")
	}
	sym.Cover("done")
}

// CheckSize: a file size keeps its value.
func CheckSize() {
	v := sym.Uint64("v")
	var s fs.FileSize
	s.Set(v)
	sym.Assert(s.N() == v && fs.FileSize(v).N() == v, "a file size keeps its value")
}

// CheckHuge: many nodes.
//
// bound: CheckHuge: the shapes of CheckLarge with 1100 (thorough also 4200) nodes, examined, then with a child removed
func CheckHuge() {
	t := shaped([]int{1100, 4200}[sym.Choice("n", sym.Bound(1, 2))])
	t.check("building")
	nodes := t.all()
	p := nodes[[]int{0, len(nodes) / 2, len(nodes) - 3}[sym.Choice("at", 3)]]
	if len(p.ch) > 0 {
		k := []int{0, len(p.ch) / 2, len(p.ch) - 1}[sym.Choice("child", 3)]
		c, ok := p.n.RemoveChild(k)
		sym.Assert(ok && c == p.ch[k].n, "RemoveChild gives the child")
		p.ch = append(p.ch[:k:k], p.ch[k+1:]...)
		t.check("RemoveChild")
	}
	sym.Cover("done")
}
