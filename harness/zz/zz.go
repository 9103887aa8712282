// Package zz tests the engine on what edits of /repo may use (not a check).
package zz

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"math/bits"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"

	"verif/sym"
)

func ints() []int {
	n := sym.Choice("n", 4)
	r := make([]int, n)
	for i := range r {
		r[i] = sym.IntRange("x", 0, 3)
	}
	return r
}

func eq(a, b []int) bool { return slices.Equal(a, b) }

func CheckSlices() {
	a := ints()
	b := slices.Clone(a)
	slices.Reverse(b)
	slices.Reverse(b)
	sym.Assert(eq(a, b), "reverse")
	b = slices.Insert(b, 0, 7, 8)
	sym.Assert(b[1] == 8 && len(b) == len(a)+2, "insert")
	b = slices.Delete(b, 0, 2)
	sym.Assert(eq(a, b), "delete")
	sym.Assert(slices.Contains(append(b, 9), 9), "contains")
	sym.Assert(slices.Index(append([]int{5}, b...), 5) == 0, "index")
	b = slices.Grow(b, 10)
	b = slices.Clip(b)
	sym.Assert(eq(a, b), "grow")
	slices.Sort(b)
	sym.Assert(slices.IsSorted(b), "sorted")
	slices.SortStableFunc(b, func(x, y int) int { return cmp.Compare(y, x) })
	sym.Assert(len(b) < 2 || b[0] >= b[len(b)-1], "down")
	if len(b) > 0 {
		sym.Assert(slices.Max(b) == b[0] && slices.Min(b) == b[len(b)-1], "max")
	}
	c := slices.Concat(a, b)
	sym.Assert(len(c) == 2*len(a), "concat")
	i, ok := slices.BinarySearch([]int{1, 2, 3}, sym.IntRange("k", 1, 3))
	sym.Assert(ok && i < 3, "search")
	d := slices.Replace([]int{1, 2, 3}, 0, 1, 4, 5)
	sym.Assert(eq(d, []int{4, 5, 2, 3}), "replace")
	e := slices.Compact([]int{1, 1, 2})
	sym.Assert(len(e) == 2, "compact")
	f := slices.DeleteFunc([]int{1, 2, 3}, func(x int) bool { return x == 2 })
	sym.Assert(len(f) == 2, "deletefunc")
	clear(f)
	sym.Assert(f[0] == 0, "clear")
}

func CheckSort() {
	a := ints()
	sort.Ints(a)
	sym.Assert(sort.IntsAreSorted(a), "ints")
	sort.Sort(sort.Reverse(sort.IntSlice(a)))
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sym.Assert(sort.SliceIsSorted(a, func(i, j int) bool { return a[i] < a[j] }), "slice")
	sort.SliceStable(a, func(i, j int) bool { return a[i] > a[j] })
	i := sort.Search(len(a), func(i int) bool { return a[i] < 2 })
	sym.Assert(i == len(a) || a[i] < 2, "search")
	sort.Stable(sort.IntSlice(a))
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func CheckContainers() {
	a := ints()
	h := &ih{}
	for _, x := range a {
		heap.Push(h, x)
	}
	heap.Init(h)
	last := -1
	for h.Len() > 0 {
		x := heap.Pop(h).(int)
		sym.Assert(x >= last, "heap")
		last = x
	}
	l := list.New()
	for _, x := range a {
		l.PushBack(x)
	}
	n := 0
	for e := l.Front(); e != nil; e = e.Next() {
		sym.Assert(e.Value.(int) == a[n], "list")
		n++
	}
}

func CheckStrings() {
	s := sym.String("s", 3)
	for i := range 3 {
		sym.Assume(s[i] >= 'a' && s[i] <= 'd' || s[i] == '=')
	}
	k, v, ok := strings.Cut(s, "=")
	if ok {
		sym.Assert(k+"="+v == s, "cut")
	} else {
		sym.Assert(k == s && strings.IndexByte(s, '=') < 0, "nocut")
	}
	sym.Assert(strings.Join(strings.Split(s, "="), "=") == s, "split")
	sym.Assert(strings.Contains(s, "=") == ok, "contains")
	sym.Assert(strings.ToLower(strings.ToUpper(s)) == s, "case")
	sym.Assert(strings.HasPrefix("x"+s, "x") && strings.TrimPrefix("x"+s, "x") == s, "prefix")
	sym.Assert(strings.TrimSpace(" "+s+"\n") == s, "trim")
	sym.Assert(strings.Repeat(s, 2) == s+s, "repeat")
	sym.Assert(strings.Replace(s, "=", "=", -1) == s, "replace")
	sym.Assert(strings.EqualFold(s, strings.ToUpper(s)), "fold")
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	sym.Assert(b.String() == s && b.Len() == 3, "builder")
	sym.Assert(len(strings.Fields(" "+s+" ")) == 1, "fields")
	sym.Assert(len(strings.FieldsFunc(s, func(r rune) bool { return r == '=' })) <= 2, "fieldsfunc")
	sym.Assert(strings.Map(func(r rune) rune { return r }, s) == s, "map")
	sym.Assert(strings.TrimLeft(s, "=abcd") == "", "trimleft")
	sym.Assert(strings.LastIndex(s, "=") >= strings.Index(s, "="), "lastindex")
	sym.Assert(strings.Count(s, "=") <= 3, "count")
	r := strings.NewReader(s)
	x, err := io.ReadAll(r)
	sym.Assert(err == nil && string(x) == s, "reader")
	sym.Assert(unicode.IsLetter(rune(s[0])) == (s[0] != '='), "letter")
	sym.Assert(strings.NewReplacer("=", ":").Replace(s) != "", "replacer")
	sym.Assert(strings.Compare(s, s) == 0, "compare")
	sym.Assert(strings.SplitN(s, "=", 2)[0] == k, "splitn")
	sym.Assert(strings.TrimFunc(s, unicode.IsSpace) == s, "trimfunc")
	sym.Assert(strings.TrimRight(s+"  ", " ") == s, "trimright")
	sym.Assert(strings.ContainsRune(s, '=') == ok, "rune")
	sym.Assert(strings.ContainsAny(s, "=") == ok, "any")
}

func CheckBytes() {
	d := sym.Bytes("d", 3)
	sym.Assert(bytes.Equal(bytes.Clone(d), d), "clone")
	sym.Assert(bytes.Compare(d, d) == 0, "compare")
	sym.Assert(bytes.HasPrefix(d, d[:1]), "prefix")
	sym.Assert(bytes.Equal(bytes.TrimSuffix(append(bytes.Clone(d), 7, 8), []byte{7, 8}), d), "suffix")
	sym.Assert(bytes.Equal(bytes.Repeat(d[:1], 2)[1:], d[:1]), "repeat")
	var b bytes.Buffer
	b.Write(d)
	b.WriteByte(9)
	fmt.Fprintf(&b, "%d", 12)
	x := make([]byte, 3)
	n, err := io.ReadFull(&b, x)
	sym.Assert(n == 3 && err == nil && bytes.Equal(x, d), "buffer")
	sym.Assert(b.String() == "\t12", "rest")
	h := hex.EncodeToString(d)
	y, err := hex.DecodeString(h)
	sym.Assert(err == nil && bytes.Equal(y, d), "hex")
	sym.Assert(fmt.Sprintf("%x", d) == h, "%x")
	sym.Assert(bytes.Equal(bytes.Join([][]byte{d[:1], d[1:]}, nil), d), "join")
	sym.Assert(bytes.IndexByte(d, d[0]) == 0, "indexbyte")
	var w [8]byte
	v := sym.Uint64("v")
	binary.BigEndian.PutUint64(w[:], v)
	sym.Assert(binary.BigEndian.Uint64(w[:]) == v, "be")
	sym.Assert(len(binary.LittleEndian.AppendUint32(nil, uint32(v))) == 4, "le")
	sym.Assert(bits.OnesCount64(v) <= 64 && bits.Len64(v) <= 64, "ones")
	sym.Assert(bits.ReverseBytes64(bits.ReverseBytes64(v)) == v, "reverse")
	hi, lo := bits.Mul64(v, 2)
	sym.Assert(lo == v*2 && hi == v>>63, "mul64")
	_, c := bits.Add64(v, 1, 0)
	sym.Assert((c == 1) == (v == 1<<64-1), "add64")
	sym.Assert(bits.TrailingZeros64(v|1) == 0, "tz")
	sym.Assert(bits.LeadingZeros32(uint32(v)) <= 32, "lz")
}

func CheckIO() {
	d := sym.Bytes("d", 4)
	var a, b bytes.Buffer
	n, err := io.Copy(io.MultiWriter(&a, &b), bytes.NewReader(d))
	sym.Assert(n == 4 && err == nil && bytes.Equal(a.Bytes(), d) && bytes.Equal(b.Bytes(), d), "multi")
	var c bytes.Buffer
	x, err := io.ReadAll(io.TeeReader(bytes.NewReader(d), &c))
	sym.Assert(err == nil && bytes.Equal(x, d) && bytes.Equal(c.Bytes(), d), "tee")
	x, _ = io.ReadAll(io.LimitReader(bytes.NewReader(d), 2))
	sym.Assert(len(x) == 2, "limit")
	x, _ = io.ReadAll(io.MultiReader(bytes.NewReader(d), bytes.NewReader(d)))
	sym.Assert(len(x) == 8, "multireader")
	for i := range d {
		sym.Assume(d[i] == '\n' || d[i] == 'x' || d[i] == ';')
	}
	sc := bufio.NewScanner(bytes.NewReader(d))
	lines := 0
	for sc.Scan() {
		lines++
	}
	sym.Assert(lines >= 1 && lines <= 4, "scanner")
	br := bufio.NewReader(bytes.NewReader(d))
	total := 0
	for {
		l, err := br.ReadString('\n')
		total += len(l)
		if err != nil {
			break
		}
	}
	sym.Assert(total == 4, "readstring")
	var o bytes.Buffer
	w := bufio.NewWriter(&o)
	w.Write(d)
	w.Flush()
	sym.Assert(bytes.Equal(o.Bytes(), d), "writer")
	y := make([]byte, 2)
	_, err = io.ReadAtLeast(bytes.NewReader(d), y, 2)
	sym.Assert(err == nil, "atleast")
	_, err = io.WriteString(&o, "x")
	sym.Assert(err == nil, "writestring")
	_, err = io.CopyN(&o, bytes.NewReader(d), 3)
	sym.Assert(err == nil, "copyn")
	_, err = io.CopyBuffer(&o, bytes.NewReader(d), y)
	sym.Assert(err == nil, "copybuffer")
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my" + strconv.Itoa(e.n) }

func CheckErrors() {
	n := sym.IntRange("n", 0, 9)
	e := error(&myErr{n})
	w := fmt.Errorf("wrapped: %w", e)
	sym.Assert(errors.Is(w, e), "is")
	var m *myErr
	sym.Assert(errors.As(w, &m) && m.n == n, "as")
	j := errors.Join(e, io.EOF)
	sym.Assert(errors.Is(j, io.EOF), "join")
	sym.Assert(errors.Unwrap(w) == e, "unwrap")
	sym.Assert(w.Error() == "wrapped: my"+strconv.Itoa(n), "text")
}

func CheckMaps() {
	a := ints()
	m := map[int]int{}
	for i, x := range a {
		m[x] = i
	}
	ks := slices.Sorted(maps.Keys(m))
	sym.Assert(len(ks) == len(m), "keys")
	c := maps.Clone(m)
	sym.Assert(len(c) == len(m), "clone")
	sym.Assert(maps.Equal(c, m), "equal")
	maps.DeleteFunc(c, func(k, v int) bool { return true })
	sym.Assert(len(c) == 0, "deletefunc")
	clear(m)
	sym.Assert(len(m) == 0, "clear")
	sum := 0
	for x := range seq(a) {
		sum += x
	}
	t := 0
	for _, x := range a {
		t += x
	}
	sym.Assert(sum == t, "iterator")
	b := slices.Collect(seq(a))
	sym.Assert(eq(a, b), "collect")
	for i, x := range slices.Backward(a) {
		sym.Assert(a[i] == x, "backward")
	}
}

func seq(a []int) iter.Seq[int] {
	return func(yield func(int) bool) {
		for _, x := range a {
			if !yield(x) {
				return
			}
		}
	}
}

func CheckSync() {
	var o sync.Once
	n := 0
	o.Do(func() { n++ })
	o.Do(func() { n++ })
	sym.Assert(n == 1, "once")
	f := sync.OnceValue(func() int { n++; return n })
	sym.Assert(f() == 2 && f() == 2, "oncevalue")
	var m sync.Mutex
	sym.Assert(m.TryLock() && !m.TryLock(), "trylock")
	m.Unlock()
	var a atomic.Int32
	a.Store(3)
	sym.Assert(a.Add(2) == 5 && a.CompareAndSwap(5, 6) && a.Load() == 6 && a.Swap(1) == 6, "int32")
	var u atomic.Uint64
	u.Store(sym.Uint64("u"))
	sym.Assert(u.Load() == u.Swap(0), "uint64")
	var p atomic.Pointer[int]
	p.Store(&n)
	sym.Assert(p.Load() == &n, "pointer")
	var b atomic.Bool
	b.Store(true)
	sym.Assert(b.Load(), "bool")
	var v atomic.Value
	v.Store(n)
	sym.Assert(v.Load().(int) == 2, "value")
	var sm sync.Map
	sm.Store(1, 2)
	x, ok := sm.Load(1)
	sym.Assert(ok && x.(int) == 2, "map")
	y, loaded := sm.LoadOrStore(1, 3)
	sym.Assert(loaded && y.(int) == 2, "loadorstore")
	sm.Store(sym.IntRange("key", 1, 2), 5)
	cnt := 0
	sm.Range(func(k, v any) bool { cnt++; return true })
	sym.Assert(cnt == 1 || cnt == 2, "range")
	z, _ := sm.LoadAndDelete(1)
	sym.Assert(z.(int) == 2 || z.(int) == 5, "loadanddelete")
	_, ok = sm.Load(1)
	sym.Assert(!ok, "deleted")
	pl := sync.Pool{New: func() any { return new(int) }}
	sym.Assert(pl.Get().(*int) != nil, "pool")
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
}

func CheckFmt() {
	n := sym.IntRange("n", -12, 120)
	s := fmt.Sprint(n)
	k, err := strconv.Atoi(s)
	sym.Assert(err == nil && k == n, "atoi")
	sym.Assert(fmt.Sprintf("%03d|%v|%s|%q", n, true, "x", "y") == fmt.Sprintf("%03d", n)+`|true|x|"y"`, "sprintf")
	i, err := strconv.ParseInt(strconv.FormatInt(int64(n), 16), 16, 64)
	sym.Assert(err == nil && int(i) == n, "parseint")
	sym.Assert(string(strconv.AppendInt(nil, int64(n), 10)) == s, "append")
	sym.Assert(string(fmt.Appendf(nil, "%d", n)) == s, "appendf")
	sym.Assert(fmt.Sprintln("a", 1) == "a 1\n", "println")
	sym.Assert(fmt.Sprintf("%T", n) == "int", "%T")
	sym.Assert(fmt.Sprintf("%5.1f|%08b|%X|%c|%U|%+d", 1.25, 5, 255, 'x', 'x', 3) == "  1.2|00000101|FF|x|U+0078|+3", "verbs")
	sym.Assert(fmt.Sprintf("%v %+v", struct{ A, B int }{1, 2}, struct{ A int }{3}) == "{1 2} {A:3}", "struct")
	sym.Assert(fmt.Sprintf("%v", []int{1, 2}) == "[1 2]", "slice")
	sym.Assert(fmt.Sprintf("%v", map[string]int{"b": 1, "a": 2}) == "map[a:2 b:1]", "map")
	sym.Assert(fmt.Sprintf("%*d|%-5s|", 4, 7, "ab") == "   7|ab   |", "width")
	b, err := strconv.ParseBool("true")
	sym.Assert(b && err == nil, "bool")
	sym.Assert(strconv.Quote("a\n") == `"a\n"`, "quote")
}
