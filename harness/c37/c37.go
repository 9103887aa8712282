// Package c37: backtraces name the functions and lines that call.
//
// bound: call chains of 0..3 (thorough 0..5) frames, each of seven kinds chosen by the solver (plain, in a loop, small
// enough to be inlined, method, closure, before a call on the next line, last statement); every depth from 0 to 2^40
// replace: fs
package c37

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/vipally/gx/debug"
	"github.com/vipally/gx/fs"

	"verif/sym"
)

// at is where a frame is; chain holds them from the outermost on.
type at struct {
	fn, file string
	line     int
}

var (
	chain []at
	sink  int
	leaf  func(int)
)

// mark notes the line that calls it. It is called on the line whose other
// call is looked at.
func mark() int {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	f, _ := runtime.CallersFrames(pcs[:]).Next()
	chain = append(chain, at{f.Function, f.File, f.Line})
	return 0
}

func next(d int, _ int) {
	if d == 0 {
		leaf(mark())
		return
	}
	switch sym.Choice(fmt.Sprintf("kind%d", d), sym.Bound(6, 7)) {
	case 0:
		plain(d-1, mark())
	case 1:
		loop(d-1, mark())
	case 2:
		inlined(d-1, mark())
	case 3:
		(&obj{}).method(d-1, mark())
	case 4:
		twice(d-1, mark())
	case 5:
		inlined2(d-1, mark())
	default:
		closure(d-1, mark())
	}
}

//go:noinline
func plain(d int, _ int) {
	sink = d
	next(d, mark())
}

//go:noinline
func loop(d int, _ int) {
	for i := 0; i < 1; i++ {
		next(d, mark())
	}
	sink = d
}

func inlined(d int, _ int) { next(d, mark()) }

func inlined2(d int, _ int) {
	inlined(d, mark())
}

type obj struct{ n int }

//go:noinline
func (o *obj) method(d int, _ int) {
	o.n = d
	next(d, mark())
	sink = o.n
}

func small(a int) int { return a + 1 }

//go:noinline
func twice(d int, _ int) {
	next(d, mark())
	sink = small(
		d)
}

//go:noinline
func closure(d int, _ int) {
	f := func(_ int) {
		next(d, mark())
	}
	f(mark())
}

// run calls f at the end of a chain of calls; chain has every frame from
// here to f's caller.
func run(f func(int)) {
	leaf = f
	chain = chain[:0]
	next(sym.Choice("frames", sym.Bound(4, 6)), mark())
}

// frame is the i-th frame from the innermost.
func frame(i int) at { return chain[len(chain)-1-i] }

func fn(a at) string { return "Func{" + a.fn + "}" }

func fileLine(a at) string { return fmt.Sprintf("FileLine{%s : %d}", a.file, a.line) }

// CheckBt: the current function, file and line.
func CheckBt() {
	run(func(_ int) {
		back(mark())
		inner(mark())
	})
	sym.Cover("done")
}

//go:noinline
func back(_ int) {
	s, _ := debug.Bt(), mark()
	a := frame(0)
	sym.Assert(strings.HasPrefix(s, " "+fn(a)+" "+fileLine(a)+" pc{"), "Bt names the function and line that call it")
	s, _ = debug.BtFileLine(), mark()
	sym.Assert(s == " "+fileLine(frame(0)), "BtFileLine names the line that calls it")
	s, _ = debug.BtFunc(), mark()
	sym.Assert(s == " "+fn(frame(0)), "BtFunc names the function that calls it")
}

func inner(_ int) {
	s, _ := debug.Bt(), mark()
	a := frame(0)
	sym.Assert(strings.HasPrefix(s, " "+fn(a)+" "+fileLine(a)+" pc{"), "Bt names the inlined function and line that call it")
}

// CheckCaller: the functions and lines further out.
func CheckCaller() {
	depth := sym.IntRange("depth", 0, 1<<40)
	what := sym.Choice("what", 3)
	run(func(_ int) {
		s := ""
		switch what {
		case 0:
			s = caller(depth, mark())
		case 1:
			s = callerFileLine(depth, mark())
		case 2:
			s = callerFunc(depth, mark())
		}
		for i := 0; i < len(chain); i++ {
			if depth != i {
				continue
			}
			a := frame(i)
			switch what {
			case 0:
				sym.Assert(strings.HasPrefix(s, "Caller: "+fn(a)+" "+fileLine(a)+" pc{"), "Caller names the function and line asked for")
			case 1:
				sym.Assert(s == "Caller: "+fileLine(a), "CallerFileLine names the line asked for")
			case 2:
				sym.Assert(s == "Caller: "+fn(a), "CallerFunc names the function asked for")
			}
		}
		if depth > 1000 {
			sym.Assert(s == "", "there is nothing to say about callers that do not exist")
		}
	})
	sym.Cover("done")
}

func caller(depth, _ int) string { return debug.Caller(depth) }

func callerFileLine(depth, _ int) string {
	s := debug.CallerFileLine(depth)
	sink++
	return s
}

//go:noinline
func callerFunc(depth, _ int) string { return debug.CallerFunc(depth) }

func btsLine(i int, a at) string {
	return fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{", i, a.fn, a.file, a.line)
}

func listLine(i int, a at) string { return fn(a) + " " + fileLine(a) + " pc{" }

// listed: the listing has the frames of chain but for the innermost skip.
func listed(ls []string, skip int, line func(i int, a at) string) bool {
	for i := skip; i < len(chain); i++ {
		k := i - skip
		if k >= len(ls) || !strings.HasPrefix(ls[k], line(k, frame(i))) {
			return false
		}
	}
	return true
}

// CheckBts: the whole stack, innermost first.
func CheckBts() {
	run(func(_ int) {
		s, _ := debug.Bts(), mark()
		sym.Assert(listed(strings.Split(s, "\n"), 0, btsLine), "Bts names the function and line of every caller in order")
		sym.Assert(s[len(s)-1] == '\n', "every frame has its line")
		bts(mark())
	})
	sym.Cover("done")
}

func bts(_ int) {
	s, _ := debug.Bts(), mark()
	chain[len(chain)-3] = chain[len(chain)-2] // the mark of the first Bts
	chain[len(chain)-2] = chain[len(chain)-1]
	chain = chain[:len(chain)-1]
	sym.Assert(listed(strings.Split(s, "\n"), 0, btsLine), "Bts names the function and line of every caller in order, inlined or not")
}

// CheckList: the same as a list, from any depth.
func CheckList() {
	depth := sym.IntRange("depth", 0, 1<<40)
	run(func(_ int) {
		ls, _ := debug.CallStackList(depth+2), mark()
		for i := 0; i < len(chain); i++ {
			if depth == i {
				sym.Assert(listed(ls, i, listLine), "the list names the function and line of every caller in order from the frame asked for on")
			}
		}
		if depth > 1000 {
			sym.Assert(len(ls) == 0, "there is nothing to list beyond the stack")
		}
	})
	sym.Cover("done")
}

// CheckDeep: of a deep stack at least the innermost 50 frames are listed.
func CheckDeep() {
	n := sym.Choice("deep", 3)*12 + 10
	chain = chain[:0]
	f := func(_ int) {
		ls, cs, _ := strings.Split(debug.Bts(), "\n"), debug.CallStackList(2), mark()
		want := len(chain)
		if want > 50 {
			want = 50
		}
		ok := len(ls) > want && len(cs) >= want
		for i := 0; ok && i < want; i++ {
			ok = strings.HasPrefix(ls[i], btsLine(i, frame(i))) && strings.HasPrefix(cs[i], listLine(i, frame(i)))
		}
		sym.Assert(ok, "of a deep stack the innermost 50 frames are listed")
	}
	deep(n, f, mark())
	sym.Cover("done")
}

//go:noinline
func deep(n int, f func(int), _ int) {
	if n > 0 {
		deepCall(n, f, mark())
		sink++
		return
	}
	f(mark())
}

//go:noinline
func deepCall(n int, f func(int), _ int) {
	sink = n
	deep(n-1, f, mark())
}

// CheckInfo: the caller's own heading, in full.
func CheckInfo() {
	run(func(_ int) {
		head := "head" + string(rune('a'+sym.Choice("head", 3)))
		s, _ := debug.CallStackInfo(1, 4, head), mark()
		a := frame(0)
		sym.Assert(strings.HasPrefix(s, head+" "+fn(a)+" "+fileLine(a)+" pc{"), "CallStackInfo names the frame asked for after the heading")
	})
	sym.Cover("done")
}

// CheckAssert: panics when, and only when, the condition is false.
func CheckAssert() {
	b := sym.Bool("b")
	var r interface{}
	got := false
	run(func(_ int) {
		defer func() { r = recover() }()
		got = asserting(b, mark())
	})
	if b {
		sym.Assert(r == nil && got, "Assert lets a true condition pass and returns it")
	} else {
		s, ok := r.(string)
		sym.Assert(ok, "Assert panics with a message on a false condition")
		sym.Assert(strings.HasPrefix(s, "Assert fail\n"), "the message of Assert says so")
		// the frames of Assert itself come first
		i := strings.Index(s, " Func{verif/c37.asserting} File{")
		sym.Assert(i > 0, "the backtrace of Assert names the function that asserts")
		ls := strings.Split(s[i:], "\n")[1:]
		for k := range ls {
			if j := strings.IndexByte(ls[k], ' '); j > 0 {
				ls[k] = ls[k][j+1:]
			}
		}
		sym.Assert(listed(ls, 0, func(i int, a at) string { return btsLine(i, a)[len(fmt.Sprint("#", i))+1:] }), "the backtrace of Assert goes on with every caller and its line")
	}
	debug.Nothing(b, r)
	sym.Cover("done")
}

//go:noinline
func asserting(b bool, _ int) bool {
	r := debug.Assert(b)
	sink++
	return r
}

// CheckFileLine: the same questions asked of package fs.
func CheckFileLine() {
	run(func(_ int) {
		file, line := fs.FileLine(); mark()
		a := frame(0)
		sym.Assert(file == a.file && line == a.line, "FileLine is where it is called")
		file, line = fs.RelateFileLine(); mark()
		a = frame(0)
		sym.Assert(file == fs.RelateGoPath(a.file) && line == a.line, "RelateFileLine is where it is called, relative to the GOPATH")
		s, _ := fs.Func(), mark()
		a = frame(0)
		sym.Assert(s == fmt.Sprintf("%s : %d", a.fn, a.line), "Func is the function and line that call it")
		fileLineIn(mark())
	})
	sym.Cover("done")
}

func fileLineIn(_ int) {
	file, line := fs.FileLine(); mark()
	a := frame(0)
	s, _ := fs.Func(), mark()
	sym.Assert(file == a.file && line == a.line && s == fmt.Sprintf("%s : %d", frame(0).fn, frame(0).line), "FileLine and Func are about the function that calls them, inlined or not")
}
