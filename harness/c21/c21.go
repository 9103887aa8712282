// Package c21: copying to several destinations.
//
// bound: sources giving up to 3 (thorough 4) chunks of 0..2 bytes with an arbitrary content, ending in EOF or an error, with the last chunk or after it; 1..3 destinations, at most one (thorough: each) failing or writing short at an arbitrary call; buffers nil or of 1..3 bytes; readers with and without WriteTo
package c21

import (
	"bytes"
	"errors"
	"io"

	gxio "github.com/vipally/gx/io"

	"verif/sym"
)

var (
	errRead  = errors.New("read")
	errWrite = errors.New("write")
)

// src gives its chunks one by one, then its error.
type src struct {
	chunks [][]byte
	end    error
	joined bool // the error comes with the last chunk
	given  []byte
}

func (s *src) Read(p []byte) (int, error) {
	if len(s.chunks) == 0 {
		return 0, s.end
	}
	c := s.chunks[0]
	n := copy(p, c)
	s.given = append(s.given, c[:n]...)
	if n < len(c) {
		s.chunks[0] = c[n:]
		return n, nil
	}
	s.chunks = s.chunks[1:]
	if len(s.chunks) == 0 && s.joined {
		return n, s.end
	}
	return n, nil
}

// dst takes everything until its bad call.
type dst struct {
	got   []byte
	calls int
	bad   int // the call that goes wrong, -1: none
	kind  int // 0: error, 1: short write, 2: error after everything
	hit   bool
	err   error // the error, if not errWrite
}

func (d *dst) fail() error {
	if d.err != nil {
		return d.err
	}
	return errWrite
}

func (d *dst) Write(p []byte) (int, error) {
	k := d.calls
	d.calls++
	if k == d.bad && len(p) > 0 {
		d.hit = true
		switch d.kind {
		case 0:
			return 0, d.fail()
		case 1:
			d.got = append(d.got, p[:len(p)-1]...)
			return len(p) - 1, nil
		default:
			d.got = append(d.got, p...)
			return len(p), d.fail()
		}
	}
	d.got = append(d.got, p...)
	return len(p), nil
}

func dsts(n int, bad bool) ([]*dst, []io.Writer) {
	var ds []*dst
	var ws []io.Writer
	who := -1
	if bad {
		who = sym.Choice("bad dst", n)
	}
	for i := 0; i < n; i++ {
		d := &dst{bad: -1}
		if i == who {
			d.bad = sym.Choice("bad call", 3)
			d.kind = sym.Choice("kind", 3)
		}
		ds = append(ds, d)
		ws = append(ws, d)
	}
	return ds, ws
}

func source() *src {
	s := &src{end: io.EOF}
	n := sym.Choice("chunks", sym.Bound(3, 4)+1)
	for i := 0; i < n; i++ {
		s.chunks = append(s.chunks, sym.Bytes("chunk", sym.Choice("chunk len", 3)))
	}
	s.joined = sym.Bool("joined")
	return s
}

func total(s *src) (t []byte) {
	for _, c := range s.chunks {
		t = append(t, c...)
	}
	return
}

func run(s io.Reader, ws []io.Writer) (int64, error) {
	k := sym.Choice("buf", 4)
	if k == 0 {
		return gxio.Copys(s, ws...)
	}
	if k == 1 {
		return gxio.CopysBuffer(s, nil, ws...)
	}
	return gxio.CopysBuffer(s, make([]byte, k-1), ws...)
}

// CheckAll: when nothing fails, every destination gets everything.
func CheckAll() {
	s := source()
	t := total(s)
	ds, ws := dsts(1+sym.Choice("dsts", 3), false)
	n, err := run(s, ws)
	sym.Assert(err == nil, "no failure is reported")
	sym.Assert(n == int64(len(t)), "the number of bytes of the source is returned")
	for _, d := range ds {
		sym.Assert(sym.EqBytes(d.got, t), "every destination gets the whole source")
	}
	sym.Cover("done")
}

// CheckReadError: what was read before the failure is delivered, and the
// failure reported.
func CheckReadError() {
	s := source()
	s.end = errRead
	t := total(s)
	ds, ws := dsts(1+sym.Choice("dsts", 2), false)
	n, err := run(s, ws)
	sym.Assert(err == errRead, "the failure of the source is reported")
	sym.Assert(n == int64(len(t)), "the bytes read before the failure are counted")
	for _, d := range ds {
		sym.Assert(sym.EqBytes(d.got, t), "every destination gets what was read")
	}
	sym.Cover("done")
}

// CheckWriteError: a failing or short write is reported and ends the copy.
func CheckWriteError() {
	s := source()
	t := total(s)
	ds, ws := dsts(1+sym.Choice("dsts", 3), true)
	n, err := run(s, ws)
	hit := false
	for _, d := range ds {
		if d.hit {
			hit = true
			if d.kind == 1 {
				sym.Assert(err == io.ErrShortWrite, "a short write is reported")
			} else {
				sym.Assert(err == errWrite, "the failure of a destination is reported")
			}
			sym.Assert(d.calls == d.bad+1, "nothing more is written to it")
		}
	}
	if !hit {
		sym.Assert(err == nil, "no failure is reported")
	}
	most := 0
	for _, d := range ds {
		if len(d.got) > most {
			most = len(d.got)
		}
	}
	sym.Assert(0 <= n && n <= int64(most), "no more bytes are counted than were written")
	for _, d := range ds {
		sym.Assert(len(d.got) <= len(t) && sym.EqBytes(d.got, t[:len(d.got)]), "a destination holds a prefix of the source")
		if !hit {
			sym.Assert(len(d.got) == len(t), "every destination gets the whole source")
		}
	}
	sym.Cover("done")
}

// wsrc offers WriteTo: one write per chunk.
type wsrc struct{ src }

func (s *wsrc) WriteTo(w io.Writer) (n int64, err error) {
	for _, c := range s.chunks {
		m, e := w.Write(c)
		n += int64(m)
		if e != nil {
			return n, e
		}
		if m != len(c) {
			return n, io.ErrShortWrite
		}
	}
	s.chunks = nil
	if s.end != io.EOF {
		err = s.end
	}
	return
}

// CheckWriterTo: the same for a source that writes itself.
func CheckWriterTo() {
	w := &wsrc{*source()}
	t := total(&w.src)
	bad := sym.Choice("bad", 2) == 1
	ds, ws := dsts(1+sym.Choice("dsts", 3), bad)
	n, err := run(w, ws)
	hit := false
	for _, d := range ds {
		if d.hit {
			hit = true
			if d.kind == 1 {
				sym.Assert(err == io.ErrShortWrite, "a short write is reported")
			} else {
				sym.Assert(err == errWrite, "the failure of a destination is reported")
			}
		}
	}
	for _, d := range ds {
		if hit {
			sym.Assert(len(d.got) <= len(t) && sym.EqBytes(d.got, t[:len(d.got)]), "a destination holds a prefix of the source")
		} else {
			sym.Assert(err == nil && n == int64(len(t)) && sym.EqBytes(d.got, t), "every destination gets the whole source")
		}
	}
	sym.Cover("done")
}

// CheckBuffers: a bytes.Buffer, the source with WriteTo at hand most often.
func CheckBuffers() {
	t := sym.Bytes("data", sym.Choice("len", 4))
	var a, b, c bytes.Buffer
	n, err := run(bytes.NewBuffer(append([]byte(nil), t...)), []io.Writer{&a, &b, &c})
	sym.Assert(err == nil && n == int64(len(t)), "everything is copied")
	sym.Assert(sym.EqBytes(a.Bytes(), t) && sym.EqBytes(b.Bytes(), t) && sym.EqBytes(c.Bytes(), t), "every destination gets the whole source")
	sym.Cover("done")
}

// CheckBig: sources larger than the buffers.
//
// bound: CheckBig: sources of 32768, 32769, 70000 bytes of which 4 arbitrary in chunks of 5000, 32768 or all; 2 destinations, of which one may fail or write short at the first three calls; the default buffer or one of 700 or 40000 bytes; with and without WriteTo
func CheckBig() {
	n := []int{32768, 32769, 70000}[sym.Choice("n", 3)]
	t := make([]byte, n)
	for i := range t {
		t[i] = byte(i*7 + i>>8)
	}
	copy(t[n/2:], sym.Bytes("data", 3))
	t[n-1] = sym.Byte("last")
	step := []int{5000, 32768, n}[sym.Choice("step", 3)]
	s := &src{end: io.EOF, joined: sym.Choice("joined", 2) == 1}
	for i := 0; i < n; i += step {
		j := i + step
		if j > n {
			j = n
		}
		s.chunks = append(s.chunks, t[i:j])
	}
	ds, ws := dsts(2, sym.Choice("bad", 2) == 1)
	var from io.Reader = s
	if sym.Choice("writes itself", 2) == 1 {
		from = &wsrc{*s}
	}
	var m int64
	var err error
	switch k := sym.Choice("buf", 3); k {
	case 0:
		m, err = gxio.Copys(from, ws...)
	default:
		m, err = gxio.CopysBuffer(from, make([]byte, []int{700, 40000}[k-1]), ws...)
	}
	if !ds[0].hit && !ds[1].hit {
		sym.Assert(err == nil && m == int64(n), "everything is copied")
		for _, d := range ds {
			sym.Assert(len(d.got) == n && sym.EqBytes(d.got, t), "every destination gets the whole source")
		}
	} else {
		sym.Assert(err != nil, "the failure of a destination is reported")
		for _, d := range ds {
			sym.Assert(len(d.got) <= n && sym.EqBytes(d.got, t[:len(d.got)]), "a destination holds a prefix of the source")
		}
	}
	sym.Cover("done")
}

// CheckMany: any number of destinations, and failures of any name.
//
// bound: CheckMany: 4, 9, 20 and 70 destinations, the source of 2 chunks of 2 arbitrary bytes; the source, or the first, a middle or the last destination failing with one of 6 well-known errors; with and without WriteTo
func CheckMany() {
	s := &src{end: io.EOF, joined: sym.Choice("joined", 2) == 1}
	s.chunks = [][]byte{sym.Bytes("chunk", 2), sym.Bytes("then", 2)}
	t := total(s)
	k := []int{4, 9, 20, 70}[sym.Choice("dsts", 4)]
	var ds []*dst
	var ws []io.Writer
	for i := 0; i < k; i++ {
		d := &dst{bad: -1}
		ds, ws = append(ds, d), append(ws, d)
	}
	var want error
	who := sym.Choice("bad", 5)
	switch who {
	case 0:
	case 1:
		s.end = []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, errRead}[sym.Choice("error", 6)]
		want = s.end
	default:
		d := ds[[]int{0, k / 2, k - 1}[who-2]]
		d.bad = sym.Choice("bad call", 2)
		d.kind = 2 * sym.Choice("kind", 2)
		d.err = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortWrite, errWrite}[sym.Choice("error", 6)]
		want = d.err
	}
	var from io.Reader = s
	if sym.Choice("writes itself", 2) == 1 {
		from = &wsrc{*s}
	}
	var n int64
	var err error
	if sym.Choice("buf", 2) == 0 {
		n, err = gxio.Copys(from, ws...)
	} else {
		n, err = gxio.CopysBuffer(from, make([]byte, 3), ws...)
	}
	sym.Assert(err == want, "a failure is reported, and none made up")
	if who < 2 {
		sym.Assert(n == int64(len(t)), "the number of bytes of the source is returned")
	}
	for _, d := range ds {
		sym.Assert(len(d.got) <= len(t) && sym.EqBytes(d.got, t[:len(d.got)]), "a destination holds a prefix of the source")
		if who < 2 {
			sym.Assert(len(d.got) == len(t), "every destination gets the whole source")
		}
	}
	sym.Cover("done")
}
