// Package c22: reading ini files.
//
// replace: encoding/ini
//
// bound: CheckText: every text of 3 (thorough 5) bytes, and every text of 3 (thorough 4) bytes after a section header; CheckLines: 2 (thorough 3) lines of 10 kinds with arbitrary names and values of one or two printable bytes and arbitrary blanks around them; CheckSequence: every sequence of 4 (thorough 5) lines of 6 kinds; CheckLong: a line of 4090..1100000 bytes; readers delivering everything at once, byte by byte or failing at an arbitrary point
package c22

import (
	"errors"
	"io"
	"strings"

	"github.com/vipally/gx/encoding/ini"

	"verif/sym"
	"verif/vos"
)

// reader gives text in pieces of step bytes, then its error.
type reader struct {
	text string
	step int
	end  error
}

func (r *reader) Read(p []byte) (int, error) {
	if r.text == "" {
		return 0, r.end
	}
	n := len(r.text)
	if r.step > 0 && r.step < n {
		n = r.step
	}
	n = copy(p, r.text[:n])
	r.text = r.text[n:]
	return n, nil
}

type pair struct{ sec, key, val string }

// ref is the meaning of a text: its sections and its values.
type ref struct {
	secs  []string
	pairs []pair
}

func (r *ref) open(sec string) {
	for _, s := range r.secs {
		if s == sec {
			return
		}
	}
	r.secs = append(r.secs, sec)
}

func (r *ref) set(sec, key, val string) {
	for i := range r.pairs {
		if r.pairs[i].sec == sec && r.pairs[i].key == key {
			r.pairs[i].val = val
			return
		}
	}
	r.pairs = append(r.pairs, pair{sec, key, val})
}

func parse(text string) *ref {
	r := &ref{}
	sec := ""
	for len(text) > 0 {
		line := text
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		line = strings.TrimSpace(line)
		if len(line) == 0 || line[0] == ';' {
			continue
		}
		if line[0] == '[' && line[len(line)-1] == ']' {
			sec = line[1 : len(line)-1]
			r.open(sec)
			continue
		}
		key, val := line, ""
		if i := strings.IndexByte(line, '='); i >= 0 {
			key, val = line[:i], line[i+1:]
		}
		key, val = strings.TrimSpace(key), strings.TrimSpace(val)
		if sec != "" && key != "" {
			r.set(sec, key, val)
		}
	}
	return r
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func compare(f *ini.IniFile, r *ref) {
	secs := f.Sections()
	sym.Assert(len(secs) == len(r.secs), "Sections lists every section once")
	for _, s := range r.secs {
		sym.Assert(has(secs, s), "Sections lists every section once")
		keys := f.Keys(s)
		n := 0
		for _, p := range r.pairs {
			if p.sec != s {
				continue
			}
			n++
			sym.Assert(has(keys, p.key), "Keys lists every key of the section once")
			sym.Assert(f.GetString(s, p.key, "def") == p.val, "GetString gives the last value of the key")
		}
		sym.Assert(len(keys) == n, "Keys lists every key of the section once")
	}
}

func load(text string) *ini.IniFile {
	return ini.Load(&reader{text, sym.Choice("step", 2), io.EOF})
}

// CheckText: any text.
func CheckText() {
	t := sym.String("text", sym.Bound(3, 5))
	compare(load(t), parse(t))
	sym.Cover("done")
}

// CheckBody: any text inside a section.
func CheckBody() {
	t := "[s]\n" + sym.String("text", sym.Bound(3, 4))
	compare(load(t), parse(t))
	sym.Cover("done")
}

func word(name string) string {
	b := sym.Bytes(name, 1+sym.Choice(name+" len", 2))
	for _, c := range b {
		sym.Assume(sym.And(c > ' ', c < 0x7f))
		sym.Assume(sym.And(c != '=', sym.And(c != ';', sym.And(c != '[', c != ']'))))
	}
	return string(b)
}

func blank(name string) string {
	return []string{"", " ", "\t "}[sym.Choice(name, 3)]
}

// CheckLines: lines of the usual kinds mean what they say.
func CheckLines() {
	text := ""
	r := &ref{}
	sec := ""
	names := []string{"a", "b"}
	n := sym.Bound(2, 3)
	for i := 0; i < n; i++ {
		nl := "\n"
		switch sym.Choice("line", 10) {
		case 0:
			sec = names[sym.Choice("sec", 2)]
			text += blank("lead") + "[" + sec + "]" + nl
			r.open(sec)
		case 1:
			w := word("sec")
			sec = w
			text += "[" + w + "]\r" + nl
			r.open(sec)
		case 2:
			k, v := word("key"), word("val")
			text += k + "=" + v + nl
			if sec != "" {
				r.set(sec, k, v)
			}
		case 3:
			k := names[sym.Choice("key", 2)]
			v := word("val")
			text += " " + k + "\t= " + v + " \r" + nl
			if sec != "" {
				r.set(sec, k, v)
			}
		case 4:
			k := names[sym.Choice("key", 2)]
			text += k + nl
			if sec != "" {
				r.set(sec, k, "")
			}
		case 5:
			text += "; " + word("note") + "=1" + nl
		case 6:
			text += nl
		case 7:
			text += " = " + word("val") + nl
		case 8:
			k := names[sym.Choice("key", 2)]
			text += k + "=x=y;z" + nl
			if sec != "" {
				r.set(sec, k, "x=y;z")
			}
		case 9:
			k := names[sym.Choice("key", 2)]
			text += k + "=[q]" + nl
			if sec != "" {
				r.set(sec, k, "[q]")
			}
		}
	}
	if sym.Choice("last newline", 2) == 1 {
		text = text[:len(text)-1]
	}
	compare(load(text), r)
	sym.Cover("done")
}

// CheckSequence: sections reopened, values replaced, comments in between.
func CheckSequence() {
	text := ""
	r := &ref{}
	sec := ""
	n := sym.Bound(4, 5)
	for i := 0; i < n; i++ {
		v := string([]byte{byte('0' + i)})
		switch k := sym.Choice("line", 6); k {
		case 0, 1:
			sec = []string{"a", "b"}[k]
			text += "[" + sec + "]\n"
			r.open(sec)
		case 2, 3:
			key := []string{"k", "j"}[k-2]
			text += key + " = " + v + "\n"
			if sec != "" {
				r.set(sec, key, v)
			}
		case 4:
			text += "k\n"
			if sec != "" {
				r.set(sec, "k", "")
			}
		case 5:
			text += ";k=" + v + "\n"
		}
	}
	compare(load(text), r)
	sym.Cover("done")
}

// CheckAbsent: what is not there comes out as the default.
func CheckAbsent() {
	f := ini.Load(&reader{"[a]\nk=v\n", 0, io.EOF})
	s, k, d := sym.String("sec", 1), sym.String("key", 1), sym.String("def", 2)
	w := d
	if s == "a" && k == "k" {
		w = "v"
	}
	sym.Assert(f.GetString(s, k, d) == w, "GetString gives the default for what is not there")
	if s != "a" {
		sym.Assert(f.Keys(s) == nil, "Keys of an unknown section is nil")
	}
	g := ini.Load(&reader{"", 0, io.EOF})
	sym.Assert(len(g.Sections()) == 0 && g.GetString(s, k, d) == d, "an empty file holds nothing")
	sym.Cover("done")
}

// CheckFail: a reader that fails ends the text there.
func CheckFail() {
	text := "[a]\nk=1\nk=23\n[b]\nj=4"
	n := sym.Choice("cut", len(text)+1)
	f := ini.Load(&reader{text[:n], sym.Choice("step", 3), errors.New("bad sector")})
	compare(f, parse(text[:n]))
	sym.Cover("done")
}

// CheckLong: a line longer than any buffer is one line.
func CheckLong() {
	n := []int{4090, 4096, 5000, 9000, 70000, 1100000}[sym.Choice("n", 6)]
	v := strings.Repeat("x", n) + word("tail")
	f := ini.Load(&reader{"[a]\nk=" + v + "\nj=2\n", sym.Choice("step", 2) * 1000, io.EOF})
	sym.Assert(f.GetString("a", "k", "") == v, "a long value comes out whole")
	sym.Assert(f.GetString("a", "j", "") == "2", "the line after a long one is its own")
	sym.Cover("done")
}

// CheckMany: many sections, keys and lines.
//
// bound: CheckMany: 3 or 40 sections of 4 or 30 keys, written twice over with other values, one of the values arbitrary; pieces of 33, 4096 bytes or all
func CheckMany() {
	ns, nk := []int{3, 40}[sym.Choice("secs", 2)], []int{4, 30}[sym.Choice("keys", 2)]
	v := word("val")
	num := func(p string, i int) string { return p + string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
	var b strings.Builder
	r := &ref{}
	for round := 0; round < 2; round++ {
		for i := 0; i < ns; i++ {
			b.WriteString("[" + num("section ", i) + "]\n; a comment = 1\n\n")
			r.open(num("section ", i))
			for k := 0; k < nk; k++ {
				val := num(num("v", i), k+round)
				if i == ns/2 && k == nk/2 && round == 1 {
					val = v
				}
				b.WriteString("\t" + num("key", k) + " = " + val + " \r\n")
				if round == 1 {
					r.pairs = append(r.pairs, pair{num("section ", i), num("key", k), val})
				}
			}
		}
	}
	f := ini.Load(&reader{b.String(), []int{0, 33, 4096}[sym.Choice("step", 3)], io.EOF})
	compare(f, r)
	sym.Cover("done")
}

// CheckFile: a file is read like any text, and closed; what cannot be opened
// or read is reported.
//
// bound: CheckFile: files of 2 lines after a section header with arbitrary key and value, of 0..22 bytes, and of 9000 bytes; missing, not to be opened, failing after any number of bytes, or a directory
func CheckFile() {
	text := "[a]\n" + word("key") + "=" + word("val") + "\n[b]\nj=4"
	if sym.Choice("big", 2) == 1 {
		text += "\nlong=" + strings.Repeat("y", 9000)
	}
	n := vos.F("f.ini", []byte(text))
	vos.Mount(vos.D("v", n, vos.D("dir")))
	path := "/v/f.ini"
	what := sym.Choice("what", 5)
	switch what {
	case 1:
		path = "/v/none.ini"
	case 2:
		n.NoOpen = true
	case 3:
		n.ReadFail = sym.Choice("at", 20)
		if n.ReadFail >= len(text) {
			sym.Skip()
		}
	case 4:
		path = "/v/dir"
	}
	f, err := ini.New(path)
	sym.Assert(vos.Opened == 0, "nothing is left open")
	if what == 0 {
		sym.Assert(err == nil && f != nil, "a file that can be read gives no error")
		compare(f, parse(text))
	} else {
		sym.Assert(err != nil, "a file that cannot be opened or read is reported")
	}
	sym.Cover("done")
}

// CheckInside: what is inside a value, a key or a section name is kept as it
// is.
//
// bound: CheckInside: 6 (thorough 9) arbitrary bytes other than the end of the line inside a value, a key (not '=') or a section name
func CheckInside() {
	in := sym.String("in", sym.Bound(6, 9))
	kind := sym.Choice("kind", 3)
	for i := 0; i < len(in); i++ {
		sym.Assume(in[i] != '\n' && (in[i] != '=' || kind != 1))
	}
	sec, key, val := "s", "key", "value"
	switch kind {
	case 0:
		val = "a" + in + "z"
	case 1:
		key = "a" + in + "z"
	case 2:
		sec = "a" + in + "z"
	}
	f := load("[" + sec + "]\n" + key + " = " + val + "\n")
	secs, keys := f.Sections(), f.Keys(sec)
	sym.Assert(len(secs) == 1 && secs[0] == sec, "the section is called as written")
	sym.Assert(len(keys) == 1 && keys[0] == key, "the key is called as written")
	sym.Assert(f.GetString(sec, key, "def") == val, "the value is as written")
	sym.Cover("done")
}
