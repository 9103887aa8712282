// Package c41: registered errors.
//
// instrument: errors
//
// bound: CheckReg: up to 3 (thorough 5) registrations of names of 0..2 arbitrary bytes; CheckUnknown: every 32-bit number as an id after 0..2 registrations; CheckStd: errors of 0..3 (thorough 4) arbitrary bytes; CheckHuge: registrations until there are no ids left and two more; CheckThreads: two threads that register up to 2 names each while a third reads or shows the errors, at most 2 (thorough 3) preemptions
package c41

import (
	stderrors "errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/vipally/gx/errors"

	"verif/sched"
	"verif/sym"
)

func eq(a, b string) bool { return sym.EqBytes([]byte(a), []byte(b)) }

// as makes n an id (the type has no name outside its package).
func as[T ~uint32](_ T, n uint32) T { return T(n) }

func text(n uint32, name string) string {
	return "error#" + strconv.Itoa(int(n)) + " (" + name + ")"
}

func first() uint32 { return uint32(errors.ERRID_UNKNOWN) }

// known checks everything there is to say about a registered id.
func known(id uint32, name string) {
	e := as(errors.ERRID_STD, id)
	got, err := e.Get()
	sym.Assert(err == nil && eq(got, name), "an id leads to the name registered")
	sym.Assert(eq(e.String(), text(id, name)), "the text of an id is its number and name")
	w := errors.New(e)
	sym.Assert(w.Id() == e && eq(w.Error(), text(id, name)), "an error with an id has that id and its text")
	w = errors.Newf(e, "%s and %d", "x", 7)
	sym.Assert(w.Id() == e && eq(w.Error(), text(id, name)+": x and 7"), "an error with an id and a text has both")
	b := []byte("old")
	w = errors.Newf(e, "%s", b)
	copy(b, "new")
	sym.Assert(eq(w.Error(), text(id, name)+": old"), "the text of an error is that of the moment it was made")
	w = errors.Newf(e, "plain")
	sym.Assert(eq(w.Error(), text(id, name)+": plain"), "an error with an id and a text has both")
}

// CheckReg: every registration gives a new id that leads to its name.
func CheckReg() {
	ids := []uint32{uint32(errors.ERRID_UNKNOWN), uint32(errors.ERRID_STD)}
	names := []string{"unknown error", "standard error"}
	sym.Assert(ids[0] != ids[1], "the standard error is not the unknown one")
	n := sym.Choice("n", sym.Bound(4, 6))
	for i := 0; i < n; i++ {
		name := sym.String("name", sym.Choice("namelen", 3))
		id, err := errors.Reg(name)
		sym.Assert(err == nil, "no failure made up")
		for _, o := range ids {
			sym.Assert(uint32(id) != o, "every registration gives a new id")
		}
		sym.Assert(id > errors.ERRID_UNKNOWN && id <= 9999, "ids are in their range")
		ids = append(ids, uint32(id))
		names = append(names, name)
	}
	for i := range ids {
		known(ids[i], names[i])
	}
	all := "[errors] Count:" + strconv.Itoa(len(ids))
	for i := range ids {
		all += "\n" + text(ids[i], names[i])
	}
	sym.Assert(eq(errors.ShowAll(), all), "ShowAll shows every error in the order of registration")
	sym.Cover("done")
}

// CheckUnknown: a number that was not given out as an id is reported.
func CheckUnknown() {
	last := uint32(errors.ERRID_STD)
	for i := sym.Choice("n", 3); i > 0; i-- {
		id, err := errors.Reg("x")
		sym.Assert(err == nil, "no failure made up")
		last = uint32(id)
	}
	n := sym.Uint32("n")
	e := as(errors.ERRID_STD, n)
	name, err := e.Get()
	if n >= first() && n <= last {
		sym.Assert(err == nil && name != "", "an id leads to the name registered")
		return
	}
	sym.Assert(err != nil && name == "", "a number that is no id is reported")
	sym.Assert(e.String() != "", "a number that is no id has a text")
	w := errors.New(e)
	sym.Assert(w.Id() == e, "an error keeps its number")
	sym.Assert(eq(w.Error(), e.String()) && eq(errors.Newf(e, "x").Error(), e.String()), "an error without a name says so")
	sym.Cover("done")
}

// CheckStd: a standard error keeps its text.
func CheckStd() {
	t := sym.String("t", sym.Choice("len", sym.Bound(4, 5)))
	w := errors.StdErr(stderrors.New(t))
	sym.Assert(w.Id() == errors.ERRID_STD, "it has the id of standard errors")
	sym.Assert(eq(w.Error(), text(uint32(errors.ERRID_STD), "standard error")+": "+t), "it keeps its text")
	k := sym.Int8("k")
	sym.Assert(eq(errors.NewError("%d%s", k, t).Error(), fmt.Sprintf("%d%s", k, t)), "NewError makes the text asked for")
	sym.Cover("done")
}

// CheckHuge: when there are no ids left that is reported and nothing changes.
func CheckHuge() {
	last := uint32(errors.ERRID_STD)
	for last < 9999 {
		id, err := errors.Reg("x" + strconv.Itoa(int(last)+1))
		sym.Assert(err == nil, "no failure made up")
		sym.Assert(uint32(id) == last+1, "ids are given out one after the other")
		last = uint32(id)
	}
	full := errors.ShowAll()
	for i := 0; i < 2; i++ {
		id, err := errors.Reg(sym.String("name", 1))
		sym.Assert(err != nil, "no id left is reported")
		_, err = id.Get()
		sym.Assert(err != nil, "no id is given out then")
	}
	for _, n := range []uint32{1003, 1004, 1034, 1066, 5000, 9998, 9999} {
		name, err := as(errors.ERRID_STD, n).Get()
		sym.Assert(err == nil && name == "x"+strconv.Itoa(int(n)), "an id leads to the name registered")
	}
	for n := uint32(1003); n <= 9999; n += 7 {
		name, err := as(errors.ERRID_STD, n).Get()
		sym.Assert(err == nil && name == "x"+strconv.Itoa(int(n)), "an id leads to the name registered")
	}
	known(first(), "unknown error")
	known(uint32(errors.ERRID_STD), "standard error")
	_, err := as(errors.ERRID_STD, 10000).Get()
	sym.Assert(err != nil, "a number that is no id is reported")
	lines := strings.Split(full, "\n")
	sym.Assert(len(lines) == 9000-int(first())+1001 && strings.HasSuffix(lines[0], ":"+strconv.Itoa(len(lines)-1)), "ShowAll shows every error in the order of registration")
	for n := 1003; n <= 9999; n++ {
		sym.Assert(lines[n-1000] == text(uint32(n), "x"+strconv.Itoa(n)), "ShowAll shows every error in the order of registration")
	}
	sym.Cover("done")
}

// CheckThreads: goroutines may register and look at once.
func CheckThreads() {
	var a [2]uint32
	var b uint32
	var fail bool
	show, other := "", ""
	look := sym.Choice("look", 3)
	two := sym.Bool("two")
	sched.Par(sym.Bound(2, 3), func() {
		x, err := errors.Reg("a0")
		a[0], fail = uint32(x), fail || err != nil
		if two {
			x, err = errors.Reg("a1")
			a[1], fail = uint32(x), fail || err != nil
		}
	}, func() {
		x, err := errors.Reg("b")
		b, fail = uint32(x), fail || err != nil
	}, func() {
		switch look {
		case 0:
			show = errors.ShowAll()
		case 1:
			other, _ = errors.ERRID_STD.Get()
		case 2:
			other = as(errors.ERRID_STD, 1003).String()
		}
	})
	sym.Assert(!fail, "no failure made up")
	known(a[0], "a0")
	known(b, "b")
	sym.Assert(a[0] != b, "every registration gives a new id")
	names := make([]string, 5)
	n := 4
	names[0], names[1] = "unknown error", "standard error"
	names[a[0]-1001], names[b-1001] = "a0", "b"
	if two {
		known(a[1], "a1")
		sym.Assert(a[0] != a[1] && a[1] != b, "every registration gives a new id")
		names[a[1]-1001] = "a1"
		n = 5
	}
	switch look {
	case 0:
		ok := false
		for k := 2; k <= n; k++ {
			s := "[errors] Count:" + strconv.Itoa(k)
			for i := 0; i < k; i++ {
				s += "\n" + text(uint32(1001+i), names[i])
			}
			ok = ok || s == show
		}
		sym.Assert(ok, "ShowAll shows the errors registered at some moment")
	case 1:
		sym.Assert(other == "standard error", "an id leads to the name registered")
	case 2:
		sym.Assert(other == text(1003, names[2]) || other != "" && other[:6] != "error#", "an id has its text or is unknown")
	}
	sym.Cover("done")
}
