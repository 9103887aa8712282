// Package c42: registered values.
//
// instrument: regable
//
// bound: CheckHistory: every history of 4 (thorough 5) calls that make a reger, register a value (names of 0..1 and values of 32 arbitrary bits) or set one through its id or object, with every id examined after it; CheckIds: every 32-bit number as an id after up to 2 regers of up to 2 values; CheckMax: every maximum, and as many registrations as it allows for the maxima 1..4 and 1024; CheckRegers: as many regers as there can be; CheckFinish: registrations after the end of registration; CheckThreads: two threads that get and set one value, at most 3 (thorough 4) preemptions; CheckMake: every pair of reger and number; CheckEmpty: every maximum for an empty reger
package c42

import (
	"strconv"

	"github.com/vipally/gx/regable"

	"verif/sched"
	"verif/sym"
)

func eq(a, b string) bool { return sym.EqBytes([]byte(a), []byte(b)) }

// try runs f and tells whether it was refused, by an error or a panic.
func try(f func() error) (refused bool) {
	refused = true
	defer func() { recover() }()
	return f() != nil
}

type reged struct {
	id       regable.Uint32Id
	obj      regable.Uint32Obj
	reger    int
	name     string
	val      uint32
	position int
}

func same(r reged, tell bool) {
	sym.Assert(r.id.Valid() && r.obj.Valid(), "an id given out is valid")
	v, err := r.id.Get()
	sym.Assert(err == nil && v == r.val, "an id leads to the value set last")
	sym.Assert(r.id.GetNoErr() == r.val, "GetNoErr is Get")
	v, err = r.obj.Get()
	sym.Assert(err == nil && v == r.val && r.obj.GetNoErr() == r.val, "the object has the value set last")
	n, err := r.id.Name()
	sym.Assert(err == nil && eq(n, r.name), "an id leads to the name registered")
	n, err = r.obj.Name()
	sym.Assert(err == nil && eq(n, r.name), "the object has the name registered")
	o := r.id.Oject()
	v, err = o.Get()
	sym.Assert(o.Valid() && err == nil && v == r.val, "the object of the id has the value set last")
	sym.Assert(r.obj.Id() == r.id && o.Id() == r.id, "the object knows its id")
	a, b := r.id.Ids()
	sym.Assert(regable.MakeRegedId(a, b) == uint32(r.id), "the two parts of an id make the id")
	if tell {
		t := "Uint32#(" + strconv.Itoa(int(a)) + "|" + strconv.Itoa(int(b)) + "|" + r.name + ")" + strconv.FormatUint(uint64(r.val), 10)
		sym.Assert(eq(r.id.String(), t) && eq(r.obj.String(), t), "the text has the parts of the id, the name and the value")
	}
}

// CheckHistory: whatever was registered and set before.
func CheckHistory() {
	var rg []*regable.Uint32Reger
	var all []reged
	mk := func() {
		r, err := regable.NewUint32Reger("r" + strconv.Itoa(len(rg)))
		sym.Assert(err == nil && r != nil, "no failure made up")
		rg = append(rg, r)
	}
	mk()
	for n := sym.Bound(4, 5); n > 0; n-- {
		switch k := sym.Choice("op", 4); {
		case k == 0:
			if len(rg) == 2 {
				sym.Skip()
			}
			mk()
		case k == 1:
			e := reged{reger: sym.Choice("reger", len(rg)), name: sym.String("name", sym.Choice("namelen", 2)), val: sym.Uint32("val")}
			var err error
			switch sym.Choice("how", 3) {
			case 0:
				e.id, err = rg[e.reger].Reg(e.name, e.val)
				e.obj = e.id.Oject()
			case 1:
				e.obj, err = rg[e.reger].RegO(e.name, e.val)
				e.id = e.obj.Id()
			case 2:
				e.id = rg[e.reger].MustReg(e.name, e.val)
				e.obj = e.id.Oject()
			}
			sym.Assert(err == nil, "no failure made up")
			for _, o := range all {
				sym.Assert(o.id != e.id, "every registration gives a new id")
			}
			all = append(all, e)
		default:
			if len(all) == 0 {
				sym.Skip()
			}
			e := &all[sym.Choice("which", len(all))]
			v := sym.Uint32("new")
			var got uint32
			var err error
			if k == 2 {
				got, err = e.id.Set(v)
			} else {
				got, err = e.obj.Set(v)
			}
			sym.Assert(err == nil && got == v, "Set gives the value set")
			e.val = v
		}
	}
	for _, e := range all {
		same(e, false)
	}
	sym.Cover("done")
}

// CheckText: the texts of values, regers and all of them.
func CheckText() {
	a := regable.MustNewUint32Reger("A")
	b := regable.MustNewUint32Reger("B")
	name := sym.String("name", sym.Choice("namelen", 3))
	x := a.MustRegO(name, 7)
	y := b.MustRegO("y", 4294967295)
	z := b.MustReg("z", 0)
	same(reged{id: x.Id(), obj: x, name: name, val: 7}, true)
	same(reged{id: y.Id(), obj: y, name: "y", val: 4294967295}, true)
	same(reged{id: z, obj: z.Oject(), name: "z"}, true)
	has := func(s, t string) bool {
		r := false
		for i := 0; i+len(t) <= len(s); i++ {
			r = sym.Or(r, eq(s[i:i+len(t)], t))
		}
		return r
	}
	sa, sb := a.String(), b.String()
	sym.Assert(has(sa, "\n#1 ["+name+"]: 7"), "the text of a reger shows the names and values")
	sym.Assert(has(sb, "\n#1 [y]: 4294967295\n#2 [z]: 0"), "the text of a reger shows the names and values in order")
	s := regable.ShowAllUint32Regers()
	sym.Assert(has(s, "count:2\n"+sa+"\n"+sb), "all regers are shown in order")
	sym.Assert(has(regable.ShowAllRegs(), s), "all regers are shown among all registers")
	sym.Cover("done")
}

// CheckIds: a number that was not given out is no id.
func CheckIds() {
	var all []reged
	for i := sym.Choice("regers", 3); i > 0; i-- {
		r := regable.MustNewUint32Reger("r")
		for k := sym.Choice("values", 3); k > 0; k-- {
			e := reged{name: "n" + strconv.Itoa(len(all)), val: sym.Uint32("val")}
			e.obj = r.MustRegO(e.name, e.val)
			e.id = e.obj.Id()
			all = append(all, e)
		}
	}
	id := regable.Uint32Id(sym.Uint32("id"))
	given := false
	for _, e := range all {
		given = given || e.id == id
	}
	if given {
		sym.Skip()
	}
	sym.Assert(!id.Valid(), "a number not given out is no valid id")
	_, err := id.Get()
	sym.Assert(err != nil, "a number not given out is reported")
	_, err = id.Set(5)
	sym.Assert(err != nil, "a number not given out cannot be set")
	_, err = id.Name()
	sym.Assert(err != nil, "a number not given out has no name")
	o := id.Oject()
	sym.Assert(!o.Valid(), "a number not given out has no object")
	_, err = o.Get()
	sym.Assert(err != nil, "an object of nothing has no value")
	_, err = o.Set(5)
	sym.Assert(err != nil, "an object of nothing cannot be set")
	_, err = o.Name()
	sym.Assert(err != nil, "an object of nothing has no name")
	sym.Assert(o.String() != "" && o.Id() == 0, "an object of nothing has a text and no id")
	sym.Assert(try(func() error { id.GetNoErr(); return nil }), "GetNoErr panics for a number not given out")
	for _, e := range all {
		same(e, false)
	}
	sym.Cover("done")
}

// CheckMax: a reger takes as many values as its maximum.
func CheckMax() {
	r := regable.MustNewUint32Reger("r")
	a := r.MustReg("a", 1)
	max := 1024
	switch sym.Choice("how", 3) {
	case 0: // the default
	case 1:
		max = 1 + sym.Choice("max", 4)
		got, err := r.MaxReg(uint32(max))
		sym.Assert(err == nil && got == uint32(max), "the maximum is set")
	case 2:
		m := sym.Uint32("max")
		got, err := r.MaxReg(m)
		if m >= 1 && m < 1<<24 {
			sym.Assert(err == nil && got == m, "the maximum is set")
			return
		}
		sym.Assert(err != nil, "an impossible maximum is refused")
	}
	last := a
	for i := 1; i < max; i++ {
		id, err := r.Reg("x", uint32(i))
		sym.Assert(err == nil && id != last, "there is room for as many values as the maximum")
		last = id
	}
	sym.Assert(try(func() error { _, err := r.Reg("y", 2); return err }), "no more values than the maximum")
	sym.Assert(try(func() error { r.MustReg("y", 2); return nil }), "no more values than the maximum")
	_, err := r.MaxReg(uint32(max - 1))
	sym.Assert(err != nil, "a maximum below the number of values is refused")
	v, err := a.Get()
	sym.Assert(err == nil && v == 1, "an id leads to the value set last")
	if max > 1 {
		v, err = last.Get()
		sym.Assert(err == nil && v == uint32(max-1), "an id leads to the value set last")
	}
	_, err = r.MaxReg(uint32(max + 1))
	sym.Assert(err == nil, "the maximum is raised")
	id, err := r.Reg("z", 9)
	sym.Assert(err == nil && id != last && id != a, "then there is room again")
	v, err = id.Get()
	sym.Assert(err == nil && v == 9, "an id leads to the value set last")
	_, k := id.Ids()
	_, err = regable.Uint32Id(regable.MakeRegedId(1, k+1)).Get()
	sym.Assert(err != nil, "what was refused has no id")
	sym.Cover("done")
}

// CheckEmpty: a reger with no value yet, and an object that is none.
func CheckEmpty() {
	r := regable.MustNewUint32Reger("r")
	m := sym.Uint32("max")
	got, err := r.MaxReg(m)
	if m >= 1 && m < 1<<24 {
		sym.Assert(err == nil && got == m, "the maximum is set")
	} else {
		sym.Assert(err != nil, "an impossible maximum is refused")
	}
	id, err := r.Reg("a", 5)
	v, err2 := id.Get()
	sym.Assert(err == nil && err2 == nil && v == 5, "there is room for a value")
	o := regable.Uint32Id(regable.MakeRegedId(1, sym.Uint32("k")%4+2)).Oject()
	switch sym.Choice("use", 4) {
	case 0:
		_, err = o.Get()
	case 1:
		_, err = o.Set(7)
	case 2:
		_, err = o.Name()
	case 3:
		err = nil
		sym.Assert(sym.Panics(func() { o.GetNoErr() }), "what was not registered has no value")
		return
	}
	sym.Assert(err != nil, "what was not registered has no value")
	sym.Cover("done")
}

// CheckRegers: there may be many regers.
func CheckRegers() {
	var ids []regable.Uint32Id
	for i := 0; i < 255; i++ {
		r, err := regable.NewUint32Reger("r")
		sym.Assert(err == nil, "no failure made up")
		ids = append(ids, r.MustReg("a", uint32(i)))
	}
	sym.Assert(try(func() error { _, err := regable.NewUint32Reger("r"); return err }), "no more regers than ids have room for")
	for i, id := range ids {
		v, err := id.Get()
		sym.Assert(err == nil && v == uint32(i), "an id leads to the value set last")
	}
	sym.Cover("done")
}

// CheckFinish: after the end of registration nothing can be registered.
func CheckFinish() {
	r := regable.MustNewUint32Reger("r")
	v := sym.Uint32("v")
	o := r.MustRegO("a", v)
	regable.FinishReg()
	switch sym.Choice("how", 5) {
	case 0:
		sym.Assert(try(func() error { _, err := r.Reg("b", 1); return err }), "no registration after the end")
	case 1:
		sym.Assert(try(func() error { r.MustReg("b", 1); return nil }), "no registration after the end")
	case 2:
		sym.Assert(try(func() error { _, err := r.RegO("b", 1); return err }), "no registration after the end")
	case 3:
		sym.Assert(try(func() error { _, err := regable.NewUint32Reger("s"); return err }), "no new reger after the end")
	case 4:
		sym.Assert(try(func() error { regable.MustNewUint32Reger("s"); return nil }), "no new reger after the end")
	}
	same(reged{id: o.Id(), obj: o, name: "a", val: v}, false)
	w := sym.Uint32("w")
	_, err := o.Set(w)
	sym.Assert(err == nil, "values can be set after the end")
	same(reged{id: o.Id(), obj: o, name: "a", val: w}, false)
	_, k := o.Id().Ids()
	_, err = regable.Uint32Id(regable.MakeRegedId(1, k+1)).Get()
	sym.Assert(err != nil, "what was refused has no id")
	sym.Cover("done")
}

// CheckThreads: goroutines may get and set at once.
func CheckThreads() {
	r := regable.MustNewUint32Reger("r")
	a := r.MustRegO("a", 1)
	b := r.MustRegO("b", 10)
	var x, y uint32
	how := sym.Choice("how", 3)
	sched.Par(sym.Bound(3, 4), func() {
		a.Set(2)
		x, _ = b.Get()
	}, func() {
		switch how {
		case 0:
			b.Id().Set(20)
			y, _ = a.Id().Get()
		case 1:
			a.Set(3)
			y, _ = a.Get()
		case 2:
			y = a.GetNoErr()
			b.Set(20)
		}
	})
	va, vb := a.GetNoErr(), b.GetNoErr()
	switch how {
	case 0:
		sym.Assert(va == 2 && vb == 20, "no value set is lost")
		sym.Assert((x == 10 || x == 20) && (y == 1 || y == 2) && (x == 20 || y == 2), "a value read is the last one set")
	case 1:
		sym.Assert((va == 2 || va == 3) && (y == 2 || y == 3) && y == va || y == 3 && va == 2, "a value read is the last one set")
		sym.Assert(vb == 10 && x == 10, "the other value stays")
	case 2:
		sym.Assert(va == 2 && vb == 20, "no value set is lost")
		sym.Assert((x == 10 || x == 20) && (y == 1 || y == 2), "a value read is the last one set")
	}
	sym.Cover("done")
}

// CheckMake: an id is made of two numbers.
func CheckMake() {
	a, b := sym.Uint32("a"), sym.Uint32("b")
	x, y := regable.Uint32Id(regable.MakeRegedId(a, b)).Ids()
	sym.Assert(x == a&0xff && y == b&0xffffff, "the parts of an id are those it was made of")
	sym.Cover("done")
}
