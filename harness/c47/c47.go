// Package c47: what the templates of the random number generators and of the
// registers give.
//
// templates: math/rand regable
// instance: regable/reg.gp regable regable/reg.gpg:bool
// instance: regable/reg.gp regable regable/reg.gpg:cu32
// instance: regable/reg.gp regable regable/reg.gpg:noname_cu32
// instance: regable/reg.gp regable regable/reg.gpg:str
// instance: regable/reg.gp regable regable/reg.gpg:cstr
// instance: regable/reg.gp regable regable/reg.gpg:iter
// instance: regable/reg.gp regable regable/reg.gpg:citer
// instance: regable/reg.gp regable regable/reg.gpg:uint64
// instance: regable/reg.gp regable regable/reg.gpg:cu64
// instance: regable/reg.gp regable regable/reg.gpg:noname_cu64
// instrument: math/rand regable
//
// bound: the packages math/rand and regable are regenerated from their templates with the settings of rand.gpg and reg.gpg, as the gogp tool does; the entries of C29 and C42 with their bounds, on these; CheckKinds and CheckKindIds: for each of the 10 further settings of reg.gpg 1..2 regers with 1..2 values in all (any bool, 32- or 64-bit value, texts of 0..1 arbitrary bytes), up to 2 (thorough 3) sets or reversals, every 32-bit number as an id; CheckKindThreads: two threads that set, reverse and get, at most 3 (thorough 4) preemptions
// assume: the cycle counter and the time of day give arbitrary but fixed seeds to the generators that seed themselves
package c47

import (
	"strconv"

	rg "github.com/vipally/gx/regable"

	"verif/c29"
	"verif/c42"
	"verif/sched"
	"verif/sym"
)

func CheckRandRange32()      { c29.CheckRange32() }
func CheckRandRange64()      { c29.CheckRange64() }
func CheckRandGlobal()       { c29.CheckGlobal() }
func CheckRandBothEnds()     { c29.CheckBothEnds() }
func CheckRandSequence()     { c29.CheckSequence() }
func CheckRandThreadsTwo()   { c29.CheckThreadsTwo() }
func CheckRandThreadsThree() { c29.CheckThreadsThree() }
func CheckRandReseed()       { c29.CheckReseed() }
func CheckRegHistory()       { c42.CheckHistory() }
func CheckRegText()          { c42.CheckText() }
func CheckRegIds()           { c42.CheckIds() }
func CheckRegMax()           { c42.CheckMax() }
func CheckRegRegers()        { c42.CheckRegers() }
func CheckRegFinish()        { c42.CheckFinish() }
func CheckRegThreads()       { c42.CheckThreads() }
func CheckRegMake()          { c42.CheckMake() }

type value[V any] interface {
	Valid() bool
	Get() (V, error)
	GetNoErr() V
	String() string
}

type ider[V, O any] interface {
	~uint32
	value[V]
	Ids() (uint32, uint32)
	Oject() O
}

type objer[V, I any] interface {
	value[V]
	Id() I
}

type namer interface{ Name() (string, error) }

type setter[V any] interface{ Set(V) (V, error) }

type reverser interface{ Reverse() (bool, error) }

// reger is what the kinds of regers have in common.
type reger[V, I, O any] struct {
	reg   func(name string, v V) (I, error)
	regO  func(name string, v V) (O, error)
	text  func() string
	named bool
}

// try runs f and tells whether it was refused, by an error or a panic.
func try(f func() error) (refused bool) {
	refused = true
	defer func() { recover() }()
	return f() != nil
}

func eqs(a, b string) bool { return sym.EqBytes([]byte(a), []byte(b)) }

type kind[V any, I ider[V, O], O objer[V, I]] struct {
	name  string
	mk    func() reger[V, I, O]
	fresh func() V
	same  func(a, b V) bool
	fixed V
}

type entry[V, I, O any] struct {
	id   I
	obj  O
	v    V
	name string
}

func (k kind[V, I, O]) add(r reger[V, I, O], v V) entry[V, I, O] {
	e := entry[V, I, O]{v: v, name: "n"}
	if r.named {
		e.name = sym.String("name", 1)
	}
	var err error
	if sym.Bool("object") {
		e.obj, err = r.regO(e.name, e.v)
		e.id = e.obj.Id()
	} else {
		e.id, err = r.reg(e.name, e.v)
		e.obj = e.id.Oject()
	}
	sym.Assert(err == nil, "no failure made up")
	return e
}

func (k kind[V, I, O]) look(e entry[V, I, O], named bool) {
	sym.Assert(e.id.Valid() && e.obj.Valid(), "an id given out is valid")
	v, err := e.id.Get()
	sym.Assert(err == nil && k.same(v, e.v) && k.same(e.id.GetNoErr(), e.v), "an id leads to the value set last")
	v, err = e.obj.Get()
	sym.Assert(err == nil && k.same(v, e.v) && k.same(e.obj.GetNoErr(), e.v), "the object has the value set last")
	sym.Assert(e.id.Oject().Id() == e.id, "the object knows its id")
	a, b := e.id.Ids()
	sym.Assert(rg.MakeRegedId(a, b) == uint32(e.id), "the two parts of an id make the id")
	if named {
		n, err := any(e.id).(namer).Name()
		sym.Assert(err == nil && eqs(n, e.name), "an id leads to the name registered")
		n, err = any(e.obj).(namer).Name()
		sym.Assert(err == nil && eqs(n, e.name), "the object has the name registered")
	}
}

// history: values registered, set and reversed.
func (k kind[V, I, O]) history() {
	var all []entry[V, I, O]
	named := false
	n := 1 + sym.Choice("values", 2)
	regers := 1 + sym.Choice("regers", n)
	for i := 0; i < regers; i++ {
		r := k.mk()
		named = r.named
		for j := n / regers; j > 0; j-- {
			e := k.add(r, k.fresh())
			for _, o := range all {
				sym.Assert(o.id != e.id, "every registration gives a new id")
			}
			all = append(all, e)
		}
	}
	for n := sym.Choice("sets", sym.Bound(3, 4)); n > 0; n-- {
		e := &all[sym.Choice("which", len(all))]
		var x any = e.id
		if sym.Bool("object") {
			x = e.obj
		}
		if b, ok := x.(reverser); ok && sym.Bool("reverse") {
			got, err := b.Reverse()
			sym.Assert(err == nil && got == !any(e.v).(bool), "Reverse gives the other value")
			e.v = any(got).(V)
			continue
		}
		s, ok := x.(setter[V])
		if !ok {
			sym.Skip()
		}
		v := k.fresh()
		got, err := s.Set(v)
		sym.Assert(err == nil && k.same(got, v), "Set gives the value set")
		e.v = v
	}
	for _, e := range all {
		k.look(e, named)
	}
	sym.Cover("done")
}

// ids: a number that was not given out is no id, the texts, and the end of
// registration.
func (k kind[V, I, O]) ids() {
	var all []entry[V, I, O]
	r := k.mk()
	e := k.add(r, k.fixed)
	all = append(all, e)
	if sym.Bool("more") {
		all = append(all, k.add(r, k.fixed))
	}
	a, b := e.id.Ids()
	t := k.name + "#(" + strconv.Itoa(int(a)) + "|" + strconv.Itoa(int(b)) + "|"
	for _, s := range []string{e.id.String(), e.obj.String()} {
		sym.Assert(len(s) > len(t) && eqs(s[:len(t)], t), "the text has the kind and the parts of the id")
	}
	sym.Assert(r.text() != "", "a reger has a text")
	id := I(sym.Uint32("id"))
	for _, e := range all {
		if e.id == id {
			sym.Skip()
		}
	}
	sym.Assert(!id.Valid(), "a number not given out is no valid id")
	_, err := id.Get()
	sym.Assert(err != nil, "a number not given out is reported")
	sym.Assert(try(func() error { id.GetNoErr(); return nil }), "GetNoErr panics for a number not given out")
	o := id.Oject()
	sym.Assert(!o.Valid(), "a number not given out has no object")
	_, err = o.Get()
	sym.Assert(err != nil, "an object of nothing has no value")
	sym.Assert(o.String() != "" && o.Id() == 0, "an object of nothing has a text and no id")
	for _, x := range []any{id, o} {
		if n, ok := x.(namer); ok {
			_, err := n.Name()
			sym.Assert(err != nil, "what was not given out has no name")
		}
		if s, ok := x.(setter[V]); ok {
			_, err := s.Set(e.v)
			sym.Assert(err != nil, "what was not given out cannot be set")
		}
		if s, ok := x.(reverser); ok {
			_, err := s.Reverse()
			sym.Assert(err != nil, "what was not given out cannot be reversed")
		}
	}
	rg.FinishReg()
	sym.Assert(try(func() error { _, err := r.reg("b", e.v); return err }), "no registration after the end")
	for _, e := range all {
		k.look(e, r.named)
	}
	sym.Cover("done")
}

func same[V comparable](a, b V) bool { return a == b }

func str() string { return sym.String("vs", sym.Choice("len", 2)) }

func anyval() interface{} {
	if sym.Bool("text") {
		return str()
	}
	return sym.Int("vi")
}

func sameAny(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && eqs(x, y)
	case int:
		y, ok := b.(int)
		return ok && x == y
	}
	return false
}

var bools = kind[bool, rg.BoolId, rg.BoolObj]{"Bool", func() reger[bool, rg.BoolId, rg.BoolObj] {
	r := rg.MustNewBoolReger("r")
	return reger[bool, rg.BoolId, rg.BoolObj]{r.Reg, r.RegO, r.String, true}
}, func() bool { return sym.Bool("vb") }, same[bool], true}

var cu32 = kind[uint32, rg.ConstUint32Id, rg.ConstUint32Obj]{"ConstUint32", func() reger[uint32, rg.ConstUint32Id, rg.ConstUint32Obj] {
	r := rg.MustNewConstUint32Reger("r")
	return reger[uint32, rg.ConstUint32Id, rg.ConstUint32Obj]{r.Reg, r.RegO, r.String, true}
}, func() uint32 { return sym.Uint32("v32") }, same[uint32], 4294967295}

var nu32 = kind[uint32, rg.NoNameConstUint32Id, rg.NoNameConstUint32Obj]{"NoNameConstUint32", func() reger[uint32, rg.NoNameConstUint32Id, rg.NoNameConstUint32Obj] {
	r := rg.MustNewNoNameConstUint32Reger("r")
	return reger[uint32, rg.NoNameConstUint32Id, rg.NoNameConstUint32Obj]{
		func(_ string, v uint32) (rg.NoNameConstUint32Id, error) { return r.Reg(v) },
		func(_ string, v uint32) (rg.NoNameConstUint32Obj, error) { return r.RegO(v) }, r.String, false}
}, func() uint32 { return sym.Uint32("v32") }, same[uint32], 4294967295}

var strs = kind[string, rg.StringId, rg.StringObj]{"String", func() reger[string, rg.StringId, rg.StringObj] {
	r := rg.MustNewStringReger("r")
	return reger[string, rg.StringId, rg.StringObj]{
		func(_ string, v string) (rg.StringId, error) { return r.Reg(v) },
		func(_ string, v string) (rg.StringObj, error) { return r.RegO(v) }, r.String, false}
}, str, eqs, "t"}

var cstrs = kind[string, rg.ConstStringId, rg.ConstStringObj]{"ConstString", func() reger[string, rg.ConstStringId, rg.ConstStringObj] {
	r := rg.MustNewConstStringReger("r")
	return reger[string, rg.ConstStringId, rg.ConstStringObj]{
		func(_ string, v string) (rg.ConstStringId, error) { return r.Reg(v) },
		func(_ string, v string) (rg.ConstStringObj, error) { return r.RegO(v) }, r.String, false}
}, str, eqs, "t"}

var iter = kind[interface{}, rg.InerfaceId, rg.InerfaceObj]{"Inerface", func() reger[interface{}, rg.InerfaceId, rg.InerfaceObj] {
	r := rg.MustNewInerfaceReger("r")
	return reger[interface{}, rg.InerfaceId, rg.InerfaceObj]{r.Reg, r.RegO, r.String, true}
}, anyval, sameAny, 5}

var citer = kind[interface{}, rg.ConstInerfaceId, rg.ConstInerfaceObj]{"ConstInerface", func() reger[interface{}, rg.ConstInerfaceId, rg.ConstInerfaceObj] {
	r := rg.MustNewConstInerfaceReger("r")
	return reger[interface{}, rg.ConstInerfaceId, rg.ConstInerfaceObj]{r.Reg, r.RegO, r.String, true}
}, anyval, sameAny, 5}

var u64 = kind[uint64, rg.Uint64Id, rg.Uint64Obj]{"Uint64", func() reger[uint64, rg.Uint64Id, rg.Uint64Obj] {
	r := rg.MustNewUint64Reger("r")
	return reger[uint64, rg.Uint64Id, rg.Uint64Obj]{r.Reg, r.RegO, r.String, true}
}, func() uint64 { return sym.Uint64("v64") }, same[uint64], 1 << 40}

var cu64 = kind[uint64, rg.ConstUint64Id, rg.ConstUint64Obj]{"ConstUint64", func() reger[uint64, rg.ConstUint64Id, rg.ConstUint64Obj] {
	r := rg.MustNewConstUint64Reger("r")
	return reger[uint64, rg.ConstUint64Id, rg.ConstUint64Obj]{r.Reg, r.RegO, r.String, true}
}, func() uint64 { return sym.Uint64("v64") }, same[uint64], 1 << 40}

var nu64 = kind[uint64, rg.NoNameConstUint64Id, rg.NoNameConstUint64Obj]{"NoNameConstUint64", func() reger[uint64, rg.NoNameConstUint64Id, rg.NoNameConstUint64Obj] {
	r := rg.MustNewNoNameConstUint64Reger("r")
	return reger[uint64, rg.NoNameConstUint64Id, rg.NoNameConstUint64Obj]{
		func(_ string, v uint64) (rg.NoNameConstUint64Id, error) { return r.Reg(v) },
		func(_ string, v uint64) (rg.NoNameConstUint64Obj, error) { return r.RegO(v) }, r.String, false}
}, func() uint64 { return sym.Uint64("v64") }, same[uint64], 1 << 40}

// CheckKinds: the other kinds of registers keep what was registered and set.
func CheckKinds() {
	[]func(){bools.history, cu32.history, nu32.history, strs.history, cstrs.history,
		iter.history, citer.history, u64.history, cu64.history, nu64.history}[sym.Choice("kind", 10)]()
}

// CheckKindIds: numbers that are no ids, and the end of registration.
func CheckKindIds() {
	[]func(){bools.ids, cu32.ids, nu32.ids, strs.ids, cstrs.ids,
		iter.ids, citer.ids, u64.ids, cu64.ids, nu64.ids}[sym.Choice("kind", 10)]()
}

// CheckKindThreads: reversing and setting at once.
func CheckKindThreads() {
	r := rg.MustNewBoolReger("r")
	v := sym.Bool("vb")
	a := r.MustRegO("a", v)
	how := sym.Choice("how", 3)
	var x, y bool
	sched.Par(sym.Bound(3, 4), func() {
		x, _ = a.Reverse()
	}, func() {
		switch how {
		case 0:
			y, _ = a.Id().Reverse()
		case 1:
			y, _ = a.Get()
		case 2:
			y, _ = a.Set(v)
		}
	})
	w := a.GetNoErr()
	switch how {
	case 0:
		sym.Assert(w == v && x != y, "two reversals give the first value")
	case 1:
		sym.Assert(w == !v && x == !v, "no reversal is lost")
	case 2:
		sym.Assert(y == v && x == !v, "setting gives the value set")
	}
	sym.Cover("done")
}
