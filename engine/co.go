package main

// Coroutines of the interpreted program: package verif/sched runs threads
// with them, one at a time.

type coKilled struct{}

type coV struct {
	fn      value
	started bool
	done    bool
	in      chan bool        // true: go on, false: die
	out     chan interface{} // nil: suspended
}

func coIntrinsics() {
	intrinsics["verif/sched.coNew"] = func(in *Interp, fr *frame, a []value) value {
		c := &coV{fn: a[0], in: make(chan bool), out: make(chan interface{})}
		in.cos = append(in.cos, c)
		return c
	}
	intrinsics["verif/sched.coResume"] = func(in *Interp, fr *frame, a []value) value {
		c := a[0].(*coV)
		if c.done {
			panic(unsupported("resume of a finished coroutine"))
		}
		d := in.depth
		if !c.started {
			c.started = true
			go func() {
				defer func() {
					if r := recover(); r != nil {
						c.done = true
						c.out <- r
					}
				}()
				in.depth = 0
				in.call(nil, c.fn, nil)
				c.done = true
				c.out <- true
			}()
		} else {
			c.in <- true
		}
		r := <-c.out
		in.depth = d
		switch r := r.(type) {
		case nil:
			return in.tc.ff
		case bool:
			return in.tc.tt
		default:
			panic(r)
		}
	}
	intrinsics["verif/sched.coSuspend"] = func(in *Interp, fr *frame, a []value) value {
		c := a[0].(*coV)
		d := in.depth
		c.out <- nil
		if !<-c.in {
			panic(coKilled{})
		}
		in.depth = d
		return nil
	}
}

// killCos ends the coroutines a path left behind.
func (in *Interp) killCos() {
	for _, c := range in.cos {
		if c.started && !c.done {
			c.in <- false
			<-c.out
		}
	}
	in.cos = in.cos[:0]
}
