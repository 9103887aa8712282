package sched

// Co is a coroutine. The engine has its own (see engine/co.go); these are for
// native runs.
type Co struct {
	f       func()
	started bool
	in      chan bool
	out     chan interface{} // nil: suspended
}

type finished struct{}

func coNew(f func()) *Co {
	return &Co{f: f, in: make(chan bool), out: make(chan interface{})}
}

// coResume runs c to its next coSuspend; true: it is done.
func coResume(c *Co) bool {
	if !c.started {
		c.started = true
		go func() {
			done := false
			defer func() {
				if r := recover(); !done {
					if r == nil {
						r = "panic(nil)"
					}
					c.out <- r
				}
			}()
			c.f()
			done = true
			c.out <- finished{}
		}()
	} else {
		c.in <- true
	}
	switch r := (<-c.out).(type) {
	case nil:
		return false
	case finished:
		return true
	default:
		panic(r)
	}
}

func coSuspend(c *Co) {
	c.out <- nil
	<-c.in
}
