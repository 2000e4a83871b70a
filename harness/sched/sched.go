// Package sched is the controlled scheduler: instrumented code calls P before
// every statement, and Run decides there which of the threads goes on.
package sched

import (
	"sync/atomic"
	"time"
)

// Sites names the scheduling points; filled by generated code.
var Sites []string

var (
	on  atomic.Bool
	cur *thread // the only thread that runs while on is set
)

type thread struct {
	n    int   // points passed
	stop []int // points at which it hands over
	go_  chan bool
	back chan bool // true: finished
	done bool
	log  func(n, site int)
	swap func(*thread)
	env  func()
}

// P is a scheduling point.
func P(site int) {
	if !on.Load() {
		return
	}
	t := cur
	if t == nil {
		return
	}
	t.n++
	if t.log != nil {
		t.log(t.n, site)
	}
	if len(t.stop) > 0 && t.n == t.stop[0] {
		t.stop = t.stop[1:]
		t.back <- false
		<-t.go_
	}
}

// Thread is one thread of a schedule.
type Thread struct {
	Run  func() // its work
	Env  func() // called whenever the thread is given control
	Stop []int  // numbers of the points at which it is preempted
}

// Result of a schedule.
type Result struct {
	Points  []int // points passed per thread
	Blocked bool  // a thread waited for a preempted one; both were let run
	Panic   []any
}

// Run runs the threads, the first one first; a preempted thread goes on after
// the next one was preempted or has finished.
func Run(threads []Thread, log func(thread, n, site int)) Result {
	ts := make([]*thread, len(threads))
	res := Result{Points: make([]int, len(ts)), Panic: make([]any, len(ts))}
	for i, th := range threads {
		t := &thread{stop: th.Stop, go_: make(chan bool), back: make(chan bool, 1), env: th.Env}
		if log != nil {
			t.log = func(n, site int) { log(i, n, site) }
		}
		ts[i] = t
		go func() {
			<-t.go_
			func() {
				defer func() { res.Panic[i] = recover() }()
				th.Run()
			}()
			t.back <- true
		}()
	}
	on.Store(true)
	left := len(ts)
	for i := 0; left > 0; i = (i + 1) % len(ts) {
		t := ts[i]
		if t.done {
			continue
		}
		cur = t
		if t.env != nil {
			t.env()
		}
		t.go_ <- true
		select {
		case t.done = <-t.back:
		case <-time.After(3 * time.Second):
			// The thread waits for another one (or is very slow): let all run.
			res.Blocked = true
			on.Store(false)
			for _, u := range ts {
				if u != t && !u.done {
					u.stop = nil
					select {
					case u.go_ <- true:
					case <-time.After(time.Second):
					}
				}
			}
			for _, u := range ts {
				for !u.done {
					u.done = <-u.back
					if !u.done {
						u.go_ <- true
					}
				}
			}
		}
		if t.done {
			left = 0
			for _, u := range ts {
				if !u.done {
					left++
				}
			}
		}
	}
	on.Store(false)
	cur = nil
	for i, t := range ts {
		res.Points[i] = t.n
	}
	return res
}
