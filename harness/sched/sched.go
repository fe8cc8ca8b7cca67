// Package sched runs goroutines one at a time under a given schedule.
//
// The instrumented code calls Point before every statement. A schedule is an
// order of the threads (who starts, and who goes on when a thread ends) and a
// list of preemptions: at the numbered point, control goes to another thread.
// Goroutines that are not threads of the running schedule pass through.
package sched

import (
	"fmt"
	"runtime/debug"
	"sync/atomic"
	"time"
)

func getg() uintptr

// Preempt switches to thread To at point number At (counted over all threads).
type Preempt struct{ At, To int }

type thread struct {
	id     int
	g      uintptr
	wake   chan struct{}
	done   bool
	stuck  bool // blocked outside the scheduler's knowledge
	points int
	panicv string
}

var (
	active  bool
	curG    uintptr
	cur     *thread
	points  int
	next    int // number of the next preemption
	plan    []Preempt
	threads []*thread
	order   []int
	spins   int
	// Switches where a thread had to wait for a lock.
	waits    int
	deadlock bool
	mu       int32 // guards switching when a stuck thread comes back
	finished chan struct{}
	segs     []Seg
	ends     []int
)

const never = int(^uint(0) >> 1)

// Result of a run.
type Result struct {
	Points   int   // points passed
	Each     []int // per thread
	Panics   []string
	Deadlock bool
	Waits    int
	// Segs says which thread ran from which point on.
	Segs []Seg
	// Ends are the numbers of points passed when each thread ended.
	Ends []int
}

// Seg is a part of a run by one thread.
type Seg struct{ From, Thread int }

//go:norace
func lock() {
	for !atomic.CompareAndSwapInt32(&mu, 0, 1) {
		time.Sleep(time.Microsecond)
	}
}

//go:norace
func unlock() { atomic.StoreInt32(&mu, 0) }

// Run runs the bodies under a schedule.
//
//go:norace
func Run(bodies []func(), ord []int, pl []Preempt) Result {
	threads = nil
	order, plan = ord, pl
	points, spins, waits = 0, 0, 0
	deadlock = false
	segs, ends = nil, make([]int, len(bodies))
	setNext()
	ready := make(chan struct{}, len(bodies))
	finished = make(chan struct{}, len(bodies)+1)
	join := make(chan struct{}, len(bodies)) // real synchronisation
	for i, b := range bodies {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		threads = append(threads, t)
		go body(t, b, ready, join)
	}
	for range bodies {
		<-ready
	}
	active = true
	give(threads[order[0]])
	alive := len(bodies)
	tick := time.NewTicker(250 * time.Millisecond)
	last, same := -1, 0
	for alive > 0 && !deadlock {
		hide()
		select {
		case <-finished:
			alive--
			unhide()
			continue
		case <-tick.C:
		}
		unhide()
		lock()
		if points != last {
			last, same = points, 0
		} else if same++; same >= 2 {
			// The running thread does not get to its next statement: it is blocked in
			// something this package does not know. Let another one run.
			if same > 40 {
				deadlock = true
			}
			if cur != nil && !cur.stuck {
				cur.stuck = true
				if t := choose(nil); t != nil {
					give(t)
				} else {
					cur, curG = nil, 0
				}
			}
		}
		unlock()
	}
	tick.Stop()
	active = false
	r := Result{Points: points, Deadlock: deadlock, Waits: waits, Segs: segs, Ends: ends}
	for _, t := range threads {
		r.Each = append(r.Each, t.points)
	}
	if !deadlock {
		for range bodies {
			<-join
		}
		for _, t := range threads {
			r.Panics = append(r.Panics, t.panicv)
		}
	}
	return r
}

//go:norace
func body(t *thread, f func(), ready, join chan struct{}) {
	t.g = getg()
	hide()
	ready <- struct{}{}
	<-t.wake
	unhide()
	guarded(t, f)
	lock()
	t.done = true
	t.g = 0
	ends[t.id] = points
	if cur == t || cur == nil {
		if n := choose(t); n != nil {
			give(n)
		} else {
			cur, curG = nil, 0
		}
	}
	unlock()
	join <- struct{}{}
	hide()
	finished <- struct{}{}
	unhide()
}

func guarded(t *thread, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.panicv = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
}

//go:norace
func setNext() {
	if len(plan) > 0 {
		next = plan[0].At
	} else {
		next = never
	}
}

// give hands control to t.
//
//go:norace
func give(t *thread) {
	cur, curG = t, t.g
	segs = append(segs, Seg{points, t.id})
	hide()
	t.wake <- struct{}{}
	unhide()
}

// choose picks the next thread in order after one that cannot go on.
//
//go:norace
func choose(not *thread) *thread {
	start := 0
	if not != nil {
		for i, id := range order {
			if id == not.id {
				start = i + 1
			}
		}
	}
	for i := range order {
		t := threads[order[(start+i)%len(order)]]
		if t != not && !t.done && !t.stuck {
			return t
		}
	}
	return nil
}

// Point is a place where another thread may take over.
//
//go:norace
func Point() {
	if !active {
		return
	}
	g := getg()
	if g != curG {
		back(g)
		return
	}
	p := points
	points = p + 1
	cur.points++
	spins = 0
	if p == next {
		preempt()
	}
}

//go:norace
func preempt() {
	t := cur
	lock()
	to := threads[plan[0].To%len(threads)]
	plan = plan[1:]
	setNext()
	if to == t || to.done || to.stuck {
		unlock()
		return
	}
	give(to)
	unlock()
	park(t)
}

//go:norace
func park(t *thread) {
	hide()
	<-t.wake
	unhide()
}

// back is for threads that were taken for stuck and come back.
//
//go:norace
func back(g uintptr) {
	for _, t := range threads {
		if t.g == g && !t.done {
			lock()
			if cur == t {
				unlock()
				return
			}
			t.stuck = false
			if cur == nil {
				cur, curG = t, t.g
				unlock()
				return
			}
			unlock()
			park(t)
			return
		}
	}
}

// Controlled reports whether the caller is the running thread.
//
//go:norace
func Controlled() bool { return active && getg() == curG }

// Wait lets other threads run because the running thread must wait for a lock.
// It returns false when the caller is not a controlled thread.
//
//go:norace
func Wait() bool {
	if !Controlled() {
		return false
	}
	t := cur
	waits++
	spins++
	lock()
	n := choose(t)
	if n == nil || spins > 10000 {
		// Every other thread has ended or waits as well.
		stuck := false
		for _, o := range threads {
			stuck = stuck || o.stuck
		}
		if !stuck {
			deadlock = true
			unlock()
			hide()
			finished <- struct{}{}
			unhide()
			select {}
		}
		unlock()
		time.Sleep(time.Millisecond)
		return true
	}
	give(n)
	unlock()
	park(t)
	return true
}
