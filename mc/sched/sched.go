// Package sched is the scheduler of the model checker for concurrency. The
// sources of the implementation are instrumented, by a build overlay, to call Y
// ahead of every statement (F for the first statement of a function), so that
// the scheduler decides where one negotiation is suspended in favour of another.
//
// One thread runs at a time. Control is handed over by plain memory accesses
// that the race detector does not see (norace), hence the race detector finds
// exactly the accesses that the implementation itself leaves unordered.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Switch suspends the running thread From at its At-th yield point (counting
// function entries only, if Coarse) in favour of To.
type Switch struct {
	From, To, At int
	Coarse       bool
}

// Result is what a schedule led to.
type Result struct {
	// Fine and Coarse are the numbers of yield points that were passed.
	Fine, Coarse []int
	// Problem is a panic, a deadlock or a hang.
	Problem string
	// Taken is the number of switches that took place.
	Taken int
}

type thread struct {
	fine, coarse int
	done         bool
	problem      string
	gid          string
}

const maxThreads = 4

var (
	active  bool
	free    bool // every thread runs as it likes
	cur     int
	n       int
	plan    []Switch
	next    int
	order   []int
	threads [maxThreads]thread
	spins   int

	// Exotic tells that the sources use channels or goroutines.
	Exotic bool
)

// deadlock is the value a blocked thread panics with.
type deadlock struct{}

// Y is a yield point.
//
//go:norace
func Y() {
	if active {
		step(false)
	}
}

// F is the yield point at the entry of a function.
//
//go:norace
func F() {
	if active {
		step(true)
	}
}

//go:norace
func step(entry bool) {
	if free || Exotic && goid() != threads[cur].gid {
		return
	}
	t := &threads[cur]
	t.fine++
	if entry {
		t.coarse++
	}
	spins = 0
	if next < len(plan) && plan[next].From == cur {
		s := &plan[next]
		if s.Coarse && entry && t.coarse == s.At || !s.Coarse && t.fine == s.At {
			next++
			handOver(s.To)
		}
	}
}

//go:norace
func handOver(to int) {
	me := cur
	if to == me || threads[to].done {
		return
	}
	cur = to
	await(me)
}

//go:norace
func await(me int) {
	for read(&cur) != me && !readBool(&free) {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func read(p *int) int { return *p }

//go:norace
//go:noinline
func readBool(p *bool) bool { return *p }

// Managed tells whether the calling goroutine is scheduled.
//
//go:norace
func Managed() bool {
	return active && !free && (!Exotic || goid() == threads[cur].gid)
}

// Blocked gives way to the other threads, as the calling one can not go on.
//
//go:norace
func Blocked() {
	spins++
	if spins > 64 {
		panic(deadlock{})
	}
	for k := 1; k < n; k++ {
		to := (cur + k) % n
		if !threads[to].done {
			handOver(to)
			return
		}
	}
	runtime.Gosched()
}

func goid() string {
	var b [32]byte
	s := string(b[:runtime.Stack(b[:], false)])
	s = strings.TrimPrefix(s, "goroutine ")
	if i := strings.IndexByte(s, ' '); i > 0 {
		return s[:i]
	}
	return s
}

//go:norace
func begin(me int) {
	threads[me].gid = goid()
	await(me)
}

//go:norace
func end(me int, problem string) {
	threads[me].done = true
	threads[me].problem = problem
	if free {
		return
	}
	for _, k := range order {
		if !threads[k].done {
			cur = k
			return
		}
	}
	active = false
}

//go:norace
func reset(fns int, p []Switch, ord []int, first int) {
	n, plan, next, order, cur, spins, free = fns, p, 0, ord, first, 0, false
	for i := range threads {
		threads[i] = thread{}
	}
	active = true
}

//go:norace
func result() (r Result) {
	active = false
	for i := 0; i < n; i++ {
		r.Fine = append(r.Fine, threads[i].fine)
		r.Coarse = append(r.Coarse, threads[i].coarse)
		if threads[i].problem != "" && r.Problem == "" {
			r.Problem = fmt.Sprintf("thread %d: %s", i, threads[i].problem)
		}
	}
	r.Taken = next
	return
}

//go:norace
func release() { free = true }

// Run runs the functions as threads, starting with the first thread, with the
// switches in sequence. A thread that ends is followed by the first one of
// the order that has not ended.
func Run(fns []func(), p []Switch, ord []int, first int) (r Result, hung bool) {
	reset(len(fns), p, ord, first)
	var wg sync.WaitGroup
	for i, f := range fns {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			begin(i)
			problem := call(f)
			end(i, problem)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		// a thread waits for something that is not under control of the
		// scheduler, or does not end.
		release()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			return Result{Problem: "the negotiations do not end"}, true
		}
	}
	return result(), false
}

func call(f func()) (problem string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadlock); ok {
				problem = "deadlock"
				return
			}
			problem = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
	return
}
