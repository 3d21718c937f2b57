// Package sched runs a few goroutines under a controlled scheduler: exactly one
// runs at a time, and it can only be replaced by another at a call of P, which
// the instrumentation puts before every statement of the packages under test.
// Explore enumerates all schedules with at most a given number of preemptions.
//
// The goroutines hand over by plain memory accesses in functions that the race
// detector does not see (go:norace), with GOMAXPROCS=1. So the race detector
// knows only the synchronization of the code under test, and reports accesses
// that this does not order in every schedule explored.
package sched

import (
	"runtime"
	"time"
)

const (
	maxThreads = 4
	maxChoices = 1 << 14
	// A thread that runs this long while others could run is replaced, so that
	// busy waiting ends.
	fairAfter = 3000
	// An execution this long does not end.
	maxSteps = 60000
)

type choice struct{ n, c int16 }

var (
	active  bool
	cur     int
	nthr    int
	alive   [maxThreads]bool // started and not done
	waiting [maxThreads]bool // for a lock
	clock   int
	steps   int
	run     int // steps since the last switch
	bound   int
	used    int // preemptions so far
	aborted string

	prefix  [maxChoices]int16
	nprefix int
	trace   [maxChoices]choice
	ntrace  int
	full    bool

	points int64 // over all executions
)

type abort struct{}

// Steps counts the blocks of the code under test that were entered, where it is
// instrumented for that.
var Steps int64

// C counts.
func C() { Steps++ }

// P is a point where another thread may take over.
//
//go:norace
func P() {
	if active {
		step()
	}
}

//go:norace
func step() {
	points++
	clock++
	steps++
	run++
	if aborted != "" {
		panic(abort{})
	}
	if steps > maxSteps {
		aborted = "the calls do not end"
		panic(abort{})
	}
	me := cur
	if run > fairAfter {
		if t := next(me); t >= 0 {
			switchTo(me, t)
		}
		return
	}
	if used >= bound || full {
		return
	}
	n := 1
	for t := 0; t < nthr; t++ {
		if t != me && alive[t] && !waiting[t] {
			n++
		}
	}
	if n == 1 {
		return
	}
	k := choose(n)
	if k == 0 {
		return
	}
	used++
	for t := 0; t < nthr; t++ {
		if t != me && alive[t] && !waiting[t] {
			if k--; k == 0 {
				switchTo(me, t)
				return
			}
		}
	}
}

// next is the next thread after me that can run, or -1.
//
//go:norace
func next(me int) int {
	for i := 1; i < nthr; i++ {
		if t := (me + i) % nthr; alive[t] && !waiting[t] {
			return t
		}
	}
	return -1
}

//go:norace
func choose(n int) int {
	k := 0
	if ntrace < nprefix {
		k = int(prefix[ntrace])
		if k >= n {
			aborted = "harness: the schedule cannot be replayed"
			panic(abort{})
		}
	}
	if ntrace == maxChoices {
		full = true
		return 0
	}
	trace[ntrace] = choice{int16(n), int16(k)}
	ntrace++
	return k
}

//go:norace
func switchTo(me, t int) {
	run = 0
	cur = t
	for spins := 0; cur != me; spins++ {
		runtime.Gosched()
	}
	if aborted != "" {
		panic(abort{})
	}
}

// pick passes control on from a thread that cannot go on, to any other.
//
//go:norace
func pick(me int) bool {
	n := 0
	for t := 0; t < nthr; t++ {
		if alive[t] && !waiting[t] {
			n++
		}
	}
	if n == 0 {
		return false
	}
	k := 0
	if n > 1 && aborted == "" {
		k = choose(n)
	}
	for t := 0; t < nthr; t++ {
		if alive[t] && !waiting[t] {
			if k == 0 {
				run = 0
				cur = t
				return true
			}
			k--
		}
	}
	return false
}

// Wait is called by a thread that needs another to do something first, until
// it has.
//
//go:norace
func Wait() {
	if !active {
		runtime.Gosched()
		return
	}
	clock++
	me := cur
	waiting[me] = true
	if !pick(me) {
		aborted = "all the calls wait for each other"
		wakeAll()
		panic(abort{})
	}
	for cur != me {
		runtime.Gosched()
	}
	if aborted != "" {
		panic(abort{})
	}
}

// Wake lets the waiting threads look again.
//
//go:norace
func Wake() {
	if active {
		wakeAll()
	}
}

//go:norace
func wakeAll() {
	for t := range waiting {
		waiting[t] = false
	}
}

// Yield is runtime.Gosched of the code under test.
//
//go:norace
func Yield() {
	if !active {
		runtime.Gosched()
		return
	}
	P()
	me := cur
	if t := next(me); t >= 0 {
		switchTo(me, t)
	}
}

// Sleep is time.Sleep of the code under test.
func Sleep(time.Duration) { Yield() }

// Active tells whether threads are being scheduled.
//
//go:norace
func Active() bool { return active }

// Now is a time stamp; later events have greater ones.
//
//go:norace
func Now() int {
	clock++
	return clock
}

//go:norace
func begin(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func end(me int) {
	alive[me] = false
	wakeAll()
	if !pick(me) {
		cur = -1
		active = false
	}
}

//go:norace
func prepare(n, b int) {
	nthr, bound, used, clock, steps, run, ntrace, full, aborted = n, b, 0, 0, 0, 0, 0, false, ""
	for t := range alive {
		alive[t], waiting[t] = t < n, false
	}
	cur = -1
}

//go:norace
func start() {
	active = true
	pick(-1)
}

//go:norace
func advance() bool {
	for i := ntrace - 1; i >= 0; i-- {
		if trace[i].c+1 < trace[i].n {
			for j := 0; j < i; j++ {
				prefix[j] = trace[j].c
			}
			prefix[i] = trace[i].c + 1
			nprefix = i + 1
			return true
		}
	}
	return false
}

//go:norace
func state() (string, bool) { return aborted, full }

// Schedule is the current schedule as "thread switches at choice numbers".
//
//go:norace
func Schedule() []int {
	out := make([]int, ntrace)
	for i := range out {
		out[i] = int(trace[i].c)
	}
	return out
}

// Points is the number of scheduling points passed so far.
//
//go:norace
func Points() int64 { return points }

// Stats of an exploration.
type Stats struct {
	Schedules int64
	Truncated bool // more choices than can be recorded
}

// Explore runs setup, the threads it returns, and check, for every schedule with
// at most bound preemptions, until check or more returns false. Problem is not
// empty if the threads could not all end.
func Explore(bound int, setup func() []func(), check func(problem string) bool) Stats {
	var st Stats
	nprefix = 0
	for {
		threads := setup()
		prepare(len(threads), bound)
		done := make([]chan struct{}, len(threads))
		for i := range threads {
			i, f := i, threads[i]
			done[i] = make(chan struct{}, 1)
			go func() {
				begin(i)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(abort); !ok {
								panic(r)
							}
						}
					}()
					f()
				}()
				ch := done[i]
				end(i)
				ch <- struct{}{}
			}()
		}
		start()
		for i := range done {
			<-done[i]
		}
		problem, trunc := state()
		st.Schedules++
		if trunc {
			st.Truncated = true
		}
		if !check(problem) {
			return st
		}
		if !advance() {
			return st
		}
	}
}

// IsAbort tells whether a recovered panic is the scheduler's and must go on.
func IsAbort(r interface{}) bool {
	_, ok := r.(abort)
	return ok
}
