// Package rt runs enumerations: it numbers the cases, shards them over worker
// processes, records which case is being executed (so that a crash or a hang
// can be attributed and replayed) and turns panics into violations.
package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Violation struct {
	Task  string `json:"task"`
	Index int64  `json:"index"`
	Kind  string `json:"kind"`
	Msg   string `json:"msg"`
}

type Result struct {
	Violations []Violation      `json:"violations"`
	States     int64            `json:"states"`
	Trans      int64            `json:"transitions"`
	Traces     int64            `json:"traces"`
	Cases      int64            `json:"cases"`
	Capped     bool             `json:"capped"`
	CapNote    string           `json:"cap_note"`
	Notes      map[string]int64 `json:"notes"`
	Samples    []string         `json:"samples"`
	Tasks      map[string]int64 `json:"tasks"`
	Done       bool             `json:"done"`
	Findings   []string         `json:"findings"`
}

type Task struct {
	Name string
	Run  func(c *Ctx)
}

type Ctx struct {
	Thorough bool
	Seed     int64
	Shard    int
	NShard   int
	Only     int64 // replay just this case; -1 for all
	OnlyTask string

	// Counters, bumped by the tasks.
	States, Trans, Traces int64
	Notes                 map[string]int64

	res      Result
	task     string
	taskNo   int
	idx      int64
	deadline time.Time
	nsamp    int
	stop     bool
	shm      []int64
	tick     int
	failed   bool
}

type failure struct{ msg string }

// Failf ends the current case with a violation.
func (c *Ctx) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

func (c *Ctx) violate(kind, msg string) {
	if len(c.res.Violations) < 3 {
		c.res.Violations = append(c.res.Violations, Violation{c.task, c.idx, kind, msg})
	}
	c.stop = true
}

func (c *Ctx) guard(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				c.violate("mismatch", f.msg)
				return
			}
			c.violate("panic", fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()))))
		}
	}()
	fn()
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// Guard runs preparation code in every worker. It is not a case.
func (c *Ctx) Guard(fn func()) {
	if c.stop {
		return
	}
	c.mark(-1)
	c.guard(fn)
}

func (c *Ctx) mark(i int64) {
	atomic.StoreInt64(&c.shm[0], int64(c.taskNo))
	atomic.StoreInt64(&c.shm[1], i)
	atomic.AddInt64(&c.shm[2], 1)
}

// Case runs fn if the case belongs to this worker.
func (c *Ctx) Case(fn func()) {
	i := c.idx
	if !c.stop && c.Mine() {
		c.mark(i)
		c.res.Cases++
		c.guard(fn)
	}
	c.idx = i + 1
}

// Mine tells whether the next case is this worker's. Used with Skip to avoid
// the cost of preparing for cases that would not run.
func (c *Ctx) Mine() bool {
	if c.stop {
		return false
	}
	if c.Only >= 0 {
		return c.idx == c.Only
	}
	if c.tick++; c.tick&15 == 0 && time.Now().After(c.deadline) {
		c.res.Capped = true
		if c.res.CapNote == "" {
			c.res.CapNote = fmt.Sprintf("time budget reached in task %s at case %d", c.task, c.idx)
		}
		c.stop = true
		return false
	}
	return c.idx%int64(c.NShard) == int64(c.Shard)
}

// WantBlock tells whether any of the next n cases is this worker's.
func (c *Ctx) WantBlock(n int64) bool {
	if c.stop {
		return false
	}
	if c.Only >= 0 {
		return c.idx <= c.Only && c.Only < c.idx+n
	}
	return true
}

// Skip passes over n cases.
func (c *Ctx) Skip(n int64) { c.idx += n }

func (c *Ctx) Stopped() bool { return c.stop }

// Sample keeps a few written out cases for the evidence.
func (c *Ctx) Sample(f func() string) {
	if c.nsamp < 1 && len(c.res.Samples) < 12 && c.Only < 0 && c.Shard == 0 {
		c.nsamp++
		c.res.Samples = append(c.res.Samples, c.task+": "+f())
	}
}

func (c *Ctx) Note(k string, n int64) { c.Notes[k] += n }

// Finding reports that a listed known finding still fails.
func (c *Ctx) Finding(s string) { c.res.Findings = append(c.res.Findings, s) }

// Cap notes that an enumeration was cut short on purpose.
func (c *Ctx) Cap(s string) {
	c.res.Capped = true
	if c.res.CapNote == "" {
		c.res.CapNote = s
	}
}

type Options struct {
	Thorough          bool
	Seed              int64
	Shard, NShard     int
	Only              int64
	OnlyTask          string
	Budget            time.Duration
	ShmPath, OutPath  string
	HangCPU, HangWall time.Duration
	MaxHeap           uint64
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Run executes the tasks and writes the result file.
func Run(tasks []Task, o Options) {
	debug.SetMaxStack(256 << 20)
	c := &Ctx{Thorough: o.Thorough, Seed: o.Seed, Shard: o.Shard, NShard: o.NShard, Only: o.Only,
		OnlyTask: o.OnlyTask, Notes: map[string]int64{}, deadline: time.Now().Add(o.Budget)}
	c.res.Tasks = map[string]int64{}
	c.shm = mapShm(o.ShmPath)
	go watchdog(c, o)
	for i, t := range tasks {
		if o.OnlyTask != "" && t.Name != o.OnlyTask {
			continue
		}
		if c.stop {
			break
		}
		c.task, c.taskNo, c.idx, c.nsamp = t.Name, i, 0, 0
		c.Guard(func() {})
		before := c.res.Cases
		start := time.Now()
		c.guard(func() { t.Run(c) })
		c.res.Tasks[t.Name] = c.res.Cases - before
		if os.Getenv("VH_TIMES") != "" && c.Shard == 0 {
			fmt.Fprintf(os.Stderr, "%8.2fs %10d cases  %s\n", time.Since(start).Seconds(), c.idx, t.Name)
		}
		runtime.GC()
	}
	c.finish(o.OutPath)
}

func (c *Ctx) finish(path string) {
	c.res.States, c.res.Trans, c.res.Traces, c.res.Notes = c.States, c.Trans, c.Traces, c.Notes
	c.res.Done = true
	b, _ := json.Marshal(c.res)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
}

func mapShm(path string) []int64 {
	if path == "" {
		return make([]int64, 8)
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	if err := f.Truncate(64); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return unsafe.Slice((*int64)(unsafe.Pointer(&b[0])), 8)
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// allBlocked tells whether all goroutines but the current one wait for others.
func allBlocked() bool {
	first := true
	for _, line := range strings.Split(stacks(), "\n") {
		if !strings.HasPrefix(line, "goroutine ") {
			continue
		}
		if first { // this one
			first = false
			continue
		}
		i := strings.IndexByte(line, '[')
		state := strings.TrimSuffix(strings.SplitN(line[i+1:], ",", 2)[0], "]:")
		switch {
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"), strings.HasPrefix(state, "sema"), strings.HasPrefix(state, "sync."):
		default:
			return false
		}
	}
	return true
}

// watchdog ends the process when one case uses an absurd amount of CPU time and
// real time, or memory. Normal cases take milliseconds.
func watchdog(c *Ctx, o Options) {
	last := int64(-1)
	var cpu0, idle0 time.Duration
	var wall0 time.Time
	idle := 0
	for {
		time.Sleep(500 * time.Millisecond)
		seq := atomic.LoadInt64(&c.shm[2])
		if seq != last {
			last, cpu0, wall0, idle = seq, cpuTime(), time.Now(), 0
			continue
		}
		if o.HangCPU > 0 && time.Since(wall0) > 15*time.Second {
			if idle == 0 {
				idle0 = cpuTime()
			}
			if idle++; !allBlocked() || cpuTime()-idle0 > 2*time.Second {
				idle = 0
			}
			if idle >= 20 {
				fmt.Fprintf(os.Stderr, "HANG: all goroutines wait for each other\n%s\n", stacks())
				os.Exit(21)
			}
		}
		if o.HangCPU > 0 && cpuTime()-cpu0 > o.HangCPU && time.Since(wall0) > o.HangWall {
			atomic.StoreInt64(&c.shm[3], 1)
			fmt.Fprintf(os.Stderr, "HANG: one case used %v of CPU time\n", cpuTime()-cpu0)
			os.Exit(21)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if o.MaxHeap > 0 && ms.HeapAlloc > o.MaxHeap {
			fmt.Fprintf(os.Stderr, "MEMORY: a case holds %d MB\n", ms.HeapAlloc>>20)
			os.Exit(22)
		}
	}
}
