package main

import (
	"fmt"
	"runtime"
	"runtime/debug"

	"verifsim/hook"
)

// The simulator. Tasks are goroutines of which exactly one runs at a time; the scheduler
// goroutine hands execution over through unbuffered channels. In the race build these
// hand-offs are hidden from the race detector, so that two tasks are ordered only by
// synchronisation of the code under test.

type taskState int

const (
	ready taskState = iota
	sleeping
	lockwait
	stalled
	finished
)

type killed struct{ why string }

// simTask is one simulated caller.
type simTask struct {
	h        hook.Task
	sim      *Sim
	id       int
	fn       func()
	run      chan struct{}
	done     chan struct{}
	state    taskState
	wake     int64
	kill     string
	released bool // a stall was ended
	limit    uint64
	progress uint64 // steps at the last lock wait
	prio     uint64

	panicked interface{}
	stack    string
	goexit   bool
	wasKill  string
}

// Sim runs a set of tasks under a schedule.
type Sim struct {
	tasks     []*simTask
	evt       chan struct{}
	now       int64 // simulated nanoseconds
	sch       *Schedule
	r         *rng
	trace     []Seg
	hash      uint64
	switches  int
	lockStall bool // tasks waited for a lock while the only other tasks were stalled
	deadlock  bool
	cur       int
	changePt  []uint64
	total     uint64
	forced    int
	slots     map[int]interface{} // reader objects that are used again (C10)
	noPreempt bool                // policy stallonly: tasks change only at stalls and ends
}

// maxFrames, if positive, is the number of stack frames that a solo task may have. The depth is
// sampled every depthEvery steps.
var maxFrames int

const depthEvery = 256

// solo runs fn as the only task, on this goroutine. It returns how fn ended.
func solo(limit uint64, fn func()) (t *simTask) {
	t = &simTask{limit: limit}
	t.h.Next = limit
	if maxFrames > 0 {
		t.h.Next = depthEvery
	}
	t.h.Slow = func() {
		if t.h.Steps >= t.limit {
			panic(killed{"step limit"})
		}
		t.h.Next += depthEvery
		if t.h.Next > t.limit {
			t.h.Next = t.limit
		}
		var pc [1]uintptr
		if runtime.Callers(maxFrames, pc[:]) > 0 {
			panic(killed{fmt.Sprintf("more than %d stack frames", maxFrames)})
		}
	}
	t.h.Block = func() { panic(killed{"deadlock"}) }
	hook.Foreign = false
	hook.Cur = &t.h
	defer func() {
		hook.Cur = nil
		if p := recover(); p != nil {
			if k, ok := p.(killed); ok {
				t.wasKill = k.why
				return
			}
			t.panicked = p
			t.stack = string(debug.Stack())
		}
	}()
	fn()
	return t
}

func newSim(sch *Schedule) *Sim {
	if sch == nil {
		sch = &Schedule{Policy: "seq"}
	}
	return &Sim{noPreempt: sch.Policy == "stallonly", sch: sch, r: newRng(sch.Seed, 0x5c4ed), evt: make(chan struct{}), cur: -1}
}

func (s *Sim) add(limit uint64, fn func()) *simTask {
	t := &simTask{sim: s, id: len(s.tasks), fn: fn, run: make(chan struct{}), done: make(chan struct{}), limit: limit}
	t.h.Slow = t.slow
	t.h.Block = t.block
	s.tasks = append(s.tasks, t)
	return t
}

//go:norace
func (t *simTask) slow() {
	if t.h.Steps >= t.limit {
		panic(killed{"step limit"})
	}
	t.state = ready
	t.pause()
}

//go:norace
func (t *simTask) block() {
	t.state = lockwait
	t.pause()
}

// running tells whether t is the task that runs now.
//
//go:norace
func (t *simTask) running() bool { return hook.Cur == &t.h }

// sleep parks the task for ns simulated nanoseconds.
//
//go:norace
func (t *simTask) sleep(ns int64) {
	if hook.Foreign || t.sim.noPreempt || !t.running() {
		return
	}
	t.state = sleeping
	t.wake = ns
	t.pause()
}

// stall parks the task until the simulator releases it (when nothing else can run).
//
//go:norace
func (t *simTask) stall() {
	if hook.Foreign || !t.running() {
		return
	}
	t.state = stalled
	t.pause()
}

//go:norace
func (t *simTask) pause() {
	hook.Cur = nil
	hook.Hide()
	t.sim.evt <- struct{}{}
	<-t.run
	hook.Show()
	if t.kill != "" {
		panic(killed{t.kill})
	}
}

//go:norace
func (t *simTask) begin() {
	hook.Hide()
	<-t.run
	hook.Show()
}

//go:norace
func (t *simTask) end() {
	t.state = finished
	hook.Cur = nil
	hook.Hide()
	t.sim.evt <- struct{}{}
	hook.Show()
}

func (t *simTask) main() {
	t.begin()
	ok := false
	defer func() {
		if p := recover(); p != nil {
			if k, isKill := p.(killed); isKill {
				t.wasKill = k.why
			} else {
				t.panicked = p
				t.stack = string(debug.Stack())
			}
		} else if !ok {
			t.goexit = true
		}
		close(t.done)
		t.end()
	}()
	t.fn()
	ok = true
}

// Run runs all tasks to their end.
func (s *Sim) Run() {
	hook.Foreign = false
	for _, t := range s.tasks {
		go t.main()
	}
	if s.sch.Policy == "pct" {
		for _, t := range s.tasks {
			t.prio = 1000 + s.r.u64()%1000000
		}
		n := 1 + s.r.n(5)
		max := s.sch.Mean
		if max < 10 {
			max = 10
		}
		for i := 0; i < n; i++ {
			s.changePt = append(s.changePt, uint64(s.r.n(max)))
		}
	}
	for {
		t, q := s.pick()
		if t == nil {
			break
		}
		s.resume(t, q)
	}
	for _, t := range s.tasks {
		<-t.done
	}
	hook.Cur = nil
}

func (s *Sim) resume(t *simTask, quantum uint64) {
	before := t.h.Steps
	next := before + quantum
	if next > t.limit || next < before {
		next = t.limit
	}
	t.h.Next = next
	s.cur = t.id
	s.handOver(t)
	used := t.h.Steps - before
	s.now += int64(used)
	s.total += used
	if t.state == sleeping {
		t.wake += s.now
	}
	if n := len(s.trace); n > 0 && s.trace[n-1].T == t.id {
		s.trace[n-1].K += used
	} else {
		s.trace = append(s.trace, Seg{t.id, used})
		s.switches++
	}
	s.hash = mix(s.hash ^ mix(uint64(t.id)<<40^used^uint64(t.state)<<60))
}

//go:norace
func (s *Sim) handOver(t *simTask) {
	hook.Cur = &t.h
	hook.Hide()
	t.run <- struct{}{}
	<-s.evt
	hook.Show()
	hook.Cur = nil
}

// pick chooses the next task and how long it may run.
func (s *Sim) pick() (*simTask, uint64) {
	for {
		var can []*simTask
		var waiting, stuck []*simTask
		var nextWake int64 = -1
		for _, t := range s.tasks {
			switch t.state {
			case ready:
				can = append(can, t)
			case sleeping:
				if t.wake <= s.now {
					can = append(can, t)
				} else if nextWake < 0 || t.wake < nextWake {
					nextWake = t.wake
				}
			case lockwait:
				// a lock waiter may retry once somebody else made progress
				if t.progress != s.total || s.total == 0 {
					can = append(can, t)
				} else {
					waiting = append(waiting, t)
				}
			case stalled:
				stuck = append(stuck, t)
			}
		}
		if len(can) == 0 {
			switch {
			case nextWake >= 0:
				s.now = nextWake
				continue
			case len(waiting) > 0 && len(stuck) > 0:
				s.lockStall = true
				s.release(stuck[0])
				continue
			case len(waiting) > 0:
				s.deadlock = true
				waiting[0].kill = "deadlock"
				waiting[0].state = ready
				continue
			case len(stuck) > 0:
				s.release(stuck[0])
				continue
			}
			return nil, 0
		}
		t, q := s.choose(can)
		if t.state == lockwait {
			t.progress = s.total
		}
		t.state = ready
		return t, q
	}
}

func (s *Sim) release(t *simTask) {
	t.released = true
	t.state = ready
}

const forever = uint64(1) << 62

func (s *Sim) choose(can []*simTask) (*simTask, uint64) {
	byID := func(id int) *simTask {
		for _, t := range can {
			if t.id == id {
				return t
			}
		}
		return nil
	}
	mean := s.sch.Mean
	if mean < 1 {
		mean = 50
	}
	switch s.sch.Policy {
	case "trace":
		for s.forced < len(s.sch.Trace) {
			seg := s.sch.Trace[s.forced]
			s.forced++
			if t := byID(seg.T); t != nil {
				k := seg.K
				if k == 0 {
					k = 1
				}
				return t, k
			}
		}
		return can[0], forever
	case "random":
		return can[s.r.n(len(can))], uint64(s.r.geo(mean))
	case "rr":
		for i := 1; i <= len(s.tasks); i++ {
			if t := byID((s.cur + i) % len(s.tasks)); t != nil {
				return t, uint64(mean)
			}
		}
		return can[0], uint64(mean)
	case "reads": // switch only where a task gives up control itself
		return can[s.r.n(len(can))], forever
	case "bursts": // long runs with dense switching in between
		if s.r.p(20) {
			return can[s.r.n(len(can))], uint64(s.r.logn(4 * mean))
		}
		return can[s.r.n(len(can))], uint64(1 + s.r.n(3))
	case "pct":
		best := can[0]
		for _, t := range can {
			if t.prio > best.prio {
				best = t
			}
		}
		q := forever
		for i := 0; i < len(s.changePt); i++ {
			if s.changePt[i] <= s.total {
				s.changePt = append(s.changePt[:i], s.changePt[i+1:]...)
				best.prio = uint64(i + 1)
				return s.choose(can)
			}
			if d := s.changePt[i] - s.total; d < q {
				q = d
			}
		}
		return best, q
	}
	return can[0], forever // seq
}

func (t *simTask) failure() string {
	switch {
	case t.wasKill != "":
		return t.wasKill
	case t.panicked != nil:
		return fmt.Sprintf("panic: %v", t.panicked)
	case t.goexit:
		return "goexit"
	}
	return ""
}
