// Package vsched is a cooperative scheduler with exhaustive, preemption-bounded exploration of interleavings.
//
// The code under test is instrumented at build time (cmd/instr): Point() is called before every statement, and the
// types of package sync are replaced by those of verif/mc/vsync, which tell the scheduler when a thread blocks. Only
// one thread runs at a time. The hand-over between threads is done with plain memory in functions the race detector
// does not instrument, so that in a -race build it adds no happens-before edge: the detector sees only the
// synchronisation of the code under test and judges every explored schedule.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
)

type thread struct {
	id      int
	body    func()
	done    bool
	blocked func() bool // nil, or reports whether the thread can go on
	spins   int
	panicv  interface{}
	stack   string
	finish  sync.WaitGroup
}

// PointRec is one scheduling decision.
type PointRec struct {
	Enabled []int
	// RunningEnabled tells that Enabled[0] is the thread that was running.
	RunningEnabled bool
	Choice         int
}

// Exec is one complete execution.
type Exec struct {
	Points   []PointRec
	Choices  []int
	Deadlock bool
	Horizon  bool
	Diverged bool
	Panic    string
	Races    int
}

type sched struct {
	threads  []*thread
	cur      int
	turn     int // -1: the controller
	aborting bool
	prefix   []int
	exec     *Exec
	horizon  int
	npoints  int
}

var active *sched

type abortT struct{}

//go:norace
//go:noinline
func getActive() *sched { return active }

//go:norace
//go:noinline
func setActive(s *sched) { active = s }

// Active reports whether an exploration is running.
func Active() bool { return getActive() != nil }

//go:norace
//go:noinline
func (s *sched) waitTurn(id int) {
	for s.turn != id {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func (s *sched) give(id int) { s.turn = id }

// Point is a scheduling point.
func Point() {
	s := getActive()
	if s == nil {
		return
	}
	s.point(nil)
}

// Block waits until ready() holds; ready must not have side effects.
func Block(ready func() bool) {
	s := getActive()
	if s == nil {
		return
	}
	s.point(ready)
}

// Aborting reports whether the execution is being torn down: synchronisation must not block then.
//
//go:norace
func Aborting() bool { s := getActive(); return s != nil && s.aborting }

// point lets the scheduler choose who goes on.
//
//go:norace
func (s *sched) point(ready func() bool) {
	me := s.threads[s.cur]
	if s.aborting {
		if ready != nil {
			panic(abortT{})
		}
		return
	}
	me.blocked = ready
	next := s.choose(me)
	if next < 0 {
		// deadlock or horizon: tear down
		panic(abortT{})
	}
	if next != me.id {
		s.cur = next
		s.give(next)
		s.waitTurn(me.id)
		if s.aborting {
			panic(abortT{})
		}
	}
	me.blocked = nil
}

//go:norace
func (s *sched) choose(running *thread) int {
	s.npoints++
	if s.npoints > s.horizon {
		s.exec.Horizon = true
		s.aborting = true
		return -1
	}
	var enabled []int
	runningEnabled := false
	if running != nil && !running.done && (running.blocked == nil || running.blocked()) {
		enabled = append(enabled, running.id)
		runningEnabled = true
	}
	for _, t := range s.threads {
		if t == running || t.done {
			continue
		}
		if t.blocked == nil || t.blocked() {
			enabled = append(enabled, t.id)
		}
	}
	if len(enabled) == 0 {
		s.exec.Deadlock = true
		s.aborting = true
		return -1
	}
	if len(enabled) == 1 {
		return enabled[0]
	}
	i := len(s.exec.Points)
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= len(enabled) {
			s.exec.Diverged = true
			c = 0
		}
	}
	s.exec.Points = append(s.exec.Points, PointRec{Enabled: enabled, RunningEnabled: runningEnabled, Choice: c})
	s.exec.Choices = append(s.exec.Choices, c)
	return enabled[c]
}

//go:norace
func (s *sched) threadMain(t *thread) {
	s.waitTurn(t.id)
	if !s.aborting {
		s.runBody(t)
	}
	t.done = true
	// pass on
	if s.aborting {
		for _, o := range s.threads {
			if !o.done {
				s.cur = o.id
				s.give(o.id)
				return
			}
		}
		s.give(-1)
		return
	}
	all := true
	for _, o := range s.threads {
		if !o.done {
			all = false
		}
	}
	if all {
		s.give(-1)
		return
	}
	next := s.choose(t)
	if next < 0 {
		for _, o := range s.threads {
			if !o.done {
				next = o.id
				break
			}
		}
	}
	s.cur = next
	s.give(next)
}

func (s *sched) runBody(t *thread) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); ok {
				return
			}
			t.panicv = r
			t.stack = string(debug.Stack())
		}
	}()
	t.body()
}

// Run executes the bodies as threads under the choices in prefix (then always the first choice).
func Run(prefix []int, horizon int, bodies ...func()) *Exec {
	s := &sched{turn: -1, prefix: prefix, exec: &Exec{}, horizon: horizon}
	for i, b := range bodies {
		s.threads = append(s.threads, &thread{id: i, body: b})
	}
	r0 := raceErrors()
	setActive(s)
	for _, t := range s.threads {
		t := t
		t.finish.Add(1)
		go func() {
			defer t.finish.Done()
			s.threadMain(t)
		}()
	}
	first := s.choose(nil)
	s.cur = first
	s.give(first)
	s.waitTurn(-1)
	for _, t := range s.threads {
		t.finish.Wait()
	}
	setActive(nil)
	e := s.exec
	e.Races = raceErrors() - r0
	for _, t := range s.threads {
		if t.panicv != nil {
			e.Panic = fmt.Sprintf("thread %d: panic: %v\n%s", t.id, t.panicv, t.stack)
		}
	}
	return e
}

// Stats counts what an exploration covered.
type Stats struct {
	Schedules  int
	Points     int
	MaxPreempt int
	Truncated  bool
}

// Explore runs mk() for every schedule with at most bound preemptions. mk returns fresh thread bodies and a check
// evaluated after each execution; the check returns false to stop. stop is polled between executions.
func Explore(bound, horizon int, mk func() ([]func(), func(e *Exec) bool), stop func() bool) Stats {
	var st Stats
	type item struct {
		prefix []int
	}
	stack := []item{{nil}}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if st.Schedules%16 == 15 && stop() {
			st.Truncated = true
			return st
		}
		bodies, check := mk()
		e := Run(it.prefix, horizon, bodies...)
		st.Schedules++
		st.Points += len(e.Points)
		if !check(e) {
			st.Truncated = true
			return st
		}
		// preemptions before point i along this execution
		pre := make([]int, len(e.Points)+1)
		for i, p := range e.Points {
			pre[i+1] = pre[i]
			if p.RunningEnabled && p.Choice != 0 {
				pre[i+1]++
			}
		}
		if n := pre[len(e.Points)]; n > st.MaxPreempt {
			st.MaxPreempt = n
		}
		for i := len(e.Points) - 1; i >= len(it.prefix); i-- {
			p := e.Points[i]
			cost := pre[i]
			if p.RunningEnabled {
				cost++
			}
			if cost > bound {
				continue
			}
			for alt := len(p.Enabled) - 1; alt >= 1; alt-- {
				np := make([]int, i+1)
				copy(np, e.Choices[:i])
				np[i] = alt
				stack = append(stack, item{np})
			}
		}
	}
	return st
}
