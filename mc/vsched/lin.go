package vsched

import (
	"fmt"
	"os"
	"strings"
)

// Op is one operation of a concurrent harness: it runs against obj and says what it observed.
type Op struct {
	Name string
	Run  func(obj interface{}) string
}

// Harness is a closed concurrent test: a fresh object, a sequential prologue, threads of operations and a final
// observation.
type Harness struct {
	Name    string
	New     func() interface{}
	Threads [][]Op
	Final   func(obj interface{}) string
}

type opID struct{ t, k int }

var clock int

//go:norace
//go:noinline
func tick() int { clock++; return clock }

// Sequential computes the outcome of every order of the operations that respects each thread's program order, on the
// real object run sequentially.
func (h *Harness) Sequential() (outcomes map[string][][]opID, orders int) {
	outcomes = map[string][][]opID{}
	var rec func(pos []int, order []opID)
	total := 0
	for _, t := range h.Threads {
		total += len(t)
	}
	rec = func(pos []int, order []opID) {
		if len(order) == total {
			obj := h.New()
			res := make([][]string, len(h.Threads))
			for i := range res {
				res[i] = make([]string, len(h.Threads[i]))
			}
			for _, o := range order {
				res[o.t][o.k] = guard(h.Threads[o.t][o.k], obj)
			}
			key := render(res, h.Final(obj))
			outcomes[key] = append(outcomes[key], append([]opID(nil), order...))
			orders++
			return
		}
		for i := range h.Threads {
			if pos[i] < len(h.Threads[i]) {
				pos[i]++
				rec(pos, append(order, opID{i, pos[i] - 1}))
				pos[i]--
			}
		}
	}
	rec(make([]int, len(h.Threads)), nil)
	return outcomes, orders
}

func guard(o Op, obj interface{}) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); ok {
				panic(r)
			}
			s = fmt.Sprintf("panic(%v)", r)
		}
	}()
	return o.Run(obj)
}

func render(res [][]string, final string) string {
	var b strings.Builder
	for i, r := range res {
		fmt.Fprintf(&b, "T%d: %s\n", i, strings.Join(r, " | "))
	}
	b.WriteString("final: " + final)
	return b.String()
}

// Result of Check.
type Result struct {
	Stats
	SeqOrders   int
	SeqOutcomes int
	Observed    map[string]int
	Failure     string
	Race        bool
}

// Check explores h with at most bound preemptions and decides linearizability of every complete history, absence of
// deadlock, panic and (in a -race build) data race.
func (h *Harness) Check(bound int, stop func() bool) Result {
	r := Result{Observed: map[string]int{}}
	seq, n := h.Sequential()
	r.SeqOrders, r.SeqOutcomes = n, len(seq)
	r.Stats = Explore(bound, 50000, func() ([]func(), func(e *Exec) bool) {
		obj := h.New()
		res := make([][]string, len(h.Threads))
		call := make([][]int, len(h.Threads))
		ret := make([][]int, len(h.Threads))
		bodies := make([]func(), len(h.Threads))
		for i := range h.Threads {
			i := i
			ops := h.Threads[i]
			res[i] = make([]string, len(ops))
			call[i] = make([]int, len(ops))
			ret[i] = make([]int, len(ops))
			bodies[i] = func() {
				for k, o := range ops {
					Point()
					call[i][k] = tick()
					res[i][k] = guard(o, obj)
					ret[i][k] = tick()
				}
			}
		}
		return bodies, func(e *Exec) bool {
			sched := func() string { return fmt.Sprintf("schedule %v", e.Choices) }
			switch {
			case e.Diverged:
				r.Failure = "HARNESS: replay of a prefix diverged: " + sched()
				return false
			case e.Deadlock:
				r.Failure = "deadlock: " + sched()
				return false
			case e.Horizon:
				r.Failure = "no termination within the horizon: " + sched()
				return false
			case e.Panic != "":
				r.Failure = e.Panic + "\n" + sched()
				return false
			case e.Races > 0:
				r.Failure = "data race: " + sched() + "\n" + RaceReport()
				r.Race = true
				return false
			}
			key := render(res, h.Final(obj))
			r.Observed[key]++
			orders, ok := seq[key]
			if !ok {
				r.Failure = fmt.Sprintf("not linearizable: %s\n%s\nno sequential order of the operations gives this", sched(), key)
				return false
			}
			for _, ord := range orders {
				if respects(ord, call, ret) {
					return true
				}
			}
			r.Failure = fmt.Sprintf("not linearizable (real-time order): %s\n%s", sched(), key)
			return false
		}
	}, stop)
	return r
}

// respects reports whether ord keeps every operation that returned before another was called before it.
func respects(ord []opID, call, ret [][]int) bool {
	for i := range ord {
		for j := i + 1; j < len(ord); j++ {
			if ret[ord[j].t][ord[j].k] < call[ord[i].t][ord[i].k] {
				return false
			}
		}
	}
	return true
}

// RaceReport returns what the race detector wrote for this process (GORACE log_path), shortened.
func RaceReport() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", strings.TrimPrefix(kv, "log_path="), os.Getpid()))
			if err != nil {
				return ""
			}
			if len(b) > 3000 {
				b = b[:3000]
			}
			return string(b)
		}
	}
	return ""
}
