// C05: concurrent CSV decoding gives every goroutine what it would get alone, without data races (all schedules with
// bounded preemptions), including the first use of a row or cell type.
package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/google/xtoproto/csvcoder"
	"github.com/google/xtoproto/textcoder"
	"verif/mc/csvref"
	"verif/mc/kit"
	"verif/mc/vsched"
)

func main() {
	kit.Main(kit.Options{
		ID: "C05", Level: "model_checking", Procs: 8,
		Rule:        "closed harnesses of 2-3 threads of ParseCell / ParseRow / SafeRegisterRowStruct / NewFileParser+Read operations on shared types, with the process-wide registries fresh (first use races) or warmed up by a prologue; every schedule at statement granularity up to the preemption bound; each history must equal that of a sequential order of the same operations on the real code, and every schedule is judged by the race detector. Non-trivial: the threads touch a common type or registry entry and more than one schedule exists",
		Assumptions: []string{"scheduling points before every statement of csvcoder and textcoder and at every lock operation; interleavings inside one statement are left to the race detector", "explicit textcoder.Register calls happen before the concurrent part, as its documentation (registration in init) expects"},
	}, run)
}

type recs struct{ rows [][]string }

func (r *recs) Read() ([]string, error) {
	if len(r.rows) == 0 {
		return nil, io.EOF
	}
	x := r.rows[0]
	r.rows = r.rows[1:]
	return x, nil
}

type lone struct {
	N csvref.Count `csv:"n"`
}

type point struct {
	X, Y int16
	T    csvref.Celsius `csv:"T"`
}

type unreg struct{ A int }

// refused cannot be decoded.
type refused struct{ A, B chan int }

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	// the list of registered types depends on the history; it is not an observation
	if i := strings.Index(s, "registered types:"); i >= 0 {
		s = s[:i]
	}
	return "err(" + s + ")"
}

func parseCell(text string, mk func() interface{}) vsched.Op {
	return vsched.Op{Name: fmt.Sprintf("ParseCell(%q,%T)", text, mk()), Run: func(interface{}) string {
		dst := mk()
		err := csvcoder.ParseCell(nil, text, dst)
		return fmt.Sprintf("%v %s", reflect.ValueOf(dst).Elem().Interface(), errText(err))
	}}
}

func register(proto interface{}) vsched.Op {
	return vsched.Op{Name: fmt.Sprintf("Register(%T)", proto), Run: func(interface{}) string {
		return errText(csvcoder.SafeRegisterRowStruct(reflect.TypeOf(proto)))
	}}
}

func parseRow(name string, mk func() interface{}, header, values []string) vsched.Op {
	return vsched.Op{Name: "ParseRow(" + name + ")", Run: func(interface{}) string {
		dst := mk()
		err := csvcoder.ParseRow(csvcoder.NewRow(values, csvcoder.NewHeader(header), 3, name), dst)
		return fmt.Sprintf("%v %s", reflect.ValueOf(dst).Elem().Interface(), errText(err))
	}}
}

func file(name string, proto interface{}, rows ...[]string) vsched.Op {
	return vsched.Op{Name: fmt.Sprintf("File(%s,%T)", name, proto), Run: func(interface{}) string {
		fp, err := csvcoder.NewFileParser(&recs{rows}, name, proto)
		if err != nil {
			return errText(err)
		}
		var out []string
		err = fp.ReadAll(func(v interface{}) error {
			out = append(out, fmt.Sprint(reflect.ValueOf(v).Elem().Interface()))
			return nil
		})
		return strings.Join(out, ",") + " " + errText(err)
	}}
}

func run(c *kit.C) {
	intDst := func() interface{} { return new(int) }
	cnt := func() interface{} { return new(csvref.Count) }
	cel := func() interface{} { return new(csvref.Celsius) }
	none := func() interface{} { return new(struct{ X int }) }
	ops := []vsched.Op{
		parseCell("41", intDst),
		parseCell("4x", intDst),
		parseCell("42", cnt),
		parseCell("20C", cel),
		parseCell("1", none),
		register(&lone{}),
		file("f", &lone{}, []string{"n"}, []string{"5"}, []string{"6"}),
		file("g", &lone{}, []string{"x", "n"}, []string{"7", "z"}),
		file("h", &point{}, []string{"T", "Y", "X"}, []string{"1C", "2", "3"}),
		parseRow("lone", func() interface{} { return new(lone) }, []string{"n"}, []string{"9"}),
		parseRow("unreg", func() interface{} { return new(unreg) }, []string{"A"}, []string{"9"}),
	}
	ops = append(ops, register(&refused{}), parseRow("refused", func() interface{} { return new(refused) }, []string{"A", "B"}, []string{"1", "2"}))
	prologues := map[string][]vsched.Op{
		"fresh": nil,
		"warm":  {ops[0], ops[2], ops[3], ops[5], ops[8]},
	}
	final := func(interface{}) string {
		// what a later caller sees
		return strings.Join([]string{ops[0].Run(nil), ops[2].Run(nil), ops[6].Run(nil), ops[8].Run(nil), ops[3].Run(nil)}, " ; ")
	}
	type hb struct {
		h     vsched.Harness
		bound int
	}
	var hs []hb
	add := func(pro string, bound int, threads ...[]vsched.Op) {
		var names []string
		for _, t := range threads {
			var n []string
			for _, o := range t {
				n = append(n, o.Name)
			}
			names = append(names, strings.Join(n, "; "))
		}
		hs = append(hs, hb{vsched.Harness{
			Name: fmt.Sprintf("%s: %s", pro, strings.Join(names, " || ")),
			New: func() interface{} {
				textcoder.VerifReinit()
				csvcoder.VerifReinit()
				for _, o := range prologues[pro] {
					o.Run(nil)
				}
				return nil
			},
			Threads: threads, Final: final,
		}, bound})
	}
	for _, pro := range []string{"fresh", "warm"} {
		for i := range ops {
			for j := i; j < len(ops); j++ {
				add(pro, c.Pick(1, 2), []vsched.Op{ops[i]}, []vsched.Op{ops[j]})
			}
		}
	}
	// the operations on cells are short: go deeper
	for i := 0; i < 5; i++ {
		for j := i; j < 5; j++ {
			add("fresh", c.Pick(2, 4), []vsched.Op{ops[i]}, []vsched.Op{ops[j]})
		}
	}
	add("fresh", c.Pick(1, 2), []vsched.Op{ops[2]}, []vsched.Op{ops[2]}, []vsched.Op{ops[5]})
	add("fresh", c.Pick(1, 2), []vsched.Op{ops[0]}, []vsched.Op{ops[0]}, []vsched.Op{ops[0]})
	add("fresh", c.Pick(1, 2), []vsched.Op{ops[5], ops[9]}, []vsched.Op{ops[10], ops[6]})
	add("fresh", c.Pick(1, 2), []vsched.Op{ops[6], ops[9]}, []vsched.Op{ops[9], ops[2]})
	for i := range hs {
		h := &hs[i]
		c.Case(fmt.Sprintf("%s (bound %d)", h.h.Name, h.bound), func(t *kit.T) {
			r := h.h.Check(h.bound, t.Expired)
			t.States(r.Points)
			t.Transitions(r.Points + r.Schedules)
			t.Traces(r.Schedules)
			c.Part("schedules", int64(r.Schedules))
			c.Part("sequential orders", int64(r.SeqOrders))
			if r.Failure != "" {
				t.Failf("%s", r.Failure)
				if r.Race {
					t.Definite()
				}
				return
			}
			if r.Schedules < 2 {
				t.Trivial()
			}
			t.Outcome(fmt.Sprintf("%d distinct outcomes observed, %d sequential", len(r.Observed), r.SeqOutcomes))
			t.Sample(map[string]int{"schedules": r.Schedules, "outcomes": len(r.Observed), "preemptions": r.MaxPreempt})
		})
		if c.Enough() {
			return
		}
	}
}
