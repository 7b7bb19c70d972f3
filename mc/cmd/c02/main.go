// C02: concurrent use of one import set is race-free and linearizable (all schedules with bounded preemptions).
package main

import (
	"fmt"
	"strings"

	"github.com/google/xtoproto/codegen"
	"verif/mc/kit"
	"verif/mc/vsched"
)

func main() {
	kit.Main(kit.Options{
		ID: "C02", Level: "model_checking", Procs: 8,
		Rule:        "closed harnesses of 2-3 threads of Register/RegisterAliased/Find operations on colliding paths and names, with every prologue of the list; every schedule at statement granularity up to the preemption bound; each complete history must equal that of some sequential order of the same operations run on the real code, consistent with real time; every schedule is judged by the race detector. A harness is non-trivial when its operations have more than one sequential or observed outcome",
		Assumptions: []string{"scheduling points before every statement and at every lock operation; interleavings inside one statement are left to the race detector", "the Go memory model: race-free executions are sequentially consistent"},
	}, run)
}

func show(i *codegen.Import) string {
	if i == nil {
		return "nil"
	}
	return i.GoFragment() + "/" + i.PackageName()
}

func reg(p string) vsched.Op {
	return vsched.Op{Name: "Register(" + p + ")", Run: func(o interface{}) string { return show(o.(*codegen.Imports).Register(p)) }}
}

func regA(p, a string) vsched.Op {
	return vsched.Op{Name: "RegisterAliased(" + p + "," + a + ")", Run: func(o interface{}) string {
		i, err := o.(*codegen.Imports).RegisterAliased(p, a)
		if err != nil {
			return "refused"
		}
		return show(i)
	}}
}

func findP(p string) vsched.Op {
	return vsched.Op{Name: "FindByImportPath(" + p + ")", Run: func(o interface{}) string { return show(o.(*codegen.Imports).FindByImportPath(p)) }}
}

func findN(n string) vsched.Op {
	return vsched.Op{Name: "FindByPackageName(" + n + ")", Run: func(o interface{}) string { return show(o.(*codegen.Imports).FindByPackageName(n)) }}
}

func run(c *kit.C) {
	paths := []string{"a/z", "b/z", "c/z", "a/z2", "a/y_go_proto", "b/y_go_proto"}
	names := []string{"z", "z2", "z3", "z22", "_", "ypb", "y2pb", "foo"}
	final := func(o interface{}) string {
		im := o.(*codegen.Imports)
		var s []string
		for _, p := range paths {
			s = append(s, show(im.FindByImportPath(p)))
		}
		for _, n := range names {
			s = append(s, show(im.FindByPackageName(n)))
		}
		return strings.Join(s, " ")
	}
	prologues := [][]vsched.Op{nil, {reg("a/z")}, {regA("c/z", "z")}, {regA("b/z", "_")}}
	ops := []vsched.Op{
		reg("a/z"), reg("b/z"), reg("a/z2"), regA("a/z", "z"), regA("b/z", "z"), regA("a/z", "z2"), regA("b/z", "foo"), regA("b/z", "_"),
		findP("a/z"), findP("b/z"), findN("z"), findN("z2"),
	}
	// the operations that change something
	writers := 8
	var hs []vsched.Harness
	add := func(pi int, threads ...[]vsched.Op) {
		var names []string
		for _, t := range threads {
			var n []string
			for _, o := range t {
				n = append(n, o.Name)
			}
			names = append(names, strings.Join(n, "; "))
		}
		var pn []string
		for _, o := range prologues[pi] {
			pn = append(pn, o.Name)
		}
		hs = append(hs, vsched.Harness{
			Name: fmt.Sprintf("after [%s]: %s", strings.Join(pn, "; "), strings.Join(names, " || ")),
			New: func() interface{} {
				im := codegen.NewImports()
				for _, o := range prologues[pi] {
					o.Run(im)
				}
				return im
			},
			Threads: threads, Final: final,
		})
	}
	for pi := range prologues {
		for i := 0; i < writers; i++ {
			for j := i; j < len(ops); j++ {
				add(pi, []vsched.Op{ops[i]}, []vsched.Op{ops[j]})
			}
		}
	}
	add(0, []vsched.Op{reg("a/y_go_proto")}, []vsched.Op{reg("b/y_go_proto")})
	add(0, []vsched.Op{reg("a/y_go_proto")}, []vsched.Op{regA("b/y_go_proto", "ypb")})
	add(0, []vsched.Op{reg("a/y_go_proto")}, []vsched.Op{reg("a/y_go_proto")})
	n1 := len(hs)
	// longer threads
	add(0, []vsched.Op{reg("a/z"), reg("b/z")}, []vsched.Op{reg("b/z"), reg("a/z")})
	add(1, []vsched.Op{reg("b/z"), findP("b/z")}, []vsched.Op{reg("c/z"), reg("b/z")})
	add(0, []vsched.Op{reg("a/z"), findP("a/z")}, []vsched.Op{regA("a/z", "z"), regA("a/z", "foo")})
	add(0, []vsched.Op{reg("a/z"), reg("a/z2")}, []vsched.Op{regA("b/z", "z2"), findN("z")})
	n2 := len(hs)
	add(0, []vsched.Op{reg("a/z")}, []vsched.Op{reg("b/z")}, []vsched.Op{reg("c/z")})
	add(0, []vsched.Op{reg("a/z")}, []vsched.Op{reg("a/z")}, []vsched.Op{regA("a/z", "z")})
	add(1, []vsched.Op{reg("b/z")}, []vsched.Op{regA("c/z", "z2")}, []vsched.Op{findN("z2")})
	add(0, []vsched.Op{reg("a/z")}, []vsched.Op{reg("b/z")}, []vsched.Op{findP("a/z")})
	for i := range hs {
		h := &hs[i]
		bound := c.Pick(2, 3)
		if i >= n1 && i < n2 {
			bound = 2
		}
		if i >= n2 {
			bound = 2
		}
		c.Case(h.Name, func(t *kit.T) {
			r := h.Check(bound, t.Expired)
			t.States(r.Points)
			t.Transitions(r.Points + r.Schedules)
			t.Traces(r.Schedules)
			c.Part("schedules", int64(r.Schedules))
			c.Part("sequential orders", int64(r.SeqOrders))
			if r.Failure != "" {
				t.Failf("%s", r.Failure)
				if r.Race {
					t.Definite()
				}
				return
			}
			if r.SeqOutcomes < 2 && len(r.Observed) < 2 {
				t.Trivial()
			}
			t.Outcome(fmt.Sprintf("%d distinct outcomes observed, %d sequential", len(r.Observed), r.SeqOutcomes))
			t.Sample(map[string]int{"schedules": r.Schedules, "outcomes": len(r.Observed), "preemptions": r.MaxPreempt})
		})
		if c.Enough() {
			return
		}
	}
}
