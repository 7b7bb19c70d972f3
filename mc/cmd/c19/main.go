// C19: concurrent use of one file set and its files is race-free and linearizable (all schedules with bounded preemptions).
package main

import (
	"fmt"
	"strings"

	"github.com/google/xtoproto/textpos"
	"verif/mc/kit"
	"verif/mc/vsched"
)

func main() {
	kit.Main(kit.Options{
		ID: "C19", Level: "model_checking", Procs: 8,
		Rule:        "closed harnesses of 2-3 threads of file set and file operations (AddFile, lookups in different files, AddLine, SetLines, MergeLine, positions) after a prologue; every schedule at statement granularity up to the preemption bound; each complete history must equal that of some sequential order of the same operations run on the real code, consistent with real time; every schedule is judged by the race detector. Non-trivial: the operations have more than one sequential or observed outcome",
		Assumptions: []string{"scheduling points before every statement and at every lock operation; interleavings inside one statement are left to the race detector", "the Go memory model: race-free executions are sequentially consistent"},
	}, run)
}

type state struct {
	fs   *textpos.FileSet
	a, b *textpos.File
}

func op(name string, f func(s *state) string) vsched.Op {
	return vsched.Op{Name: name, Run: func(o interface{}) (r string) {
		defer func() {
			if p := recover(); p != nil {
				r = "panic"
			}
		}()
		return f(o.(*state))
	}}
}

func desc(f *textpos.File) string {
	if f == nil {
		return "none"
	}
	return fmt.Sprintf("%s@%d+%d", f.Name(), f.Base(), f.Size())
}

func run(c *kit.C) {
	add := func(n string, base, size int) vsched.Op {
		return op(fmt.Sprintf("AddFile(%s,%d,%d)", n, base, size), func(s *state) string { return desc(s.fs.AddFile(n, base, size)) })
	}
	file := func(p int) vsched.Op {
		return op(fmt.Sprintf("File(%d)", p), func(s *state) string { return desc(s.fs.File(textpos.Pos(p))) })
	}
	position := func(p int) vsched.Op {
		return op(fmt.Sprintf("Position(%d)", p), func(s *state) string { return s.fs.Position(textpos.Pos(p)).String() })
	}
	base := op("Base", func(s *state) string { return fmt.Sprint(s.fs.Base()) })
	iterate := op("Iterate", func(s *state) string {
		r := ""
		s.fs.Iterate(func(f *textpos.File) bool { r += desc(f) + " "; return true })
		return r
	})
	// set operations; the prologue has files a [1,6] and b [7,10]
	setOps := []vsched.Op{add("x", -1, 2), add("y", -1, 3), add("z", 20, 1), file(2), file(8), file(12), position(3), position(9), base, iterate}
	addLine := func(o int) vsched.Op {
		return op(fmt.Sprintf("a.AddLine(%d)", o), func(s *state) string { s.a.AddLine(o); return "" })
	}
	setLines := func(l ...int) vsched.Op {
		return op(fmt.Sprintf("a.SetLines(%v)", l), func(s *state) string { return fmt.Sprint(s.a.SetLines(append([]int{}, l...))) })
	}
	fileOps := []vsched.Op{
		addLine(2), addLine(4), setLines(0, 3), setLines(),
		op("a.SetLinesForContent", func(s *state) string { s.a.SetLinesForContent([]byte("\n\nabc")); return "" }),
		op("a.MergeLine(1)", func(s *state) string { s.a.MergeLine(1); return "" }),
		position(4), position(5),
		op("a.LineCount", func(s *state) string { return fmt.Sprint(s.a.LineCount()) }),
		op("a.LineStart(2)", func(s *state) string { return fmt.Sprint(s.a.LineStart(textpos.LineFromOrdinal(2))) }),
		op("a.PosForLineColumn(1:3)", func(s *state) string {
			return fmt.Sprint(s.a.PosForLineColumn(textpos.MakeLineColumn(textpos.LineFromOrdinal(1), textpos.ColumnFromOrdinal(3))))
		}),
		op("a.Line(5)", func(s *state) string { return s.a.Line(5).String() }),
	}
	final := func(o interface{}) string {
		s := o.(*state)
		var r []string
		for p := 0; p <= s.fs.Base(); p++ {
			f := s.fs.File(textpos.Pos(p))
			r = append(r, desc(f), s.fs.Position(textpos.Pos(p)).String())
		}
		return strings.Join(r, " ") + iterate.Run(s) + fmt.Sprint(s.a.LineCount())
	}
	var hs []vsched.Harness
	var bounds []int
	addH := func(bound, prologue int, threads ...[]vsched.Op) {
		var names []string
		for _, t := range threads {
			var n []string
			for _, o := range t {
				n = append(n, o.Name)
			}
			names = append(names, strings.Join(n, "; "))
		}
		hs = append(hs, vsched.Harness{
			Name: fmt.Sprintf("prologue %d: %s", prologue, strings.Join(names, " || ")),
			New: func() interface{} {
				s := &state{fs: textpos.NewFileSet()}
				s.a = s.fs.AddFile("a", -1, 5)
				s.b = s.fs.AddFile("b", -1, 3)
				if prologue > 0 {
					s.a.AddLine(3)
					s.fs.File(2)
				}
				return s
			},
			Threads: threads, Final: final,
		})
		bounds = append(bounds, bound)
	}
	one := func(o vsched.Op) []vsched.Op { return []vsched.Op{o} }
	for _, ops := range [][]vsched.Op{setOps, fileOps} {
		for pl := 0; pl < 2; pl++ {
			for i := range ops {
				for j := i; j < len(ops); j++ {
					addH(c.Pick(2, 3), pl, one(ops[i]), one(ops[j]))
				}
			}
		}
	}
	// changes of lines against changes and lookups of files
	for _, o := range fileOps[:6] {
		addH(2, 1, one(o), one(file(2)))
		addH(2, 1, one(o), one(add("x", -1, 1)))
	}
	// longer threads and three threads
	addH(2, 0, []vsched.Op{file(2), file(8)}, []vsched.Op{file(8), file(2)})
	addH(2, 0, []vsched.Op{add("x", -1, 2), file(12)}, []vsched.Op{add("y", -1, 3), file(12)})
	addH(2, 0, []vsched.Op{base, add("x", -1, 2)}, []vsched.Op{base, add("y", -1, 3)})
	addH(2, 0, []vsched.Op{addLine(2), addLine(3)}, []vsched.Op{addLine(3), addLine(4)})
	addH(2, 1, []vsched.Op{addLine(4), position(5)}, []vsched.Op{fileOps[5], position(5)})
	addH(2, 0, []vsched.Op{setLines(0, 1, 2), position(5)}, []vsched.Op{setLines(0, 3), position(5)})
	addH(2, 0, one(add("x", -1, 2)), one(add("y", -1, 3)), one(file(12)))
	addH(2, 0, one(file(2)), one(file(8)), one(add("x", -1, 2)))
	addH(2, 0, one(file(2)), one(file(8)), one(position(3)))
	addH(2, 0, one(addLine(2)), one(addLine(4)), one(position(5)))
	addH(2, 1, one(fileOps[5]), one(addLine(4)), one(fileOps[8]))
	for i := range hs {
		h := &hs[i]
		c.Case(h.Name, func(t *kit.T) {
			r := h.Check(bounds[i], t.Expired)
			t.States(r.Points)
			t.Transitions(r.Points + r.Schedules)
			t.Traces(r.Schedules)
			c.Part("schedules", int64(r.Schedules))
			c.Part("sequential orders", int64(r.SeqOrders))
			if r.Failure != "" {
				t.Failf("%s", r.Failure)
				if r.Race {
					t.Definite()
				}
				return
			}
			if r.SeqOutcomes < 2 && len(r.Observed) < 2 {
				t.Trivial()
			}
			t.Outcome(fmt.Sprintf("%d distinct outcomes observed, %d sequential", len(r.Observed), r.SeqOutcomes))
			t.Sample(map[string]int{"schedules": r.Schedules, "outcomes": len(r.Observed), "preemptions": r.MaxPreempt})
		})
		if c.Enough() {
			return
		}
	}
}
