// C18: positions of a file set are what its history of files and lines says.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/xtoproto/textpos"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C18", Level: "model_checking",
		Rule:  "every history up to the depth bound of adding files (default, exact, gapped and too small bases, sizes 0 to 7), adding, merging and setting lines and setting contents, on one file set; after each operation every position, offset, line, column and file of the set and around it is asked for and compared with a reference model; the same with one line table given to both of two files at any points; every ordered pair and triple of lookups on sets of up to four files; sets of hundreds of files and lines and far positions, asked for around every end. Non-trivial: the history ends with a file of two lines or two files",
		Procs: 8,
	}, run)
}

// the reference model
type rfile struct {
	name       string
	base, size int
	lines      []int
}
type rset struct {
	base  int
	files []*rfile
}

func (s *rset) file(p int) *rfile {
	for _, f := range s.files {
		if p >= f.base && p <= f.base+f.size {
			return f
		}
	}
	return nil
}

func (f *rfile) lineCol(off int) (l, c int) {
	for i, st := range f.lines {
		if st <= off {
			l, c = i+1, off-st+1
		}
	}
	return
}

func posString(name string, l, c int) string {
	var parts []string
	if name != "" {
		parts = append(parts, name)
	}
	if l > 0 {
		parts = append(parts, fmt.Sprint(l))
		if c > 0 {
			parts = append(parts, fmt.Sprint(c))
		}
	}
	if len(parts) == 0 {
		return "-"
	}
	return strings.Join(parts, ":")
}

func lineColString(l, c int) string {
	s := func(n int) string {
		if n < 1 {
			return "-"
		}
		return fmt.Sprint(n)
	}
	return s(l) + ":" + s(c)
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// observe compares everything that can be asked.
func observe(t *kit.T, rs *rset, fs *textpos.FileSet, files []*textpos.File) {
	fail := func(f string, a ...interface{}) { t.Failf(f, a...) }
	if fs.Base() != rs.base {
		fail("Base() = %d, want %d", fs.Base(), rs.base)
	}
	var it []*textpos.File
	fs.Iterate(func(f *textpos.File) bool { it = append(it, f); return true })
	if len(it) != len(files) {
		fail("Iterate gives %d files, want %d", len(it), len(files))
		return
	}
	for i := range it {
		if it[i] != files[i] {
			fail("Iterate gives another file at %d", i)
		}
		n := 0
		fs.Iterate(func(*textpos.File) bool { n++; return n <= i })
		if n != i+1 {
			fail("Iterate gives %d files when stopped at the %dth", n, i+1)
		}
	}
	pos := func(what string, p textpos.Position, f *rfile, off int) {
		name, l, c := "", 0, 0
		if f != nil {
			name = f.name
			l, c = f.lineCol(off)
		}
		if p.FileName() != name || p.Offset() != off || p.Line().Ordinal() != l || p.Column().Ordinal() != c || p.IsValid() != (l > 0) || p.String() != posString(name, l, c) {
			fail("%s = %q %d:%d offset %d valid %v, %q; want %q %d:%d offset %d, %q", what, p.FileName(), p.Line().Ordinal(), p.Column().Ordinal(), p.Offset(), p.IsValid(), p.String(), name, l, c, off, posString(name, l, c))
		}
	}
	var asc, desc []int
	for p := -1; p <= rs.base+2; p++ {
		asc = append(asc, p)
		desc = append([]int{p}, desc...)
	}
	for _, ps := range [][]int{asc, desc} {
		for _, p := range ps {
			var f *rfile
			if p != 0 {
				f = rs.file(p)
			}
			got := fs.File(textpos.Pos(p))
			switch {
			case f == nil && got != nil:
				fail("File(%d) = %s, want none", p, got.Name())
			case f != nil && (got == nil || got != files[index(rs, f)]):
				fail("File(%d) is not %s at %d", p, f.name, f.base)
			}
			off := 0
			if f != nil {
				off = p - f.base
			}
			pos(fmt.Sprintf("Position(%d)", p), fs.Position(textpos.Pos(p)), f, off)
		}
	}
	for i, f := range rs.files {
		g := files[i]
		if g.Name() != f.name || g.Base() != f.base || g.Size() != f.size || g.LineCount() != len(f.lines) {
			fail("file %d is %q at %d size %d with %d lines, want %q %d %d %d", i, g.Name(), g.Base(), g.Size(), g.LineCount(), f.name, f.base, f.size, len(f.lines))
		}
		for off := 0; off <= f.size; off++ {
			if p := g.Pos(off); int(p) != f.base+off || !p.IsValid() {
				fail("%s.Pos(%d) = %d, want %d", f.name, off, p, f.base+off)
			}
			p := textpos.Pos(f.base + off)
			if o := g.Offset(p); o != off {
				fail("%s.Offset(%d) = %d, want %d", f.name, p, o, off)
			}
			l, _ := f.lineCol(off)
			if g.Line(p).Ordinal() != l {
				fail("%s.Line(%d) = %v, want %d", f.name, p, g.Line(p), l)
			}
			pos(fmt.Sprintf("%s.Position(%d)", f.name, p), g.Position(p), f, off)
		}
		pos(f.name+".Position(NoPos)", g.Position(textpos.NoPos), nil, 0)
		if !panics(func() { g.Pos(f.size + 1) }) {
			fail("%s.Pos(%d) accepted an offset past the end", f.name, f.size+1)
		}
		for _, p := range []int{f.base - 1, f.base + f.size + 1} {
			if !panics(func() { g.Offset(textpos.Pos(p)) }) {
				fail("%s.Offset(%d) accepted a foreign position", f.name, p)
			}
			if p != 0 && !panics(func() { g.Position(textpos.Pos(p)) }) {
				fail("%s.Position(%d) accepted a foreign position", f.name, p)
			}
		}
		for l := -1; l <= len(f.lines)+1; l++ {
			ok := l >= 1 && l <= len(f.lines)
			if !ok {
				if !panics(func() { g.LineStart(textpos.LineFromOrdinal(l)) }) {
					fail("%s.LineStart(%d) accepted", f.name, l)
				}
			} else if p := g.LineStart(textpos.LineFromOrdinal(l)); int(p) != f.base+f.lines[l-1] {
				fail("%s.LineStart(%d) = %d, want %d", f.name, l, p, f.base+f.lines[l-1])
			}
			for c := -1; c <= f.size+2; c++ {
				want := 0
				if ok && c >= 1 {
					end := f.size
					if l < len(f.lines) {
						end = f.lines[l] - 1
					}
					if o := f.lines[l-1] + c - 1; o <= end {
						want = f.base + o
					}
				}
				lc := textpos.MakeLineColumn(textpos.LineFromOrdinal(l), textpos.ColumnFromOrdinal(c))
				if p := g.PosForLineColumn(lc); int(p) != want {
					fail("%s.PosForLineColumn(%d:%d) = %d, want %d", f.name, l, c, p, want)
				}
				if lc.String() != lineColString(l, c) || lc.Line().Ordinal() != l || lc.Column().Ordinal() != c {
					fail("LineColumn(%d, %d) = %v", l, c, lc)
				}
			}
		}
	}
}

func index(rs *rset, f *rfile) int {
	for i, g := range rs.files {
		if g == f {
			return i
		}
	}
	return -1
}

type op struct {
	name string
	// on a file or (file < 0) on the set
	run func(t *kit.T, rs *rset, fs *textpos.FileSet, files *[]*textpos.File)
}

func addFile(name string, delta, size int) op {
	d := fmt.Sprint("Base+", delta)
	if delta == -100 {
		d = "-1"
	}
	return op{fmt.Sprintf("AddFile(%s,%s,%d)", name, d, size), func(t *kit.T, rs *rset, fs *textpos.FileSet, files *[]*textpos.File) {
		base, want := rs.base+delta, rs.base+delta
		if delta == -100 {
			base, want = -1, rs.base
		}
		if size < 0 || base >= 0 && base < rs.base {
			if !panics(func() { fs.AddFile(name, base, size) }) {
				t.Failf("AddFile(%s, %d, %d) accepted with Base() = %d", name, base, size, rs.base)
			}
			return
		}
		f := fs.AddFile(name, base, size)
		*files = append(*files, f)
		rs.files = append(rs.files, &rfile{name, want, size, []int{0}})
		rs.base = want + size + 1
	}}
}

// onFile makes an operation on the i-th file from the end.
func onFile(i int, name string, f func(t *kit.T, r *rfile, g *textpos.File)) op {
	return op{fmt.Sprintf("last-%d.%s", i, name), func(t *kit.T, rs *rset, fs *textpos.FileSet, files *[]*textpos.File) {
		k := len(*files) - 1 - i
		if k < 0 {
			return
		}
		f(t, rs.files[k], (*files)[k])
	}}
}

func addLine(i, off int) op {
	return onFile(i, fmt.Sprintf("AddLine(%d)", off), func(t *kit.T, r *rfile, g *textpos.File) {
		g.AddLine(off)
		if (len(r.lines) == 0 || r.lines[len(r.lines)-1] < off) && off < r.size {
			r.lines = append(append([]int{}, r.lines...), off)
		}
	})
}

func mergeLine(i, l int) op {
	return onFile(i, fmt.Sprintf("MergeLine(%d)", l), func(t *kit.T, r *rfile, g *textpos.File) {
		if l < 1 || l >= len(r.lines) {
			if !panics(func() { g.MergeLine(l) }) {
				t.Failf("MergeLine(%d) accepted with %d lines", l, len(r.lines))
			}
			return
		}
		g.MergeLine(l)
		r.lines = append(append([]int{}, r.lines[:l]...), r.lines[l+1:]...)
	})
}

func setLines(i int, lines ...int) op {
	return onFile(i, fmt.Sprintf("SetLines(%v)", lines), func(t *kit.T, r *rfile, g *textpos.File) {
		ok := sort.SliceIsSorted(lines, func(a, b int) bool { return lines[a] <= lines[b] })
		for _, l := range lines {
			ok = ok && l < r.size
		}
		if got := g.SetLines(append([]int{}, lines...)); got != ok {
			t.Failf("SetLines(%v) = %v with size %d", lines, got, r.size)
		}
		if ok {
			r.lines = append([]int{}, lines...)
		}
	})
}

// content sets the lines for the given content, cut or filled up to the file's size.
func content(i int, s string) op {
	return onFile(i, fmt.Sprintf("SetLinesForContent(%q)", s), func(t *kit.T, r *rfile, g *textpos.File) {
		c := []byte(s + strings.Repeat("x", r.size))[:r.size]
		g.SetLinesForContent(c)
		r.lines = nil
		if r.size > 0 {
			r.lines = []int{0}
		}
		for o, b := range c {
			if b == '\n' && o+1 < len(c) {
				r.lines = append(r.lines, o+1)
			}
		}
	})
}

func history(c *kit.C, ops []op) {
	c.CaseF(func() string {
		var n []string
		for _, o := range ops {
			n = append(n, o.name)
		}
		return strings.Join(n, "; ")
	}, func(t *kit.T) {
		rs, fs := &rset{base: 1}, textpos.NewFileSet()
		var files []*textpos.File
		for _, o := range ops {
			o.run(t, rs, fs, &files)
			observe(t, rs, fs, files)
			t.Transitions(1)
			if t.Failed() {
				return
			}
		}
		t.States(len(ops) + 1)
		lines := 0
		for _, f := range rs.files {
			if len(f.lines) > lines {
				lines = len(f.lines)
			}
		}
		if len(files) < 2 && lines < 2 {
			t.Trivial()
		}
		t.Outcome(fmt.Sprintf("%d files, up to %d lines", len(files), lines))
	})
}

func run(c *kit.C) {
	const dflt = -100
	// every content up to a length, with every merge afterwards
	kit.Strings([]string{"a", "\n", "\r"}, c.Pick(8, 10), func(p []string) bool {
		s := strings.Join(p, "")
		for m := 0; m <= strings.Count(s, "\n")+1; m++ {
			ops := []op{addFile("f", dflt, len(s)), content(0, s)}
			if m > 0 {
				ops = append(ops, mergeLine(0, m))
			}
			history(c, ops)
		}
		return !c.Stop()
	})
	// every line table over small offsets
	for size := 0; size <= 5; size++ {
		kit.StringsN([]string{"-", "0", "1", "2", "3", "4", "5", "6"}, 4, func(p []string) bool {
			var l []int
			for _, x := range p {
				if x != "-" {
					l = append(l, int(x[0]-'0'))
				}
			}
			history(c, []op{addFile("", 2, size), setLines(0, l...), addLine(0, 3), mergeLine(0, 1)})
			return !c.Stop()
		})
	}
	// histories
	ops := []op{
		addFile("a", dflt, 7), addFile("", dflt, 0), addFile("b", 0, 3), addFile("a", 3, 2), addFile("c", -1, 2), addFile("c", 0, -1),
		addLine(0, 0), addLine(0, 1), addLine(0, 2), addLine(0, 6), addLine(0, 7), addLine(1, 2),
		mergeLine(0, 0), mergeLine(0, 1), mergeLine(0, 2), mergeLine(1, 1),
		setLines(0), setLines(0, 0, 1, 2), setLines(0, 0, 2, 2), setLines(0, 0, 3, 6), setLines(1, 1, 2),
		content(0, "\n\na\nb\n\n"), content(1, "a\nb"),
	}
	for n := 1; n <= c.Pick(4, 5); n++ {
		if !kit.Seqs(len(ops), n, func(idx []int) bool {
			if ops[idx[0]].name[:7] != "AddFile" {
				return !c.Stop()
			}
			h := make([]op, n)
			for i, k := range idx {
				h[i] = ops[k]
			}
			history(c, h)
			return !c.Stop()
		}) {
			return
		}
	}
	// every sequence of three lookups, on every set of up to four files with every gap
	for n := 1; n <= 4; n++ {
		kit.Seqs(6, n, func(idx []int) bool {
			c.Case(fmt.Sprintf("lookups in files %v", idx), func(t *kit.T) {
				rs := &rset{base: 1}
				build := func() (*textpos.FileSet, []*textpos.File) {
					fs, r := textpos.NewFileSet(), &rset{base: 1}
					var files []*textpos.File
					for k, i := range idx {
						addFile(fmt.Sprint("f", k), i%2*2, []int{0, 2, 3}[i/2]).run(t, r, fs, &files)
					}
					rs = r
					return fs, files
				}
				build()
				top := rs.base + 1
				for p := 0; p <= top; p++ {
					for q := 0; q <= top; q++ {
						fs, files := build()
						for _, x := range []int{p, q, p} {
							f := rs.file(x)
							g := fs.File(textpos.Pos(x))
							if f == nil != (g == nil) || f != nil && files[index(rs, f)] != g {
								t.Failf("after File(%d), File(%d): File(%d) is wrong", p, q, x)
								return
							}
							t.Transitions(1)
						}
					}
				}
			})
			return !c.Stop()
		})
	}
	shared(c)
	many(c)
	c.Case("line and column numbers", func(t *kit.T) {
		for i := -3; i <= 300; i++ {
			l, l2, k, k2 := textpos.LineFromOffset(i), textpos.LineFromOrdinal(i), textpos.ColumnFromOffset(i), textpos.ColumnFromOrdinal(i)
			if l.Offset() != i || l.Ordinal() != i+1 || l2.Ordinal() != i || l2.Offset() != i-1 || l2.IsValid() != (i > 0) || l2.String() != fmt.Sprint(i) {
				t.Failf("line %d", i)
			}
			if k.Offset() != i || k.Ordinal() != i+1 || k2.Ordinal() != i || k2.Offset() != i-1 || k2.IsValid() != (i > 0) || k2.String() != fmt.Sprint(i) {
				t.Failf("column %d", i)
			}
		}
	})
}

// shared gives the same line table, which has room for more, to several files and
// several times: a file's lines are its own from then on, and the table the caller's.
func shared(c *kit.C) {
	const dflt = -100
	type tab struct{ all, use []int }
	var tabs []tab
	fresh := func() {
		tabs = nil
		all := []int{0, 2, 4, 5, 77, 77, 77}
		for n := 2; n <= 4; n++ {
			tabs = append(tabs, tab{all, all[:n]})
		}
	}
	share := func(i, k int) op {
		return onFile(i, fmt.Sprintf("SetLines(shared[:%d])", k+2), func(t *kit.T, r *rfile, g *textpos.File) {
			if !g.SetLines(tabs[k].use) {
				t.Failf("SetLines(%v) refused", tabs[k].use)
			}
			r.lines = []int{0, 2, 4, 5}[:k+2]
		})
	}
	ops := []op{share(0, 0), share(0, 1), share(0, 2), share(1, 0), share(1, 1), share(1, 2), addLine(0, 5), addLine(1, 6), mergeLine(0, 1), mergeLine(1, 2), content(0, "a\nb")}
	for n := 2; n <= c.Pick(5, 6); n++ {
		if !kit.Seqs(len(ops), n, func(idx []int) bool {
			c.CaseF(func() string {
				names := []string{}
				for _, k := range idx {
					names = append(names, ops[k].name)
				}
				return strings.Join(names, "; ")
			}, func(t *kit.T) {
				fresh()
				rs, fs := &rset{base: 1}, textpos.NewFileSet()
				var files []*textpos.File
				addFile("a", dflt, 7).run(t, rs, fs, &files)
				addFile("b", dflt, 8).run(t, rs, fs, &files)
				for _, k := range idx {
					ops[k].run(t, rs, fs, &files)
				}
				t.Transitions(n)
				observe(t, rs, fs, files)
				if got := fmt.Sprint(tabs[0].all); got != "[0 2 4 5 77 77 77]" {
					t.Failf("the caller's table is now %s", got)
				}
				t.Outcome("shared line table")
			})
			return !c.Stop()
		}) {
			return
		}
	}
}

// near is observe for the positions at and around the ends of files and lines only.
func near(t *kit.T, rs *rset, fs *textpos.FileSet, files []*textpos.File, ps []int) {
	for _, p := range ps {
		var f *rfile
		if p != 0 {
			f = rs.file(p)
		}
		g := fs.File(textpos.Pos(p))
		if f == nil != (g == nil) || f != nil && files[index(rs, f)] != g {
			t.Failf("File(%d) is wrong", p)
			return
		}
		name, off, l, c := "", 0, 0, 0
		if f != nil {
			name, off = f.name, p-f.base
			l, c = f.lineCol(off)
		}
		if x := fs.Position(textpos.Pos(p)); x.FileName() != name || x.Offset() != off || x.Line().Ordinal() != l || x.Column().Ordinal() != c || x.String() != posString(name, l, c) {
			t.Failf("Position(%d) is %s, want %s", p, x, posString(name, l, c))
			return
		}
		if f != nil {
			if q := g.PosForLineColumn(textpos.MakeLineColumn(textpos.LineFromOrdinal(l), textpos.ColumnFromOrdinal(c))); l > 0 && int(q) != p {
				t.Failf("PosForLineColumn(%d:%d) = %d, want %d", l, c, q, p)
				return
			}
			if l > 0 && int(g.LineStart(textpos.LineFromOrdinal(l))) != f.base+f.lines[l-1] {
				t.Failf("LineStart(%d) = %d", l, g.LineStart(textpos.LineFromOrdinal(l)))
				return
			}
		}
		t.Transitions(1)
	}
}

// ends are the positions around the ends of all files and lines.
func ends(rs *rset) (ps []int) {
	ps = append(ps, -1, 0, 1)
	for _, f := range rs.files {
		for _, x := range append(append([]int{}, f.lines...), 0, f.size) {
			for d := -1; d <= 1; d++ {
				ps = append(ps, f.base+x+d)
			}
		}
	}
	return
}

// many makes sets of many files, files of many lines, long lines and far positions.
func many(c *kit.C) {
	const dflt = -100
	n := int64(0)
	do := func(name string, ops func() []op, more func(t *kit.T, rs *rset, fs *textpos.FileSet, files []*textpos.File)) bool {
		n++
		c.CaseF(func() string { return name }, func(t *kit.T) {
			rs, fs := &rset{base: 1}, textpos.NewFileSet()
			var files []*textpos.File
			for _, o := range ops() {
				o.run(t, rs, fs, &files)
				if t.Failed() {
					return
				}
			}
			ps := ends(rs)
			near(t, rs, fs, files, ps)
			for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
			near(t, rs, fs, files, ps)
			if more != nil {
				more(t, rs, fs, files)
			}
			t.Outcome("many")
		})
		return !c.Stop()
	}
	sizes := []int{8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
	sizes = append(sizes, 511, 513, 700, 1025)
	if c.Thorough() {
		sizes = append(sizes, 512, 1000, 1023, 1024, 2047, 2048, 2049, 4097)
	}
	for _, k := range sizes {
		for shape := 0; shape < 4; shape++ {
			set := func() (ops []op) {
				for i := 0; i < k; i++ {
					delta := []int{dflt, 0, i % 3, i * i % 1000}[shape]
					ops = append(ops, addFile(fmt.Sprint("f", i), delta, []int{3, 0, i % 5, i * 7 % 300}[(shape+i)%4]))
					if i%3 == 0 {
						ops = append(ops, content(0, "a\nb\n\nccc\n"))
					}
					if i%5 == 4 {
						ops = append(ops, content(2, "\n"), addLine(1, 1))
					}
				}
				return
			}
			if !do(fmt.Sprintf("%d files, shape %d", k, shape), set, func(t *kit.T, rs *rset, fs *textpos.FileSet, files []*textpos.File) {
				// from every file to some others and back
				for i := range rs.files {
					for _, j := range []int{0, i / 2, i - 1, i + 1, (i * 7) % k, k - 1} {
						if j >= 0 && j < k {
							near(t, rs, fs, files, []int{rs.files[i].base, rs.files[j].base + rs.files[j].size, rs.files[i].base + rs.files[i].size, rs.files[j].base})
						}
					}
				}
			}) {
				return
			}
		}
		var text strings.Builder
		for i := 0; i < k; i++ {
			text.WriteString(strings.Repeat("x", i*i%7) + "\n")
		}
		s := text.String()
		for _, end := range []string{"", "x"} {
			for _, m := range []int{0, 1, 2, k / 2, k - 1, k} {
				lines := func() []op {
					ops := []op{addFile("before", dflt, 3), addFile("f", 5, len(s+end)), content(0, s+end)}
					for i := 0; i < m && m > 2 && i < k-1; i++ {
						ops = append(ops, mergeLine(0, (i*i)%(k-i-1)+1))
						if i == 20 {
							break
						}
					}
					if m > 0 && m <= 2 {
						ops = append(ops, mergeLine(0, m))
					}
					return append(ops, addFile("after", dflt, 2))
				}
				if !do(fmt.Sprintf("%d lines%s, merging %d", k, end, m), lines, nil) {
					return
				}
			}
		}
		if !do(fmt.Sprintf("%d lines one by one", k), func() []op {
			ops := []op{addFile("f", dflt, 3*k+1)}
			for i := 0; i < k; i++ {
				ops = append(ops, addLine(0, 2*i), addLine(0, i))
			}
			return ops
		}, func(t *kit.T, rs *rset, fs *textpos.FileSet, files []*textpos.File) {
			if k <= 65 {
				observe(t, rs, fs, files)
			}
		}) {
			return
		}
		if !do(fmt.Sprintf("one line of %d", k), func() []op {
			return []op{addFile("f", dflt, k), content(0, strings.Repeat("x", k)), addFile("g", 0, k), content(0, "\n"+strings.Repeat("x", k)), addFile(strings.Repeat("n", k), 1, k)}
		}, func(t *kit.T, rs *rset, fs *textpos.FileSet, files []*textpos.File) {
			if k <= 129 {
				observe(t, rs, fs, files)
			}
		}) {
			return
		}
	}
	// far away
	for _, at := range []int{1<<15 - 3, 1<<16 - 3, 1<<24 - 3, 1<<31 - 3, 1<<32 - 3, 1 << 40, 1<<62 - 9} {
		for _, first := range []bool{false, true} {
			at, first := at, first
			if !do(fmt.Sprintf("a file at %d, after another: %v", at, first), func() (ops []op) {
				if first {
					ops = append(ops, addFile("a", dflt, 4), content(0, "\nb\n"))
				}
				ops = append(ops, addFile("far", at, 5), content(0, "a\nb\n\n"), addFile("next", dflt, 3), content(0, "\n\n"))
				if at < 1<<40 {
					ops = append(ops, addFile("wide", 1, at), setLines(0, 0, 1, at/2, at-1), addFile("last", dflt, 2), addLine(1, at-1))
				}
				return
			}, nil) {
				return
			}
		}
	}
	c.Part("sets of many files, files of many lines, far positions", n)
}
