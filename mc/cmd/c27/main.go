// C27: a proto file inferred from XML is valid and says exactly what the examples hold.
package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/google/xtoproto/xmlinfer"
	"verif/mc/kit"
	"verif/mc/numref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C27", Level: "model_checking",
		Rule:  "examples as sequences of element trees: every tree up to a depth and width over names, attributes and texts; every sequence and every multiset of values of an attribute and of a child; every name up to a length as element, attribute and child, and every pair of names next to each other; hundreds of elements, attributes, values and letters; tokens without meaning in every place; documents cut at every byte, with tokens lost, repeated or exchanged, and sources that fail after every token. The file is read by a parser (and by protoc in the cases about names) and compared with a model of the examples. Non-trivial: the file holds a message",
		Procs: 8,
	}, run)
}

// leaves are elements without children.
func leaves(names []string, attrs [][]xml.Attr, texts []string) (out []*elem) {
	for _, n := range names {
		for _, a := range attrs {
			for _, t := range texts {
				if t == "" {
					out = append(out, el(n, a))
				} else {
					out = append(out, el(n, a, t))
				}
			}
		}
	}
	return
}

// parents are elements with every sequence of up to max of the given children.
func parents(names []string, attrs [][]xml.Attr, kids []*elem, max int, f func(*elem) bool) {
	for _, n := range names {
		for _, a := range attrs {
			for k := 0; k <= max; k++ {
				if !kit.Seqs(len(kids), k, func(idx []int) bool {
					e := el(n, a)
					for _, i := range idx {
						e.kids = append(e.kids, kids[i])
					}
					return f(e)
				}) {
					return
				}
			}
		}
	}
}

func run(c *kit.C) {
	n := int64(0)
	doc := func(roots ...*elem) bool {
		n++
		return c.CaseF(func() string { return text(roots) }, func(t *kit.T) {
			s := judge(t, xml.NewDecoder(strings.NewReader(text(roots))), roots)
			t.Outcome(fmt.Sprint(strings.Count(s, "message"), strings.Count(s, "int64"), strings.Count(s, "double"), strings.Count(s, "string"), strings.Count(s, "repeated")))
		}) && !c.Stop()
	}
	part := func(s string) { c.Part(s, n); n = 0 }

	// trees
	l1 := leaves([]string{"a", "b"}, [][]xml.Attr{nil, at("a", "1"), at("x", "t"), at("x", "1.5", "b", "2")}, []string{"", "1", "t"})
	parents([]string{"a"}, [][]xml.Attr{nil, at("x", "1")}, l1, c.Pick(2, 3), func(e *elem) bool { return doc(e) })
	l0 := leaves([]string{"a", "b"}, [][]xml.Attr{nil, at("x", "1")}, []string{"", "2"})
	var p1 []*elem
	parents([]string{"a", "b"}, [][]xml.Attr{nil, at("a", "1")}, l0, 1, func(e *elem) bool { p1 = append(p1, e); return true })
	parents([]string{"a"}, [][]xml.Attr{nil, at("x", "1")}, p1, 2, func(e *elem) bool { return doc(e) })
	parents([]string{"a", "c"}, [][]xml.Attr{nil}, p1, 2, func(e *elem) bool { return doc(e, e) && doc(e, p1[0]) && doc(p1[7], e) })
	parents([]string{"r"}, [][]xml.Attr{nil}, l0, c.Pick(4, 6), func(e *elem) bool { return doc(e) })
	var p2 []*elem
	parents([]string{"a", "b"}, [][]xml.Attr{nil}, p1[:c.Pick(8, 18)], 2, func(e *elem) bool { p2 = append(p2, e); return true })
	for _, x := range p2 {
		for _, y := range p2 {
			if !doc(el("r", nil, x, y)) || !doc(x, y) {
				break
			}
		}
	}
	part("trees")

	// values
	vals := []string{"1", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "+5", "007", "1.5", ".5", "1e400", "-1e3", "Infinity", "NaN", "x", "", " 1", "1 ", "1\n", "0x1", "1_0", "0b1", "0o7", "-0x1F", "true", "\"", "\\", "é", "*/", "a\nb", "//", "\u2028", "1f", "1.5f", "1F", "1d", "1L", "1u", "1%", "1,5", "1 5", "0.", "--1", "+-1", "1e", "1e+", "INF", "+inf", "-Inf", "nan", "infinity", "-0", "0x1p4", "\ufeff1", "１", "٣"}
	for k := 0; k <= 3; k++ {
		vs := len(vals)
		if k == 3 && !c.Thorough() {
			vs = 30
		}
		kit.Seqs(vs, k, func(idx []int) bool {
			var as, ks []*elem
			r := el("r", nil)
			for _, i := range idx {
				as = append(as, el("a", at("x", vals[i])))
				ks = append(ks, el("a", nil, el("b", nil, vals[i])))
				r.kids = append(r.kids, el("b", nil, vals[i]))
			}
			return doc(as...) && doc(ks...) && doc(r) && doc(append(as, el("a", nil))...)
		})
	}
	for _, h := range numref.Hard() {
		for _, with := range []string{"", "1", "1.5", "x"} {
			as := []*elem{el("a", at("x", h), el("b", nil, h))}
			if with != "" {
				as = append(as, el("a", at("x", with), el("b", nil, with)))
			}
			if !doc(as...) {
				break
			}
		}
	}
	part("sequences of values")
	many := []string{"3", "1", "b", "a", "", "2", "c"}
	kit.Product([]int{3, 3, 3, 3, 3, 3, c.Pick(2, 3)}, func(idx []int) bool {
		var as []*elem
		for i, k := range idx {
			for j := 0; j < k; j++ {
				as = append(as, el("a", at("x", many[i]), el("b", nil, many[i])))
			}
		}
		return len(as) == 0 || doc(as...)
	})
	part("multisets of values")

	// cardinalities
	for k := 1; k <= c.Pick(4, 5); k++ {
		kit.Seqs(4, k, func(idx []int) bool {
			var as, bs []*elem
			for _, i := range idx {
				a, b := el("a", nil), el("a", nil)
				for j := 0; j < i; j++ {
					a.kids = append(a.kids, el("b", at("x", "1")), "\n")
					b.kids = append(b.kids, el("c", nil), el("b", nil))
				}
				as = append(as, a)
				bs = append(bs, b)
			}
			return doc(as...) && doc(bs...) && doc(append(as, bs...)...)
		})
	}
	part("cardinalities")

	// tokens that mean nothing
	noise := []interface{}{xml.Comment(" <a> "), xml.ProcInst{Target: "p", Inst: []byte("i")}, xml.Directive("DOCTYPE a"), xml.CharData("3"), " ", "4"}
	kit.Seqs(len(noise), 3, func(idx []int) bool {
		return doc(el("a", at("x", "1"), noise[idx[0]], el("b", nil, noise[idx[1]], noise[idx[2]]), noise[idx[0]])) &&
			doc(el("a", nil, noise[idx[1]], el("b", nil, "1", noise[idx[0]], "2"), noise[idx[2]], el("b", nil, "3")))
	})
	part("tokens without meaning")

	// names
	letters := []string{"a", "B", "1", "_", "-", ".", "é", "·"}
	start := func(s string) bool { return strings.Trim(s[:1], "aB_é\xc3") == "" }
	var names []string
	kit.Strings(letters, c.Pick(3, 4), func(parts []string) bool {
		if s := strings.Join(parts, ""); s != "" && start(s) {
			names = append(names, s)
		}
		return true
	})
	names = append(names, "message", "string", "int64", "reserved", "option", "syntax", "enum", "oneof", "map", "repeated", "fooBar", "foo_bar", "foo-bar", "FooBar", "FOO", "xmlFoo", "日本", "Ω", "google", "optional", "group", "import", "package", "returns", "rpc", "stream", "to", "max", "true", "inf", "nan", "default", "json_name", "packed", "deprecated", "mapEntry", "aEntry")
	p := newProtoc(c)
	named := func(roots ...*elem) bool {
		n++
		return c.CaseF(func() string { return text(roots) }, func(t *kit.T) {
			p.add(t, text(roots), judge(t, reader(roots), roots))
		}) && !c.Stop()
	}
	for _, x := range names {
		if !named(el(x, at("x", "1"))) || !named(el("a", at(x, "1"))) || !named(el("a", nil, el(x, nil, "1"))) || !named(el("a", nil, el(x, at("y", "1")), el(x, nil))) || !named(el(x, at(x, "1"), el(x, nil, el(x, nil)))) {
			break
		}
	}
	var short []string
	kit.Strings(letters, 2, func(parts []string) bool {
		if s := strings.Join(parts, ""); s != "" && start(s) {
			short = append(short, s)
		}
		return true
	})
	short = append(short, "aB1", "ab1", "a_b", "a11", "fooBar", "foobar", "A1", "AB1", "F", "f", "M")
	for _, x := range short {
		for _, y := range short {
			if x != y && !named(el("r", at(x, "1", y, "2"))) ||
				!named(el("r", at(x, "1"), el(y, nil, "2"))) ||
				!named(el("r", nil, el(x, nil, "2"), el(y, nil, "3"))) ||
				!named(el("r", nil, el(x, at("x", "1")), el(y, at("x", "1"), el(x, nil, "7")))) ||
				x != y && !named(el(x, at("x", "1")), el(y, at("x", "1"))) ||
				!named(el("r", at("a", "1", "a1", "2"), el(x, nil), el(y, nil))) {
				break
			}
		}
	}
	for _, x := range []string{"a", "b", "a1", "A"} {
		for _, y := range []string{"a", "b", "a1", "A"} {
			for _, z := range []string{"a", "b", "a1", "A"} {
				u := func(s, n string) xml.Name { return xml.Name{Space: s, Local: n} }
				A := func(n xml.Name) xml.Attr { return xml.Attr{Name: n, Value: "1"} }
				named(&elem{u("u", x), []xml.Attr{A(u("", y)), A(u("u", y)), A(u("v", z))}, []interface{}{&elem{u("", y), nil, nil}, &elem{u("v", y), []xml.Attr{A(u("u", z))}, nil}, &elem{u("u", y), nil, []interface{}{&elem{u("v", z), nil, nil}}}}})
				named(&elem{u("u", x), []xml.Attr{A(u("", y))}, nil}, &elem{u("v", x), []xml.Attr{A(u("", z))}, nil}, &elem{u("u", x), []xml.Attr{A(u("", y))}, nil})
			}
		}
	}
	p.finish()
	part("names")

	// many and long things
	for k := 1; k <= c.Pick(300, 1030); k++ {
		near := k <= 12
		for _, p := range []int{16, 20, 32, 64, 100, 128, 256, 300, 512, 1000, 1024} {
			near = near || k >= p-1 && k <= p+1
		}
		if !near {
			continue
		}
		var same, other, last, wide, ints []*elem
		row := el("r", nil)
		attrs := el("a", nil)
		deep := el("z", at("x", "1"))
		for i := 0; i < k; i++ {
			v := fmt.Sprint((i*i*7 + i) % 13)
			same = append(same, el("a", at("x", v), el("b", nil, v)))
			ints = append(ints, el("a", at("x", fmt.Sprint(i)), el("b", nil, fmt.Sprint(-i))))
			other = append(other, el(word(i), at("x", v), el(word(k-i), nil, v)))
			wide = append(wide, el(word(i%7), at(word(i), v), el(word(i), nil, v), el("x", nil, el(word(i/2), nil, v))))
			row.kids = append(row.kids, el(word(i), nil, v), el("s", nil, v))
			attrs.attrs = append(attrs.attrs, at(word(i), v)...)
			deep = el(word(i%3), at("x", v), deep, el("leaf", nil, v))
		}
		for _, odd := range []string{"1.5", "x", ""} {
			last = append(append([]*elem{}, same...), el("a", at("x", odd), el("b", nil, odd)))
			if !doc(last...) {
				break
			}
		}
		var once []*elem // the last parent holds two of what the others hold one of
		once = append(append(once, same...), el("a", nil, el("b", nil), el("b", nil)))
		long := strings.Repeat("n", k)
		if !doc(same...) || !doc(ints...) || !doc(other...) || !doc(wide...) || !doc(row) || !doc(attrs) || !doc(once...) ||
			!doc(el(long, at(long, strings.Repeat("v", k)), el(long+"n", nil, strings.Repeat("1", k))), el(long, nil)) || !doc(el("r", nil, el(long+"a", at(long+"x", "1", long+"y", "t"), "1"), el(long+"b", at("y", "1"), el(long+"a", nil, "t")), el(long+"c", nil, "x"))) || k <= 66 && !doc(deep) {
			break
		}
	}
	// thousands of values, and the last says something else
	for _, k := range []int{999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000, c.Pick(100001, 100001)} {
		for _, odd := range []string{"1.5", "x", "", "9223372036854775808"} {
			var apart, equal []*elem
			one := el("r", nil)
			for i := 0; i < k; i++ {
				apart = append(apart, el("a", at("x", fmt.Sprint(i)), el("b", nil, fmt.Sprint(i))))
				equal = append(equal, el("a", at("x", "7"), el("b", nil, "7")))
				one.kids = append(one.kids, el("b", at("y", fmt.Sprint(i)), fmt.Sprint(i)))
			}
			last := el("a", at("x", odd), el("b", nil, odd))
			one.kids = append(one.kids, el("b", at("y", odd), odd))
			if !doc(append(apart, last)...) || !doc(append([]*elem{last}, apart...)...) || !doc(append(equal, last)...) || !doc(one) || !doc(append(apart, el("a", nil, el("b", nil), el("b", nil)))...) {
				break
			}
		}
	}
	part("many and long things")

	broken(c, &n)
	part("broken documents and failing sources")

	for _, inc := range []bool{true, false} {
		roots := []*elem{el("a", at("x", "secret one"), el("b", nil, "secret two"), el("c", at("y", "secret three")))}
		n++
		c.Case(fmt.Sprint("IncludeExamplesOption ", inc), func(t *kit.T) {
			r, err := xmlinfer.Infer(reader(roots), xmlinfer.IncludeExamplesOption(inc))
			if err != nil {
				t.Failf("%v", err)
				return
			}
			s, err := r.ProtoFile()
			if err != nil {
				t.Failf("%v", err)
				return
			}
			if strings.Count(s, "secret") != map[bool]int{true: 3}[inc] {
				t.Failf("the examples in the file with the option set to %v:\n%s", inc, s)
			}
			if f, err := parseProto(s); err != nil || len(f.GetMessageTypes()) != 2 {
				t.Failf("%v\n%s", err, s)
			}
		})
	}
	part("the option on examples")
}

// word is the i-th word.
func word(i int) (s string) {
	for i++; i > 0; i = (i - 1) / 26 {
		s = string(rune('a'+(i-1)%26)) + s
	}
	return s + "q" // no word is a key word
}

var errSource = errors.New("source broke")

func broken(c *kit.C, n *int64) {
	docs := [][]*elem{
		{el("a", at("x", "1"), " ", el("b", nil, "2"), xml.Comment("c"), el("b", nil, "3"), el("d", at("y", "t")))},
		{el("a", nil, el("a", nil, el("b", nil), el("b", at("x", "1"))), "t"), el("c", at("z", "2")), el("a", nil, el("e", nil))},
		{&elem{xml.Name{Space: "u", Local: "a"}, at("x", "1"), []interface{}{&elem{xml.Name{Space: "v", Local: "a"}, at("y", "2"), []interface{}{"t"}}, el("a", nil, " ", &elem{xml.Name{Space: "v", Local: "b"}, nil, nil})}}, el("a", at("z", "3"))},
	}
	for _, roots := range docs {
		x := text(roots)
		for i := 0; i <= len(x); i++ {
			*n++
			c.CaseF(func() string { return "cut: " + x[:i] }, func(t *kit.T) { fromText(t, x[:i]) })
		}
		toks := tokens(roots)
		edit := func(what string, ts []xml.Token) {
			*n++
			c.CaseF(func() string { return what + " of " + x }, func(t *kit.T) {
				rs, ok := trees(ts)
				if ok {
					judge(t, &source{toks: ts, n: len(ts), err: io.EOF}, rs)
				} else if _, err := infer(&source{toks: ts, n: len(ts), err: io.EOF}); err == nil {
					t.Failf("no error for unbalanced tokens")
				}
			})
		}
		for i := range toks {
			edit(fmt.Sprint("without token ", i), append(append([]xml.Token{}, toks[:i]...), toks[i+1:]...))
			edit(fmt.Sprint("twice token ", i), append(append([]xml.Token{}, toks[:i+1]...), toks[i:]...))
			for j := i + 1; j < len(toks); j++ {
				e := append([]xml.Token{}, toks...)
				e[i], e[j] = e[j], e[i]
				edit(fmt.Sprint("exchanged tokens ", i, " and ", j), e)
				edit(fmt.Sprint("without tokens ", i, " and ", j), append(append(append([]xml.Token{}, toks[:i]...), toks[i+1:j]...), toks[j+1:]...))
			}
		}
		for i := 0; i <= len(toks); i++ {
			for _, e := range []error{errSource, io.ErrUnexpectedEOF, io.EOF} {
				for _, mode := range []string{"", ", given with the last token", ", with nothing between the tokens"} {
					*n++
					c.CaseF(func() string { return fmt.Sprintf("%v%s after %d of %d tokens of %s", e, mode, i, len(toks), x) }, func(t *kit.T) {
						src := &source{toks: toks, n: i, err: e, with: strings.Contains(mode, "last"), gaps: strings.Contains(mode, "nothing")}
						rs, ok := trees(toks[:i])
						if e == io.EOF && ok {
							judge(t, src, rs)
							return
						}
						r, err := xmlinfer.Infer(src)
						if err == nil {
							t.Failf("no error; the result is %v", r)
						} else if !errors.Is(err, e) {
							t.Failf("the error is %q, which is not %q", err, e)
						}
					})
				}
			}
		}
	}
}

// fromText judges a text by whether package xml gives it as balanced tokens.
func fromText(t *kit.T, x string) {
	d := xml.NewDecoder(strings.NewReader(x))
	var toks []xml.Token
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			if _, e := infer(xml.NewDecoder(strings.NewReader(x))); e == nil {
				t.Failf("no error for a broken text: %v", err)
			}
			return
		}
		toks = append(toks, xml.CopyToken(tok))
	}
	if rs, ok := trees(toks); ok {
		judge(t, xml.NewDecoder(strings.NewReader(x)), rs)
	}
}

// trees puts tokens together, if they are balanced.
func trees(toks []xml.Token) (roots []*elem, ok bool) {
	var open []*elem
	for _, tok := range toks {
		switch tok := tok.(type) {
		case xml.StartElement:
			e := &elem{tok.Name, tok.Attr, nil}
			if len(open) == 0 {
				roots = append(roots, e)
			} else {
				p := open[len(open)-1]
				p.kids = append(p.kids, e)
			}
			open = append(open, e)
		case xml.EndElement:
			if len(open) == 0 || open[len(open)-1].name != tok.Name {
				return nil, false
			}
			open = open[:len(open)-1]
		default:
			if len(open) > 0 {
				p := open[len(open)-1]
				p.kids = append(p.kids, tok)
			}
		}
	}
	return roots, len(open) == 0
}

// protoc collects files and has them checked by protoc, many at a time.
type protoc struct {
	c     *kit.C
	dir   string
	files map[string]string
	keys  map[string]string
}

func newProtoc(c *kit.C) *protoc {
	return &protoc{c: c, files: map[string]string{}, keys: map[string]string{}}
}

func (p *protoc) add(t *kit.T, key, src string) {
	if src == "" || t.Failed() {
		return
	}
	name := fmt.Sprintf("f%d.proto", len(p.files))
	p.files[name] = strings.Replace(src, "\n", fmt.Sprintf("\npackage p%d;\n", len(p.files)), 1)
	p.keys[name] = key
	if len(p.files) == 400 {
		p.finish()
	}
}

func (p *protoc) finish() {
	if len(p.files) == 0 {
		return
	}
	dir, err := os.MkdirTemp("", "c27")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var args []string
	for n, s := range p.files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0600); err != nil {
			panic(err)
		}
		args = append(args, n)
	}
	sort.Strings(args)
	run := func(args []string) (string, bool) {
		cmd := exec.Command("protoc", append([]string{"-o", "/dev/null"}, args...)...)
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if _, exited := err.(*exec.ExitError); err != nil && !exited {
			panic(err)
		}
		return string(out), err == nil
	}
	if _, ok := run(args); !ok {
		for _, a := range args {
			if out, ok := run([]string{a}); !ok {
				p.c.Violation(p.keys[a], "protoc refuses the file: "+out+"\n"+p.files[a])
			}
		}
	}
	p.files, p.keys = map[string]string{}, map[string]string{}
}
