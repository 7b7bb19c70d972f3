// C26: broken RDF/XML documents and failing sources give an error, never a silently incomplete graph.
package main

import (
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/rdf/rdfxml"
	"verif/mc/kit"
	"verif/mc/ntref"
	. "verif/mc/rdfref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C26", Level: "model_checking",
		Rule:  "documents using every production, and long and deep ones: cut at every byte; with every one and two of their pieces (tags, text, comments) deleted, repeated, exchanged with the next, or replaced by another piece; and read from a source that fails or ends after every number of tokens. A document the reference translator derives must give its graph, every other one an error; an error of the source must be passed on, with the triples read before it a part of those of the whole document. Non-trivial: the document is broken",
		Procs: 8,
	}, run)
}

const ns = ` xmlns:rdf="` + RDF + `" xmlns:e="` + EX + `" xmlns:f="` + EX2 + `"`

func desc(as []Attr, kids ...Node) *Elem { return E(R("Description"), as, kids...) }

var docs = []*Elem{
	E(R("RDF"), nil, Text("\n"), E(X("T"), A(R("ID"), "a"), E(X("p"), nil, Text("v"))), desc(A(R("about"), "x"), E(X("q"), A(R("resource"), "#a")))),
	desc(A(R("nodeID"), "n"), Text(" "), E(X("p"), nil, E(X("T"), nil, E(R("li"), nil, Text("1")), E(R("li"), nil, Text("2")))), Comment(" c "), E(X("q"), nil)),
	E(R("RDF"), nil, desc(A(R("about"), ""), E(X("p"), A(R("parseType"), "Collection"), E(X("T"), nil), desc(A(R("nodeID"), "n"))), E(X("q"), A(R("parseType"), "Resource"), E(X("r"), nil, Text("w"))))),
	E(R("RDF"), A(L("lang"), "en"), E(X("T"), nil, E(X("p"), A(R("parseType"), "Literal"), Text("a"), E(X("b"), A(X("c"), "d"), Text("e")), Comment("f")), E(X("p"), A(R("ID"), "i"), Text("v")))),
	E(X("T"), nil, E(X("p"), nil, desc(A(R("about"), "o"), E(X("q"), A(R("ID"), "z", X("r"), "v"))), Text("\n")), PI("p i"), E(R("type"), A(R("nodeID"), "m"))),
}

// pieces splits the tree into tags, text, comments and instructions; the root's start tag comes first.
type piece struct {
	kind string // start end text other
	elem *Elem
	n    Node
}

func pieces(e *Elem) []piece {
	out := []piece{{"start", e, nil}}
	for _, k := range e.Kids {
		switch k := k.(type) {
		case *Elem:
			out = append(out, pieces(k)...)
		case Text:
			out = append(out, piece{"text", nil, k})
		default:
			out = append(out, piece{"other", nil, k})
		}
	}
	return append(out, piece{"end", e, nil})
}

func doc(ps []piece) string {
	b := &strings.Builder{}
	for i, p := range ps {
		switch p.kind {
		case "start":
			b.WriteString("<" + p.elem.Name.String())
			if i == 0 {
				b.WriteString(ns)
			}
			for _, a := range p.elem.Attrs {
				fmt.Fprintf(b, ` %s="%s"`, a.Name, a.Value)
			}
			b.WriteString(">")
		case "end":
			b.WriteString("</" + p.elem.Name.String() + ">")
		default:
			switch n := p.n.(type) {
			case Text:
				b.WriteString(string(n))
			case Comment:
				b.WriteString("<!--" + string(n) + "-->")
			case PI:
				b.WriteString("<?" + string(n) + "?>")
			}
		}
	}
	return b.String()
}

// tree puts the pieces together again; why says what is not well formed.
func tree(ps []piece) (root *Elem, why string) {
	var stack []*Elem
	for _, p := range ps {
		var top *Elem
		if len(stack) > 0 {
			top = stack[len(stack)-1]
		}
		switch p.kind {
		case "start":
			e := &Elem{Name: p.elem.Name, Attrs: p.elem.Attrs}
			if top != nil {
				top.Kids = append(top.Kids, e)
			} else if root != nil {
				return nil, "two root elements"
			} else {
				root = e
			}
			stack = append(stack, e)
		case "end":
			if top == nil || top.Name != p.elem.Name {
				return nil, "tags do not match"
			}
			stack = stack[:len(stack)-1]
		case "text":
			if top != nil {
				top.Kids = append(top.Kids, p.n)
			} else if strings.TrimSpace(string(p.n.(Text))) != "" {
				return nil, "text outside the root element"
			}
		default:
			if top != nil {
				top.Kids = append(top.Kids, p.n)
			}
		}
	}
	if len(stack) > 0 || root == nil {
		return nil, "element not closed"
	}
	return root, ""
}

func judge(t *kit.T, ps []piece) {
	root, why := tree(ps)
	var want []ntref.Triple
	if why == "" {
		// namespaces are declared by the first tag only
		if ps[0].kind != "start" {
			for _, p := range ps {
				if p.kind == "start" {
					t.Trivial()
					t.Outcome("no namespaces")
					return
				}
			}
		}
		want, why = Graph(root, Base)
		if why == "not specified" {
			t.Trivial()
			return
		}
	}
	Judge(t, doc(ps), Base, want, why)
	if why == "" {
		t.Trivial()
	}
}

func edits(ps []piece, f func([]piece)) {
	cat := func(a []piece, b ...piece) []piece { return append(append([]piece(nil), a...), b...) }
	for i := range ps {
		f(cat(ps[:i], ps[i+1:]...))
		f(cat(cat(ps[:i+1], ps[i]), ps[i+1:]...))
		if i+1 < len(ps) {
			f(cat(cat(ps[:i], ps[i+1], ps[i]), ps[i+2:]...))
		}
		for _, x := range []piece{{"text", nil, Text("x")}, {"text", nil, Text(" ")}, {"other", nil, Comment("k")}, {"start", E(X("T"), nil), nil}, {"end", E(X("T"), nil), nil}, {"end", E(R("RDF"), nil), nil}} {
			f(cat(cat(ps[:i], x), ps[i:]...))
			f(cat(cat(ps[:i], x), ps[i+1:]...))
		}
	}
	f(cat(ps, piece{"text", nil, Text("x")}))
	f(cat(ps, piece{"text", nil, Text("\n")}))
	f(cat(ps, piece{"other", nil, Comment("k")}))
}

var errSource = errors.New("source broke")

// source gives the first n tokens and then err.
type source struct {
	toks []xml.Token
	n, i int
	err  error
	// with gives the error along with the last token, and gaps gives nil tokens between the others: see xml.TokenReader
	with, gaps, gap bool
}

func (s *source) Token() (xml.Token, error) {
	if s.i >= s.n {
		return nil, s.err
	}
	if s.gaps && !s.gap {
		s.gap = true
		return nil, nil
	}
	s.gap = false
	s.i++
	if s.with && s.i == s.n {
		return s.toks[s.i-1], s.err
	}
	return s.toks[s.i-1], nil
}

func run(c *kit.C) {
	n := int64(0)
	for _, d := range docs {
		x := doc(pieces(d))
		full, why := Graph(d, Base)
		if why != "" {
			panic(why)
		}
		for i := 0; i <= len(x); i++ {
			n++
			c.CaseF(func() string { return "cut " + x[:i] }, func(t *kit.T) {
				if i == len(x) {
					Judge(t, x, Base, full, "")
				} else {
					Judge(t, x[:i], Base, nil, "cut")
				}
			})
		}
	}
	c.Part("documents cut at every byte", n)

	// documents of many nodes and levels, cut near the ends of their pieces, and with pieces lost or repeated
	n = 0
	var longs []*Elem
	for _, k := range []int{9, 33, 65, c.Pick(100, 257)} {
		var kids, items []Node
		nest := E(X("p"), nil, Text("v"))
		for i := 0; i < k; i++ {
			kids = append(kids, E(X("T"), A(R("ID"), fmt.Sprint("i", i)), E(X("p"), nil, Text(fmt.Sprint(i))), E(R("li"), A(R("parseType"), "Resource"), E(X("q"), nil, Text("w")))))
			items = append(items, desc(nil, E(X("p"), A(R("resource"), fmt.Sprint(i)))))
			nest = E(X("p"), nil, E(X("T"), nil, E(R("li"), nil, Text(fmt.Sprint(i))), nest))
		}
		longs = append(longs, E(R("RDF"), nil, kids...), desc(nil, E(X("c"), A(R("parseType"), "Collection"), items...)), desc(nil, nest))
	}
	for _, d := range longs {
		ps := pieces(d)
		x := doc(ps)
		full, why := Graph(d, Base)
		if why != "" {
			panic(why)
		}
		n++
		c.CaseF(func() string { return x }, func(t *kit.T) { Judge(t, x, Base, full, "") })
		for i := range ps {
			n += 4
			end := len(doc(ps[:i+1]))
			for _, at := range []int{end - 2, end - 1, end} {
				if i == len(ps)-1 && at == end || at < 0 {
					continue
				}
				at := at
				c.CaseF(func() string { return "cut " + x[:at] }, func(t *kit.T) { Judge(t, x[:at], Base, nil, "cut") })
			}
			i := i
			without := append(append([]piece(nil), ps[:i]...), ps[i+1:]...)
			c.CaseF(func() string { return fmt.Sprint("without piece ", i, " of ", x) }, func(t *kit.T) { judge(t, without) })
		}
		if c.Stop() {
			break
		}
	}
	c.Part("documents of many nodes and levels", n)

	n = 0
	for _, d := range docs {
		ps := pieces(d)
		edits(ps, func(a []piece) {
			n++
			c.CaseF(func() string { return doc(a) }, func(t *kit.T) { judge(t, a) })
		})
	}
	c.Part("one edit", n)
	n = 0
	for i, d := range docs {
		if i >= c.Pick(2, len(docs)) {
			break
		}
		edits(pieces(d), func(a []piece) {
			if c.Stop() {
				return
			}
			edits(a, func(b []piece) {
				n++
				c.CaseF(func() string { return doc(b) }, func(t *kit.T) { judge(t, b) })
			})
		})
	}
	c.Part("two edits", n)

	n = 0
	for di, d := range append(append([]*Elem(nil), docs...), longs...) {
		x := "<?xml version=\"1.0\"?>\n" + doc(pieces(d)) + "\n<!--end-->\n"
		full, _ := Graph(d, Base)
		var toks []xml.Token
		dec := xml.NewDecoder(strings.NewReader(x))
		depth, end := 0, 0
		for {
			tok, err := dec.Token()
			if err != nil {
				break
			}
			toks = append(toks, xml.CopyToken(tok))
			switch tok.(type) {
			case xml.StartElement:
				depth++
			case xml.EndElement:
				if depth--; depth == 0 {
					end = len(toks)
				}
			}
		}
		for i := 0; i <= len(toks); i++ {
			for _, err := range []error{errSource, io.ErrUnexpectedEOF, io.EOF, context.Canceled, os.ErrClosed} {
				if di >= len(docs) && err != errSource && err != io.EOF {
					continue
				}
				for _, mode := range []string{"", ", given with the last token", ", with nothing between the tokens"} {
					n++
					c.CaseF(func() string {
						return fmt.Sprintf("%v%s after %d of %d tokens of %s", err, mode, i, len(toks), x)
					}, func(t *kit.T) {
						s := &source{toks: toks, n: i, err: err, with: strings.Contains(mode, "last"), gaps: strings.Contains(mode, "nothing")}
						got, e := rdfxml.NewParser(s, &rdfxml.ParserOptions{BaseURL: ntriples.IRI(Base)}).ReadAllTriples()
						t.Transitions(i)
						complete := i >= end
						switch {
						case err == io.EOF && complete:
							if e != nil || !Isomorphic(Of(got), full) {
								t.Failf("a complete document is not read: %v\n%s", e, Show(Of(got)))
							}
						case e == nil:
							t.Failf("no error; the source had given %v after %d of %d tokens", err, i, len(toks))
						case err != io.EOF && !errors.Is(e, err):
							t.Failf("the error is %q, which does not tell %q", e, err)
						case len(got) > len(full):
							t.Failf("%d triples from a part of a document of %d", len(got), len(full))
						}
						t.Outcome(fmt.Sprint(e != nil, len(got)))
					})
				}
			}
		}
	}
	c.Part("failing sources", n)
}
