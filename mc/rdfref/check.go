package rdfref

import (
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/rdf/rdfxml"
	"verif/mc/kit"
	"verif/mc/ntref"
)

// Base is the document URL used unless another one is given.
const Base = "http://a.example/b/c.rdf"

// E makes an element.
func E(n Name, as []Attr, kids ...Node) *Elem { return &Elem{n, as, kids} }

// A makes an attribute list from names and values.
func A(nv ...interface{}) (out []Attr) {
	for i := 0; i < len(nv); i += 2 {
		out = append(out, Attr{nv[i].(Name), nv[i+1].(string)})
	}
	return
}

func R(s string) Name { return Name{RDF, s} }
func X(s string) Name { return Name{EX, s} }
func L(s string) Name { return Name{XML, s} }
func U(s string) Name { return Name{"", s} }

// Parse runs the code under test on a document.
func Parse(doc, base string) ([]*ntriples.Triple, error) {
	opts := &rdfxml.ParserOptions{BaseURL: ntriples.IRI(base)}
	if base == "" {
		opts = nil
	}
	return rdfxml.NewParser(xml.NewDecoder(strings.NewReader(doc)), opts).ReadAllTriples()
}

// Check compares what the code under test makes of the document with the reference.
func Check(t *kit.T, root *Elem, base string) {
	want, why := Graph(root, base)
	if why == "not specified" {
		t.Trivial()
		t.Outcome(why)
		return
	}
	Judge(t, root.XML(), base, want, why)
}

// CheckSpelling is Check for another spelling of the document.
func CheckSpelling(t *kit.T, root *Elem, style int, base string) {
	want, why := Graph(root, base)
	if why == "not specified" {
		t.Trivial()
		t.Outcome(why)
		return
	}
	Judge(t, root.Spell(style), base, want, why)
}

// Judge compares what the code under test makes of the document with the graph, or the refusal, it should give.
func Judge(t *kit.T, doc, base string, want []ntref.Triple, why string) {
	got, err := Parse(doc, base)
	if why != "" {
		t.Outcome("refused: " + strings.SplitN(why, `"`, 3)[0])
		if err == nil {
			t.Failf("accepted, but %s\n%s\ngives\n%s", why, doc, Show(Of(got)))
		}
		return
	}
	t.Outcome(fmt.Sprintf("%d triples", len(want)))
	if len(want) == 0 {
		t.Trivial()
	}
	if err != nil {
		t.Failf("refused: %v\n%s\nwant\n%s", err, doc, Show(want))
		return
	}
	g := Of(got)
	if !Isomorphic(g, want) {
		t.Failf("%s\ngives\n%s\nwant\n%s", doc, Show(g), Show(want))
		return
	}
	for _, tr := range got {
		if k, x, _ := ntref.Line(tr.String()); k != "triple" || x != ntref.Of(tr) {
			t.Failf("%s\ngives a triple that is not N-Triples: %s", doc, tr)
		}
	}
}

// Subsets calls f with every subset of at most max of the attributes in which no name occurs twice.
func Subsets(pool []Attr, max int, f func([]Attr) bool) bool {
	var cur []Attr
	var rec func(i int) bool
	rec = func(i int) bool {
		if !f(append([]Attr(nil), cur...)) {
			return false
		}
		if len(cur) == max {
			return true
		}
	next:
		for j := i; j < len(pool); j++ {
			for _, a := range cur {
				if a.Name == pool[j].Name {
					continue next
				}
			}
			cur = append(cur, pool[j])
			if !rec(j + 1) {
				return false
			}
			cur = cur[:len(cur)-1]
		}
		return true
	}
	return rec(0)
}
