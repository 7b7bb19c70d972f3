package rdfref

import (
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/google/xtoproto/rdf/ntriples"
	"verif/mc/ntref"
)

// Of describes the triples of the code under test, with XML literals in canonical form.
func Of(ts []*ntriples.Triple) []ntref.Triple {
	var out []ntref.Triple
	for _, t := range ts {
		x := ntref.Of(t)
		if x.O.Kind == "lit" && x.O.Datatype == RDF+"XMLLiteral" {
			x.O.Value = canonText(x.O.Value)
		}
		out = append(out, x)
	}
	return out
}

// canonText reads the content of an XML literal, resolving the namespaces itself.
func canonText(s string) string {
	broken := func(f string, a ...interface{}) string {
		return fmt.Sprintf("broken XML: %s in %q", fmt.Sprintf(f, a...), s)
	}
	type open struct {
		e      *Elem
		raw    xml.Name
		prefix map[string]string
	}
	stack := []open{{e: &Elem{}, prefix: map[string]string{"xml": XML}}}
	d := xml.NewDecoder(strings.NewReader(s))
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return broken("%v", err)
		}
		top := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			t = t.Copy()
			in := map[string]string{}
			for k, v := range top.prefix {
				in[k] = v
			}
			seen := map[xml.Name]bool{}
			for _, a := range t.Attr {
				if seen[a.Name] {
					return broken("attribute %v twice", a.Name)
				}
				seen[a.Name] = true
				if a.Name.Space == "xmlns" {
					if a.Value == "" || a.Name.Local == "xmlns" || a.Value == "xmlns" || a.Value == "http://www.w3.org/2000/xmlns/" {
						return broken("xmlns:%s=%q", a.Name.Local, a.Value)
					}
					in[a.Name.Local] = a.Value
				} else if a.Name == (xml.Name{Local: "xmlns"}) {
					in[""] = a.Value
				}
			}
			bad := ""
			resolve := func(n xml.Name, attr bool) Name {
				if n.Space == "" && attr {
					return Name{"", n.Local}
				}
				ns, ok := in[n.Space]
				if !ok && n.Space != "" {
					bad = n.Space
				}
				return Name{ns, n.Local}
			}
			e := &Elem{Name: resolve(t.Name, false)}
			full := map[Name]bool{}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name == (xml.Name{Local: "xmlns"}) {
					continue
				}
				n := resolve(a.Name, true)
				if full[n] {
					return broken("attribute %v twice", n)
				}
				full[n] = true
				e.Attrs = append(e.Attrs, Attr{n, a.Value})
			}
			if bad != "" {
				return broken("prefix %q is not declared", bad)
			}
			top.e.Kids = append(top.e.Kids, e)
			stack = append(stack, open{e, t.Name, in})
		case xml.EndElement:
			if len(stack) == 1 || top.raw != t.Name {
				return broken("end tag %v", t.Name)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.e.Kids = append(top.e.Kids, Text(t))
		case xml.Comment:
			top.e.Kids = append(top.e.Kids, Comment(t))
		case xml.ProcInst:
			top.e.Kids = append(top.e.Kids, PI(t.Target+" "+string(t.Inst)))
		}
	}
	if len(stack) != 1 {
		return broken("end")
	}
	return Canon(stack[0].e.Kids)
}

func show(t ntref.Term, c map[string]string) string {
	switch t.Kind {
	case "iri":
		return "<" + t.Value + ">"
	case "bnode":
		return c[t.Value]
	}
	return fmt.Sprintf("%q^^<%s>@%s", t.Value, t.Datatype, t.Lang)
}

// bnodes lists the blank nodes; set removes duplicates.
func bnodes(g []ntref.Triple) []string {
	m := map[string]bool{}
	for _, t := range g {
		for _, x := range []ntref.Term{t.S, t.O} {
			if x.Kind == "bnode" {
				m[x.Value] = true
			}
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func lines(g []ntref.Triple, c map[string]string) []string {
	m := map[string]bool{}
	for _, t := range g {
		m[show(t.S, c)+" "+show(t.P, c)+" "+show(t.O, c)] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// colors refines the blank nodes of the graph by what they are connected to.
func colors(g []ntref.Triple, bs []string, c map[string]string) map[string]string {
	at := map[string][]ntref.Triple{} // the triples each blank node is in
	for _, t := range g {
		if t.S.Kind == "bnode" {
			at[t.S.Value] = append(at[t.S.Value], t)
		}
		if t.O.Kind == "bnode" && !(t.S.Kind == "bnode" && t.S.Value == t.O.Value) {
			at[t.O.Value] = append(at[t.O.Value], t)
		}
	}
	for range bs {
		n := map[string]string{}
		for _, b := range bs {
			own := func(x ntref.Term) string {
				if x.Kind == "bnode" && x.Value == b {
					return "*" + c[b]
				}
				return show(x, c)
			}
			var l []string
			for _, t := range at[b] {
				l = append(l, own(t.S)+" "+own(t.P)+" "+own(t.O))
			}
			sort.Strings(l)
			n[b] = hash(strings.Join(l, "\n"))
		}
		if classes(n) == classes(c) {
			c = n
			break
		}
		c = n
	}
	return c
}

func classes(c map[string]string) int {
	m := map[string]bool{}
	for _, v := range c {
		m[v] = true
	}
	return len(m)
}

func hash(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return fmt.Sprintf("_:%016x", h)
}

// Isomorphic says if the graphs are the same set of triples up to the names of blank nodes.
func Isomorphic(a, b []ntref.Triple) bool {
	ba, bb := bnodes(a), bnodes(b)
	if len(ba) != len(bb) {
		return false
	}
	ca, cb := map[string]string{}, map[string]string{}
	for i := range ba {
		ca[ba[i]], cb[bb[i]] = "_:", "_:"
	}
	return iso(a, b, ba, bb, ca, cb)
}

func iso(a, b []ntref.Triple, ba, bb []string, ca, cb map[string]string) bool {
	ca, cb = colors(a, ba, ca), colors(b, bb, cb)
	la, lb := lines(a, ca), lines(b, cb)
	count := func(c map[string]string) map[string]int {
		m := map[string]int{}
		for _, v := range c {
			m[v]++
		}
		return m
	}
	na, nb := count(ca), count(cb)
	if len(na) != len(nb) {
		return false
	}
	for k, v := range na {
		if nb[k] != v {
			return false
		}
	}
	if classes(ca) == len(ba) {
		return strings.Join(la, "\n") == strings.Join(lb, "\n")
	}
	// Tell one of the nodes that look alike apart, in every way.
	var pick string
	for _, x := range ba {
		if na[ca[x]] > 1 {
			pick = x
			break
		}
	}
	for _, y := range bb {
		if cb[y] != ca[pick] {
			continue
		}
		xa, xb := copyOf(ca), copyOf(cb)
		xa[pick], xb[y] = "_:picked"+ca[pick], "_:picked"+ca[pick]
		if iso(a, b, ba, bb, xa, xb) {
			return true
		}
	}
	return false
}

func copyOf(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Show lists the triples in a readable form.
func Show(g []ntref.Triple) string {
	c := map[string]string{}
	for _, b := range bnodes(g) {
		c[b] = "_:" + b
	}
	return strings.Join(lines(g, c), "\n")
}
