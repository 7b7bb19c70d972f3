// C24: RDF/XML documents give exactly the graph of the RDF/XML recommendation.
package main

import (
	"fmt"

	"verif/mc/kit"
	. "verif/mc/rdfref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C24", Level: "model_checking",
		Rule:  "documents as element trees: every node element name and every set of up to a number of attributes of a node element, as root, under rdf:RDF, in a property and in a collection; every property element name, attribute set and content; every tree up to a depth of nodes, properties, collections, resources and lists; every number up to a bound of attributes, properties, nodes, items and levels. Each is printed as XML (the names and contents also in four other spellings, with default, exchanged and redeclared namespaces, CDATA sections and character references), read by the parser, and its triples compared as a graph up to blank node names with those of a reference translator of the grammar, or refused if the grammar does not derive it. Non-trivial: the graph is not empty",
		Procs: 8,
	}, run)
}

func desc(as []Attr, kids ...Node) *Elem { return E(R("Description"), as, kids...) }

var about = A(R("about"), "http://o/s")

func run(c *kit.C) {
	one := func(root *Elem) bool {
		return c.CaseF(root.XML, func(t *kit.T) { Check(t, root, Base) })
	}
	// every spelling of the document: default namespaces, other prefixes, CDATA sections and so on
	spelled := int64(0)
	all := func(root *Elem) bool {
		for i := 0; i < Spellings; i++ {
			spelled++
			i := i
			if !c.CaseF(func() string { return root.Spell(i) }, func(t *kit.T) { CheckSpelling(t, root, i, Base) }) {
				return false
			}
		}
		return one(root)
	}
	within := func(k *Elem, f func(*Elem) bool) bool {
		return f(k) && f(E(R("RDF"), nil, Text(" "), k, Text("\n"))) &&
			f(desc(about, E(X("p"), nil, k))) &&
			f(desc(about, E(X("p"), A(R("parseType"), "Collection"), E(X("T"), nil), k)))
	}
	textProp := E(X("p"), nil, Text("v"))

	// node elements
	nodeAttrs := A(R("about"), "", R("about"), "#x", R("about"), "http://o/p?q#f", R("about"), "a/../b", R("about"), "a b", R("about"), "%c3%a9",
		R("ID"), "i", R("ID"), "1", R("ID"), "a:b", R("nodeID"), "n", R("nodeID"), "_n", R("nodeID"), "n.", R("nodeID"), "1", R("nodeID"), "",
		U("about"), "u", U("ID"), "j", U("type"), "T", U("resource"), "r", U("parseType"), "Literal", U("nodeID"), "n", U("foo"), "f",
		X("p"), "v", X("xmlq"), "w", R("type"), "T2", R("type"), "a b", R("value"), "v", R("_1"), "v", R("Seq"), "v",
		R("li"), "v", R("Description"), "v", R("bagID"), "v", R("aboutEach"), "v", R("aboutEachPrefix"), "v", R("resource"), "v", R("datatype"), "v", R("parseType"), "Literal", R("RDF"), "v",
		L("lang"), "en", L("lang"), "", L("base"), "http://c/d/e", L("base"), "f/", L("base"), "a b", L("space"), "preserve", U("xmlfoo"), "x")
	names := []Name{R("Description"), X("T"), R("Seq"), R("Statement"), R("type"), R("_1"), R("nil"), R("li"), R("RDF"), R("ID"), R("about"), R("bagID"), R("aboutEach"), R("aboutEachPrefix"), R("parseType"), R("resource"), R("nodeID"), R("datatype"), U("foo"), {EX2, "T"}, X("Description"), X("li"), X("RDF")}
	n := int64(0)
	Subsets(nodeAttrs, 1, func(as []Attr) bool {
		for _, nm := range names {
			n += 4
			if !within(E(nm, as, textProp), all) {
				return false
			}
		}
		return !c.Stop()
	})
	c.Part("names and contexts of node elements", n)
	n = 0
	Subsets(nodeAttrs, c.Pick(3, 4), func(as []Attr) bool {
		for _, nm := range names[:2] {
			if len(as) < 4 {
				n += 4
				if !within(E(nm, as), one) {
					return false
				}
			} else if n++; !one(E(nm, as)) {
				return false
			}
		}
		return !c.Stop()
	})
	c.Part("attribute sets of node elements", n)
	n = 0
	for _, kids := range [][]Node{{}, {Text(" ")}, {Text("t")}, {Comment("c")}, {PI("p i")}, {textProp}, {Text("\n\t"), textProp, Text(" "), textProp, Text("\n")}, {Text("t"), textProp}, {textProp, Text("t")}, {Comment("c"), textProp}, {textProp, PI("p i"), textProp}, {Text("\u00a0")}, {Text(" "), Comment("c"), Text("x")}, {Text("<&>")}} {
		for _, as := range [][]Attr{nil, about} {
			for _, nm := range []Name{R("Description"), X("T"), R("RDF")} {
				n += 4
				within(E(nm, as, kids...), all)
			}
		}
	}
	// what a document may hold beside its node elements
	rdfAttrs := A(L("lang"), "en", L("base"), "http://c/", U("xmlfoo"), "x", X("p"), "v", R("about"), "x", U("about"), "x", U("foo"), "x", R("type"), "x", R("ID"), "i", L("space"), "default")
	Subsets(rdfAttrs, 2, func(as []Attr) bool {
		for _, kids := range [][]Node{{}, {desc(about, textProp)}, {Text(" "), desc(A(R("about"), "r"), textProp), Comment("c"), E(X("T"), nil), Text("\n")}, {Text("t")}, {desc(about), Text("t")}, {E(R("RDF"), nil)}, {textProp}} {
			n++
			all(E(R("RDF"), as, kids...))
		}
		return true
	})
	c.Part("contents of node elements and of rdf:RDF", n)

	// property elements
	propAttrs := A(R("ID"), "i", R("ID"), "1", R("nodeID"), "n", R("nodeID"), "_n", R("nodeID"), "1", R("resource"), "", R("resource"), "#r", R("resource"), "http://o/r", R("resource"), "a b",
		R("datatype"), "http://d/t", R("datatype"), "dt", R("datatype"), "a b", R("parseType"), "Resource", R("parseType"), "Literal", R("parseType"), "Collection", R("parseType"), "other", R("parseType"), "", R("parseType"), "resource",
		U("resource"), "u", U("parseType"), "Resource", U("ID"), "j", U("type"), "T", U("about"), "x", U("foo"), "x", U("datatype"), "http://d/t", U("nodeID"), "n",
		X("q"), "v", X("xmlq"), "v", R("type"), "T", R("value"), "v", R("li"), "v", R("about"), "v", R("bagID"), "v", R("Description"), "v", R("aboutEach"), "v",
		L("lang"), "en", L("lang"), "", L("base"), "http://c/d/e", L("base"), "f/", L("space"), "preserve", U("xmlfoo"), "x")
	deep := E(X("i"), A(X("a"), "1", U("b"), "<&\">", L("lang"), "fr", Name{"xmlns", "q"}, "http://q/"), Text("t&<u "), E(U("j"), nil, Comment("c")), E(Name{EX2, "k"}, A(Name{EX2, "z"}, "y")), Text("\n"))
	spaces := E(X("i"), nil, E(Name{EX2, "j"}, A(X("a"), "1"), E(U("k"), nil, E(U("l"), nil), E(X("m"), nil, E(U("n"), nil, Text("t")), E(X("o"), nil)), E(U("p"), nil)), E(Name{EX2, "q"}, nil)), E(U("r"), nil, E(Name{EX2, "s"}, nil, E(U("t"), nil), E(X("u"), nil)), E(U("v"), nil)))
	contents := [][]Node{{}, {spaces}, {E(U("w"), nil, spaces), Text(" "), spaces}, {Text(" ")}, {Text("t")}, {Text(" t "), Comment("c"), Text("u\n"), PI("p i"), Text("]]>")}, {Comment("c")}, {PI("p i")},
		{E(X("T"), nil)}, {Text("\n "), desc(A(R("about"), "o"), textProp), Text("\t")}, {Text("t"), E(X("T"), nil)}, {E(X("T"), nil), Text("t")}, {E(X("T"), nil), E(X("T"), nil)},
		{Comment("c"), E(X("T"), nil), PI("p i")}, {E(R("li"), nil, Text("x")), Text(" "), E(R("li"), A(R("resource"), "y"))}, {E(U("foo"), nil)}, {deep}, {deep, Text("tail"), deep}, {Text("é😀")}, {E(X("p"), nil, E(X("T"), nil))}}
	props := []Name{X("p"), R("li"), R("_3"), R("type"), R("value"), R("Seq"), R("first"), R("Description"), R("RDF"), R("ID"), R("about"), R("bagID"), R("aboutEach"), R("aboutEachPrefix"), R("parseType"), R("resource"), R("nodeID"), R("datatype"), U("foo"), {EX2, "p"}, X("li"), X("Description")}
	n = 0
	Subsets(propAttrs, 1, func(as []Attr) bool {
		for _, nm := range props {
			for _, k := range contents {
				n++
				if !all(desc(about, E(R("li"), nil, Text("0")), E(nm, as, k...), E(R("li"), nil, Text("1")))) {
					return false
				}
			}
		}
		return !c.Stop()
	})
	c.Part("names and contents of property elements", n)
	n = 0
	Subsets(propAttrs, c.Pick(2, 3), func(as []Attr) bool {
		for _, nm := range props[:2] {
			for _, k := range contents {
				n++
				if !one(desc(nil, E(nm, as, k...), E(R("li"), nil))) {
					return false
				}
			}
		}
		return !c.Stop()
	})
	Subsets(propAttrs, c.Pick(3, 4), func(as []Attr) bool {
		n++
		return one(desc(about, E(X("p"), as))) && !c.Stop()
	})
	c.Part("attribute sets of property elements", n)

	// many of everything
	n = 0
	sizes := c.Pick(130, 400)
	for k := 2; k <= 300 || k <= sizes; k++ {
		if k > sizes {
			switch k {
			case 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 258, 300:
			default:
				continue
			}
		}
		var as []Attr
		var props, items, same, unnamed []Node
		for i := 0; i < k; i++ {
			as = append(as, Attr{X(fmt.Sprintf("a%d", (i*7+3)%k*1000+i)), fmt.Sprint("v", i)})
			props = append(props, E(X(fmt.Sprintf("q%d", i%5)), A(R("ID"), "*"), Text(fmt.Sprint(i))))
			items = append(items, desc(A(R("about"), fmt.Sprint("i", i)), E(R("li"), nil, Text(fmt.Sprint(i)))))
			same = append(same, E(R("li"), A(R("resource"), fmt.Sprint("#r", i))))
			if i%2 == 0 {
				unnamed = append(unnamed, desc(nil, E(X("q"), nil, Text(fmt.Sprint(i)))))
			} else {
				unnamed = append(unnamed, desc(A(R("nodeID"), fmt.Sprint("gen-", i)), E(X("q"), nil, Text(fmt.Sprint(i)))))
			}
			if i%3 == 1 {
				same = append(same, E(X("p"), nil, desc(nil, E(R("li"), nil, Text(fmt.Sprint("inner", i))))))
			}
		}
		nest, rnest := E(X("p"), nil, Text("bottom")), E(X("p"), nil, Text("bottom"))
		for i := 0; i < k; i++ {
			nest = E(R("li"), nil, E(X("T"), A(R("about"), fmt.Sprint(i)), nest, E(R("li"), nil)))
			rnest = E(R("li"), A(R("parseType"), "Resource"), E(R("li"), nil), rnest, E(R("li"), nil))
		}
		for _, d := range []*Elem{
			desc(append(append([]Attr(nil), about...), as...)),
			desc(about, E(X("p"), as)),
			desc(about, E(X("p"), append(A(R("ID"), "x", R("resource"), "o"), as...))),
			desc(about, E(X("p"), append(A(R("nodeID"), "o", R("type"), "T"), as...))),
			number(desc(about, props...)),
			E(R("RDF"), nil, items...),
			E(R("RDF"), nil, unnamed...),
			desc(about, E(X("p"), A(R("parseType"), "Collection"), unnamed...), E(X("p"), A(R("parseType"), "Collection"), items...)),
			desc(about, E(X("p"), A(R("parseType"), "Collection"), items...)),
			desc(about, same...),
			desc(about, E(X("p"), A(R("parseType"), "Resource"), same...)),
			desc(about, nest),
			desc(about, rnest),
		} {
			n++
			one(d)
		}
	}
	c.Part("many attributes, properties, nodes, items and levels", n)

	// trees
	res := func(v string) *Elem { return E(X("p"), A(R("resource"), v)) }
	leaf := []*Elem{E(X("p"), nil, Text("t")), res("r"), E(R("li"), nil, Text("u")), E(X("p"), A(R("nodeID"), "a")), E(R("li"), A(R("ID"), "*"), Text("v"))}
	nodes := func(ps [][]Node) (out []*Elem) {
		for _, k := range ps {
			out = append(out, desc(about, k...), desc(A(R("nodeID"), "a"), k...), E(X("T"), nil, k...))
		}
		return
	}
	lists := func(ps []*Elem, max int) (out [][]Node) {
		for l := 0; l <= max; l++ {
			kit.Seqs(len(ps), l, func(idx []int) bool {
				var k []Node
				for _, i := range idx {
					k = append(k, ps[i])
				}
				out = append(out, k)
				return true
			})
		}
		return
	}
	asNodes := func(es []*Elem) []*Elem { return es }
	n0 := nodes(lists(leaf, c.Pick(1, 2)))
	grow := func(ns []*Elem, inner [][]Node, coll int) (out []*Elem) {
		out = append(out, leaf...)
		for _, x := range ns {
			out = append(out, E(X("p"), nil, x), E(R("li"), A(R("ID"), "*"), x))
		}
		for _, k := range inner {
			out = append(out, E(R("li"), A(R("parseType"), "Resource", R("ID"), "*"), k...), E(X("p"), A(R("parseType"), "Resource"), k...))
		}
		for _, k := range lists(asNodes(nodes(lists(leaf[:3], 1))), coll) {
			out = append(out, E(X("p"), A(R("parseType"), "Collection"), k...))
		}
		out = append(out, E(R("li"), A(R("parseType"), "Collection", R("ID"), "*"), E(X("T"), nil), E(X("T"), nil), desc(A(R("nodeID"), "a"))))
		return
	}
	p1 := grow(n0, lists(leaf, c.Pick(1, 2)), 2)
	n = 0
	for _, k := range lists(p1, 2) {
		n++
		if !one(number(desc(nil, k...))) || c.Stop() {
			break
		}
	}
	c.Part(fmt.Sprintf("pairs of %d property elements, two levels deep", len(p1)), n)
	n = 0
	n1 := nodes(lists(p1, 1))
	p2 := grow(n1, lists(p1, 1), 3)
	for _, k := range lists(p2, 1) {
		for _, l := range [][]Node{nil, {leaf[2]}, {leaf[3]}, {E(X("p"), nil, E(X("T"), nil))}} {
			n++
			if !one(number(E(R("RDF"), nil, E(X("T"), A(R("nodeID"), "a"), append(append([]Node(nil), k...), l...)...), desc(nil, l...)))) || c.Stop() {
				break
			}
		}
	}
	c.Part("other spellings of the same documents", spelled)
	c.Part(fmt.Sprintf("%d property elements three levels deep", len(p2)), n)
}

// number copies the tree and gives every rdf:ID="*" its own value.
func number(e *Elem) *Elem {
	n := 0
	var rec func(e *Elem) *Elem
	rec = func(e *Elem) *Elem {
		o := &Elem{Name: e.Name}
		for _, a := range e.Attrs {
			if a.Value == "*" {
				n++
				a.Value = fmt.Sprintf("k%d", n)
			}
			o.Attrs = append(o.Attrs, a)
		}
		for _, k := range e.Kids {
			if x, ok := k.(*Elem); ok {
				k = rec(x)
			}
			o.Kids = append(o.Kids, k)
		}
		return o
	}
	return rec(e)
}
