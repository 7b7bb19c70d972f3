// C25: bases, languages, IDs and blank node names of RDF/XML mean what their scope says.
package main

import (
	"fmt"
	"strings"

	"verif/mc/kit"
	. "verif/mc/rdfref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C25", Level: "model_checking",
		Rule:  "documents with every choice of xml:base at each of five nested elements, with references of every kind inside, beside and after them, under several document URLs; with every choice of xml:lang at each, and of both at once, in either order; every sequence of rdf:ID values on nodes and properties under every choice of bases; every sequence of named and unnamed blank nodes; hundreds of names, long ones, and hundreds of nested elements; every name up to a length and every Unicode character in a name: the triples are compared as a graph up to blank node names with those of a reference translator, or refused where it refuses. Non-trivial: the graph is not empty",
		Procs: 8,
	}, run)
}

var about = A(R("about"), "http://o/s")

func desc(as []Attr, kids ...Node) *Elem { return E(R("Description"), as, kids...) }

func with(as []Attr, n Name, v string) []Attr {
	if v == "-" {
		return as
	}
	return append([]Attr{{Name: n, Value: v}}, as...)
}

// nest is a document with five nested elements that may carry the attribute n, and users of it everywhere.
func nest(n Name, v [5]string, kind int) *Elem {
	return nests(func(as []Attr, i int) []Attr { return with(as, n, v[i]) }, kind)
}

// nests is the same with any attributes; add adds those of the i-th element.
func nests(add func(as []Attr, i int) []Attr, kind int) *Elem {
	use := func(tag string) []Node {
		return []Node{
			E(X("r"), A(R("resource"), "r"+tag)), E(X("e"), A(R("resource"), "")), E(X("u"), A(R("resource"), "../u#"+tag)),
			E(X("d"), A(R("datatype"), "dt"), Text("x")), E(X("t"), nil, Text(tag)), E(X("z"), nil), E(X("a"), A(X("q"), tag, R("type"), "T"+tag)),
			E(X("l"), A(R("parseType"), "Literal"), Text(tag)), E(X("i"), A(R("ID"), "i"+tag), Text(tag)),
		}
	}
	inner := E(X("T"), add(A(R("ID"), "n", X("q"), "v", R("type"), "t"), 3), append(use("3"), E(X("leaf"), add(A(X("q"), "w", R("resource"), "x"), 4)), E(X("leaf"), add(nil, 4), Text("y")))...)
	mid := E(X("m"), add(A(R("ID"), "m"), 2), Text(" "), inner)
	switch kind {
	case 1:
		mid = E(X("m"), add(A(R("ID"), "m", R("parseType"), "Collection"), 2), inner, E(X("T"), A(R("about"), "c")))
	case 2:
		mid = E(X("m"), add(A(R("ID"), "m", R("parseType"), "Resource"), 2), append(use("2"), E(X("in"), nil, inner))...)
	}
	outer := desc(add(A(R("about"), "o"), 1), append(append(use("1"), mid), E(X("after"), A(R("resource"), "after")), E(X("after"), nil, Text("after")))...)
	return E(R("RDF"), add(nil, 0), outer, E(X("T"), A(R("about"), "end"), use("0")...))
}

func run(c *kit.C) {
	one := func(root *Elem, base string) bool {
		return c.CaseF(func() string { return base + " " + root.XML() }, func(t *kit.T) { Check(t, root, base) })
	}
	n := int64(0)
	bases := []string{"-", "http://c/x/y", "s/", "../t?k#f", "", "//h", "#f", "urn:x:y"}
	langs := []string{"-", "en", "fr-CA", ""}
	dims := []int{5, 5, 5, 5, 5}
	if c.Thorough() {
		dims = []int{8, 8, 8, 8, 8}
	}
	for _, base := range []string{"http://a/b/c", "http://a/b/c?q#frag", "http://a"} {
		for kind := 0; kind < 3; kind++ {
			kit.Product(dims, func(i []int) bool {
				v := [5]string{bases[i[0]], bases[i[1]], bases[i[2]], bases[i[3]], bases[i[4]]}
				n++
				return one(nest(L("base"), v, kind), base) && !c.Stop()
			})
		}
	}
	c.Part("xml:base at five nested elements", n)
	n = 0
	for kind := 0; kind < 3; kind++ {
		kit.Product([]int{4, 4, 4, 4, 4}, func(i []int) bool {
			v := [5]string{langs[i[0]], langs[i[1]], langs[i[2]], langs[i[3]], langs[i[4]]}
			n++
			return one(nest(L("lang"), v, kind), Base) && !c.Stop()
		})
	}
	c.Part("xml:lang at five nested elements", n)

	// both, in either order
	n = 0
	type both struct{ base, lang string }
	opts := []both{{"-", "-"}, {"http://c/x/y", "-"}, {"-", "en"}, {"s/", "fr-CA"}, {"../t", ""}}
	for kind := 0; kind < 3; kind++ {
		for order := 0; order < 2; order++ {
			kit.Product([]int{5, 5, 5, 5, 5}, func(i []int) bool {
				n++
				return one(nests(func(as []Attr, k int) []Attr {
					o := opts[i[k]]
					if order == 0 {
						return with(with(as, L("base"), o.base), L("lang"), o.lang)
					}
					return append(append([]Attr(nil), as...), with(with(nil, L("lang"), o.lang), L("base"), o.base)...)
				}, kind), Base) && !c.Stop()
			})
		}
	}
	c.Part("xml:base and xml:lang at five nested elements", n)

	// rdf:ID
	n = 0
	idbases := []string{"-", "http://c/", "#f", "http://c/#f"}
	type use struct{ id, kind, base int }
	var uses []use
	for id := 0; id < 2; id++ {
		for k := 0; k < 4; k++ {
			for b := range idbases {
				uses = append(uses, use{id, k, b})
			}
		}
	}
	for l := 1; l <= c.Pick(3, 4); l++ {
		kit.Seqs(len(uses), l, func(idx []int) bool {
			for wrap := 0; wrap < 2; wrap++ {
				var kids []Node
				for _, i := range idx {
					u := uses[i]
					id := A(R("ID"), string(rune('a'+u.id)))
					b := func(as []Attr) []Attr { return with(as, L("base"), idbases[u.base]) }
					switch u.kind {
					case 0:
						kids = append(kids, E(X("T"), b(id)))
					case 1:
						kids = append(kids, desc(nil, E(X("p"), b(id), Text("v"))))
					case 2:
						kids = append(kids, desc(b(nil), E(X("p"), A(R("resource"), "x", R("ID"), string(rune('a'+u.id))))))
					case 3:
						kids = append(kids, desc(nil, E(X("p"), b(A(R("ID"), string(rune('a'+u.id)), R("parseType"), "Collection")), E(X("T"), nil))))
					}
				}
				root := E(R("RDF"), nil, kids...)
				if wrap == 1 { // each inside the one before
					if l == 1 {
						break
					}
					var chain *Elem
					for i := len(kids) - 1; i >= 0; i-- {
						k := kids[i].(*Elem)
						cp := &Elem{Name: k.Name, Attrs: k.Attrs, Kids: append([]Node(nil), k.Kids...)}
						if chain != nil {
							cp.Kids = append(cp.Kids, E(X("in"), nil, chain))
						}
						chain = cp
					}
					root = E(R("RDF"), nil, chain)
				}
				n++
				if !one(root, "http://a/b") {
					return false
				}
			}
			return !c.Stop()
		})
	}
	c.Part("sequences of rdf:ID", n)

	// blank nodes
	n = 0
	var kinds []Node
	for _, id := range []string{"a", "gen-1", "gen-2", "gen-3-cons-0", "gen-1-first-in-seq", "a.", "node-gen-1", "gen-node-gen-1-"} {
		kinds = append(kinds, E(X("T"), A(R("nodeID"), id)), desc(nil, E(X("p"), A(R("nodeID"), id))))
	}
	kinds = append(kinds, E(X("T"), nil), desc(nil, E(X("p"), A(R("parseType"), "Resource"), E(X("q"), nil, Text("v")))), desc(A(R("about"), "x"), E(X("p"), A(X("q"), "w"))),
		desc(A(R("about"), "y"), E(X("p"), A(R("parseType"), "Collection"), E(X("T"), nil), E(X("T"), A(R("nodeID"), "a")))))
	for l := 1; l <= c.Pick(3, 4); l++ {
		kit.Seqs(len(kinds), l, func(idx []int) bool {
			var kids []Node
			for _, i := range idx {
				kids = append(kids, kinds[i])
			}
			n++
			return one(E(R("RDF"), nil, kids...), Base) && !c.Stop()
		})
	}
	c.Part("sequences of blank nodes", n)

	// names
	n = 0
	name := func(id string) bool {
		n++
		return one(E(R("RDF"), nil, E(X("T"), A(R("nodeID"), id)), E(X("S"), nil, E(X("p"), A(R("nodeID"), id)), E(X("p"), nil, Text("v")))), Base) &&
			one(E(R("RDF"), nil, E(X("T"), A(R("ID"), id))), Base) && one(desc(nil, E(X("p"), A(R("ID"), id), Text("v"))), Base)
	}
	kit.Strings([]string{"a", "_", "-", ".", "0", ":", "\u00b7", "é", " ", "Z"}, c.Pick(3, 4), func(p []string) bool {
		s := ""
		for _, x := range p {
			s += x
		}
		return name(s) && !c.Stop()
	})
	for r := rune(0x20); r <= 0x10FFFF && !c.Stop(); r++ {
		if r == 0xD800 {
			r = 0xE000
		}
		if r == 0xFFFE || r == 0xFFFF {
			continue // no XML characters
		}
		if r > 0x3100 && !c.Thorough() && !edge(r) {
			continue
		}
		name(string(r))
		name("a" + string(r))
	}
	c.Part("names of nodes and IDs", 3*n)
	// many and long names, deep nesting
	n = 0
	for _, k := range sizes(c.Pick(300, 1030)) {
		var named, ids, mixed []Node
		for i := 0; i < k; i++ {
			named = append(named, E(X("T"), A(R("nodeID"), fmt.Sprint("gen-", (i+1)/2)), E(X("p"), nil, E(X("U"), nil, E(X("v"), nil, Text(fmt.Sprint(i)))))))
			ids = append(ids, E(X("T"), A(R("ID"), fmt.Sprint("i", i)), E(X("p"), A(R("ID"), fmt.Sprint("j", i)), Text("v"))))
			switch i % 4 {
			case 0:
				mixed = append(mixed, E(X("T"), nil, E(X("p"), nil, Text(fmt.Sprint(i)))))
			case 1:
				mixed = append(mixed, desc(A(R("about"), fmt.Sprint(i)), E(X("p"), A(X("q"), "w"))))
			case 2:
				mixed = append(mixed, desc(A(R("nodeID"), fmt.Sprint("gen-", k-i)), E(X("p"), A(R("parseType"), "Resource"), E(X("q"), nil, Text(fmt.Sprint(i))))))
			case 3:
				mixed = append(mixed, desc(A(R("about"), fmt.Sprint(i)), E(X("p"), A(R("parseType"), "Collection"), E(X("T"), nil), desc(A(R("nodeID"), fmt.Sprint("gen-", i))))))
			}
		}
		again := func(i int) []Node {
			return append(append([]Node(nil), ids...), E(X("T"), A(R("ID"), fmt.Sprint("i", i))))
		}
		other := func(i int) []Node {
			return append(append([]Node(nil), ids...), E(X("T"), A(R("ID"), fmt.Sprint("i", i), L("base"), "http://c/")))
		}
		long := strings.Repeat("n", k)
		for _, kids := range [][]Node{named, mixed, ids, again(0), again(k - 1), again(k / 2), other(0), other(k - 1),
			{E(X("T"), A(R("nodeID"), long)), E(X("T"), A(R("nodeID"), long+"n")), E(X("T"), A(R("nodeID"), "n"+long)), E(X("S"), nil, E(X("p"), A(R("nodeID"), long)))},
			{E(X("T"), A(R("ID"), long)), E(X("T"), A(R("ID"), long+"n"))}, {E(X("T"), A(R("ID"), long)), E(X("T"), A(R("ID"), long))},
			{desc(A(R("about"), long, L("lang"), "en-"+long), E(X("p"), nil, Text("v")), E(X("p"), A(L("base"), "http://"+long+"/"+long, R("resource"), "../"+long)))}} {
			n++
			one(E(R("RDF"), nil, kids...), Base)
		}
		for style := 0; style < 4; style++ {
			kid := E(X("p"), A(R("resource"), "z"))
			text := E(X("p"), nil, Text("z"))
			for i := k; i > 0; i-- {
				var as []Attr
				if style&1 == 0 || i%3 == 0 {
					as = append(as, Attr{L("base"), fmt.Sprintf("d%d/", i)})
				}
				if style&2 == 0 || i%5 == 0 {
					as = append(as, Attr{L("lang"), []string{"en", "fr", "", "de"}[i%4]})
				}
				if i%2 == 0 {
					kid = E(X("p"), as, E(X("T"), nil, kid, text, E(X("r"), A(R("resource"), fmt.Sprint(i)))))
				} else {
					kid = E(X("p"), nil, E(X("T"), as, kid, text, E(X("r"), A(R("resource"), fmt.Sprint(i)))))
				}
			}
			n++
			one(E(R("RDF"), nil, desc(about, kid, text)), Base)
		}
		if c.Stop() {
			break
		}
	}
	c.Part("many and long names, deep nesting", n)

	// documents without a URL
	n = 0
	for _, as := range [][]Attr{A(R("about"), "http://o/x"), A(R("nodeID"), "n"), nil, A(R("about"), "http://o/x", R("type"), "urn:t"), A(R("about"), "x/y", L("base"), "http://c/d/e"), A(R("ID"), "i", L("base"), "http://c/d/e")} {
		for _, kids := range [][]Node{nil, {E(X("p"), A(R("resource"), "http://o/r"))}, {E(X("p"), A(R("datatype"), "http://o/r"), Text("v"))}, {E(X("p"), A(R("ID"), "j", L("base"), "http://d/"), Text("v"))}} {
			n++
			one(E(X("T"), as, kids...), "")
		}
	}
	c.Part("documents without a URL", n)
}

// sizes are those up to 10 and around the powers of two and ten up to max.
func sizes(max int) (out []int) {
	for k := 1; k <= max; k++ {
		for _, p := range []int{8, 10, 16, 32, 64, 100, 128, 256, 300, 512, 1000, 1024} {
			if k <= 10 || k >= p-1 && k <= p+1 {
				out = append(out, k)
				break
			}
		}
	}
	return
}

// edge says if the character is near the end of a range of name characters.
func edge(r rune) bool {
	for _, x := range []rune{0x3000, 0x3001, 0xD7FF, 0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF, 0xF0000, 0x10FFFF} {
		if r >= x-2 && r <= x+2 {
			return true
		}
	}
	return false
}
