// Package rdfref is the reference translation of RDF/XML element trees into graphs, written from the W3C
// recommendation (RDF 1.1 XML Syntax, sections 5 to 7), and the comparison of graphs up to blank node names.
package rdfref

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/iriref"
	"verif/mc/ntref"
)

const (
	RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	XML = "http://www.w3.org/XML/1998/namespace"
	EX  = "http://ex.org/n#"
	EX2 = "urn:v:"
)

// Name is an expanded name.
type Name struct{ NS, Local string }

// Attr is an attribute.
type Attr struct {
	Name
	Value string
}

// Node is *Elem, Text, Comment or PI.
type Node interface{}

// Elem is an element.
type Elem struct {
	Name  Name
	Attrs []Attr
	Kids  []Node
}

type (
	Text    string
	Comment string
	PI      string
)

var prefixes = map[string]string{RDF: "rdf", XML: "xml", EX: "e", EX2: "f", "xmlns": "xmlns"}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(s)
}

func (n Name) String() string {
	if n.NS == "" {
		return n.Local
	}
	return prefixes[n.NS] + ":" + n.Local
}

// Write prints the element; decl adds the namespace declarations.
func (e *Elem) write(b *strings.Builder, decl bool) {
	b.WriteString("<" + e.Name.String())
	if decl {
		fmt.Fprintf(b, ` xmlns:rdf="%s" xmlns:e="%s" xmlns:f="%s"`, RDF, EX, EX2)
	}
	for _, a := range e.Attrs {
		fmt.Fprintf(b, ` %s="%s"`, a.Name, esc(a.Value))
	}
	if len(e.Kids) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range e.Kids {
		switch k := k.(type) {
		case *Elem:
			k.write(b, false)
		case Text:
			b.WriteString(esc(string(k)))
		case Comment:
			b.WriteString("<!--" + string(k) + "-->")
		case PI:
			b.WriteString("<?" + string(k) + "?>")
		}
	}
	b.WriteString("</" + e.Name.String() + ">")
}

// XML prints the document with the element as its root.
func (e *Elem) XML() string {
	b := &strings.Builder{}
	e.write(b, true)
	return b.String()
}

// Spellings is the number of other spellings that Spell knows.
const Spellings = 4

// Spell prints the document of the element in another way:
//
//	0: every element declares its own namespace as the default one,
//	1: the usual prefixes stand for each other's namespaces,
//	2: every element declares all its prefixes anew, under names of its depth, and undoes the default namespace,
//	3: with an XML declaration, a document type, CDATA sections, single quotes, character references and blanks in tags.
func (e *Elem) Spell(style int) string {
	b := &strings.Builder{}
	if style == 3 {
		b.WriteString("<?xml version=\"1.0\" encoding='UTF-8' ?>\n<!DOCTYPE any [<!ELEMENT a (b)>]><!-- a > b --><?p i?>\n")
	}
	e.spell(b, style, 0, "")
	if style == 3 {
		b.WriteString("\n<!-- c --> <?p i?>\n")
	}
	return b.String()
}

func (e *Elem) spell(b *strings.Builder, style, depth int, dflt string) {
	type decl struct{ prefix, ns string }
	var decls []decl
	pre := map[string]string{XML: "xml", "xmlns": "xmlns"}
	name := ""
	switch style {
	case 0:
		pre[RDF], pre[EX], pre[EX2] = "r", "x", "y"
		name = e.Name.Local
		if e.Name.NS != dflt || depth == 0 && dflt != "" {
			decls = append(decls, decl{"", e.Name.NS})
			dflt = e.Name.NS
		}
	case 1:
		pre[RDF], pre[EX], pre[EX2] = "e", "f", "rdf"
		if depth == 0 {
			for _, ns := range []string{RDF, EX, EX2} {
				decls = append(decls, decl{pre[ns], ns})
			}
		}
	case 2:
		for _, ns := range []string{RDF, EX, EX2} {
			pre[ns] = fmt.Sprintf("n%d.%d", depth%3, len(ns)%7)
			decls = append(decls, decl{pre[ns], ns})
		}
		if depth%2 == 0 && e.Name.NS != "" {
			decls = append(decls, decl{"", EX})
			dflt = EX
		} else if dflt != "" {
			decls = append(decls, decl{"", ""})
			dflt = ""
		}
	case 3:
		pre[RDF], pre[EX], pre[EX2] = "rdf", "e", "f"
		if depth == 0 {
			for _, ns := range []string{EX2, EX, RDF} {
				decls = append(decls, decl{pre[ns], ns})
			}
		}
	}
	if style == 0 {
		used := map[string]bool{}
		for _, a := range e.Attrs {
			if p := pre[a.NS]; a.NS != "" && a.NS != XML && a.NS != "xmlns" && !used[p] {
				used[p] = true
				decls = append(decls, decl{p, a.NS})
			}
		}
	}
	qual := func(n Name) string {
		if n.NS == "" {
			return n.Local
		}
		return pre[n.NS] + ":" + n.Local
	}
	if style != 0 {
		name = qual(e.Name)
	}
	quote := func(s string) string {
		if style != 3 {
			return "\"" + esc(s) + "\""
		}
		var q strings.Builder
		for i, r := range strings.NewReplacer("&", "\x00", "<", "\x01", "\n", "\x02", "\t", "\x03", "\r", "\x04").Replace(s) {
			switch {
			case r < 5:
				fmt.Fprintf(&q, "&#x%X;", "&<\n\t\r"[r])
			case r == '\'':
				q.WriteString("&apos;")
			case i%2 == 0:
				fmt.Fprintf(&q, "&#%d;", r)
			default:
				q.WriteRune(r)
			}
		}
		return "'" + q.String() + "'"
	}
	b.WriteString("<" + name)
	gap, eq := " ", "="
	if style == 3 {
		gap, eq = "\n\t", " = "
	}
	for _, a := range e.Attrs[:len(e.Attrs)/2] {
		b.WriteString(gap + qual(a.Name) + eq + quote(a.Value))
	}
	for _, d := range decls {
		n := "xmlns"
		if d.prefix != "" {
			n = "xmlns:" + d.prefix
		}
		b.WriteString(gap + n + eq + quote(d.ns))
	}
	for _, a := range e.Attrs[len(e.Attrs)/2:] {
		b.WriteString(gap + qual(a.Name) + eq + quote(a.Value))
	}
	if len(e.Kids) == 0 && style%2 == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range e.Kids {
		switch k := k.(type) {
		case *Elem:
			k.spell(b, style, depth+1, dflt)
		case Text:
			if style == 3 && !strings.Contains(string(k), "]]>") && !strings.Contains(string(k), "\r") && k != "" {
				b.WriteString("<![CDATA[" + string(k) + "]]>")
			} else {
				b.WriteString(esc(string(k)))
			}
		case Comment:
			b.WriteString("<!--" + string(k) + "-->")
		case PI:
			b.WriteString("<?" + string(k) + "?>")
		}
	}
	b.WriteString("</" + name)
	if style == 3 {
		b.WriteString(" ")
	}
	b.WriteString(">")
}

type scope struct{ base, lang string }

type state struct {
	ids map[string]bool
	n   int
	out []ntref.Triple
}

type refused struct{ why string }

func refuse(f string, a ...interface{}) { panic(refused{fmt.Sprintf(f, a...)}) }

var core = map[string]bool{"RDF": true, "ID": true, "about": true, "parseType": true, "resource": true, "nodeID": true, "datatype": true}
var old = map[string]bool{"aboutEach": true, "aboutEachPrefix": true, "bagID": true}

func rdf(n Name, local string) bool { return n.NS == RDF && n.Local == local }

func nodeName(n Name) {
	if n.NS == "" || n.NS == RDF && (core[n.Local] || old[n.Local] || n.Local == "li") {
		refuse("%s is no node element", n)
	}
}

func propName(n Name) {
	if n.NS == "" || n.NS == RDF && (core[n.Local] || old[n.Local] || n.Local == "Description") {
		refuse("%s is no property element", n)
	}
}

// attrs gives the scope inside the element and its attributes as RDF sees them.
func attrs(e *Elem, sc scope) (scope, []Attr) {
	var out []Attr
	in := sc
	for _, a := range e.Attrs {
		switch {
		case a.NS == XML && a.Local == "lang":
			in.lang = a.Value
		case a.NS == XML && a.Local == "base":
			r := ref(a.Value, sc)
			if i := strings.IndexByte(r, '#'); i >= 0 {
				r = r[:i]
			}
			in.base = r
		case a.NS == XML || a.NS == "xmlns":
		case a.NS == "" && len(a.Local) >= 3 && strings.EqualFold(a.Local[:3], "xml"):
		case a.NS == "":
			switch a.Local {
			case "ID", "about", "resource", "parseType", "type":
				out = append(out, Attr{Name{RDF, a.Local}, a.Value})
			default:
				refuse("attribute %s has no namespace", a.Local)
			}
		default:
			out = append(out, a)
		}
	}
	return in, out
}

func ref(v string, sc scope) string {
	if ok, _ := iriref.Valid(v); !ok {
		refuse("%q is no IRI reference", v)
	}
	if v == "" {
		return sc.base
	}
	return iriref.Normalize(iriref.Resolve(iriref.Split(sc.base), iriref.Split(v)).Join())
}

func propAttr(a Attr) bool {
	return !(a.NS == RDF && (core[a.Local] || old[a.Local] || a.Local == "Description" || a.Local == "li"))
}

// NCName says if s is an XML name without colon.
func NCName(s string) bool {
	for i, c := range s {
		if !nameChar(c, i == 0) {
			return false
		}
	}
	return s != ""
}

func nameChar(c rune, first bool) bool {
	in := func(r ...rune) bool {
		for i := 0; i < len(r); i += 2 {
			if c >= r[i] && c <= r[i+1] {
				return true
			}
		}
		return false
	}
	if in('A', 'Z', 'a', 'z', '_', '_', 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x1FFF, 0x200C, 0x200D, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF) {
		return true
	}
	return !first && in('-', '-', '.', '.', '0', '9', 0xB7, 0xB7, 0x300, 0x36F, 0x203F, 0x2040)
}

func iri(s string) ntref.Term  { return ntref.Term{Kind: "iri", Value: s} }
func term(s string) ntref.Term { return iri(RDF + s) }

func (s *state) fresh() ntref.Term {
	s.n++
	return ntref.Term{Kind: "bnode", Value: fmt.Sprintf("g%d", s.n)}
}

func named(id string) ntref.Term {
	if !NCName(id) {
		refuse("%q is no blank node name", id)
	}
	return ntref.Term{Kind: "bnode", Value: "u" + id}
}

func (s *state) id(v string, sc scope) ntref.Term {
	if !NCName(v) {
		refuse("%q is no rdf:ID", v)
	}
	i := ref("#"+v, sc)
	if s.ids[i] {
		refuse("%q is given twice as rdf:ID", v)
	}
	s.ids[i] = true
	return iri(i)
}

func (s *state) add(a, p, o ntref.Term) { s.out = append(s.out, ntref.Triple{S: a, P: p, O: o}) }

func literal(v string, sc scope) ntref.Term {
	if sc.lang == "" {
		return ntref.Term{Kind: "lit", Value: v, Datatype: ntref.XSDString}
	}
	return ntref.Term{Kind: "lit", Value: v, Datatype: ntref.LangString, Lang: sc.lang}
}

func uri(n Name) ntref.Term { return iri(n.NS + n.Local) }

func (s *state) node(e *Elem, outer scope) ntref.Term {
	nodeName(e.Name)
	sc, as := attrs(e, outer)
	var subj *ntref.Term
	set := func(t ntref.Term) {
		if subj != nil {
			refuse("two subjects")
		}
		subj = &t
	}
	for _, a := range as {
		switch {
		case rdf(a.Name, "about"):
			set(iri(ref(a.Value, sc)))
		case rdf(a.Name, "ID"):
			set(s.id(a.Value, sc))
		case rdf(a.Name, "nodeID"):
			set(named(a.Value))
		case !propAttr(a):
			refuse("attribute %s of a node element", a.Name)
		}
	}
	if subj == nil {
		t := s.fresh()
		subj = &t
	}
	if !rdf(e.Name, "Description") {
		s.add(*subj, term("type"), uri(e.Name))
	}
	s.propAttrs(*subj, as, sc)
	s.props(*subj, e.Kids, sc)
	return *subj
}

func (s *state) propAttrs(subj ntref.Term, as []Attr, sc scope) {
	for _, a := range as {
		switch {
		case !propAttr(a):
		case rdf(a.Name, "type"):
			s.add(subj, term("type"), iri(ref(a.Value, sc)))
		default:
			s.add(subj, uri(a.Name), literal(a.Value, sc))
		}
	}
}

func blank(t Text) bool { return strings.Trim(string(t), " \t\r\n") == "" }

func (s *state) props(subj ntref.Term, kids []Node, sc scope) {
	li := 1
	for _, k := range kids {
		switch k := k.(type) {
		case Text:
			if !blank(k) {
				refuse("text between property elements")
			}
		case *Elem:
			s.prop(subj, k, sc, &li)
		}
	}
}

func (s *state) prop(subj ntref.Term, e *Elem, outer scope, li *int) {
	propName(e.Name)
	sc, as := attrs(e, outer)
	p := uri(e.Name)
	if rdf(e.Name, "li") {
		p = term(fmt.Sprintf("_%d", *li))
		*li++
	}
	get := map[string]*Attr{}
	others := 0
	for i, a := range as {
		if a.NS == RDF && (core[a.Local]) {
			if get[a.Local] != nil {
				refuse("two %s", a.Local)
			}
			get[a.Local] = &as[i]
			continue
		}
		if !propAttr(a) {
			refuse("attribute %s of a property element", a.Name)
		}
		others++
	}
	only := func(names ...string) {
		n := 0
		for _, x := range names {
			if get[x] != nil {
				n++
			}
		}
		if n != len(get) || others > 0 {
			refuse("attributes do not fit")
		}
	}
	emit := func(o ntref.Term) {
		s.add(subj, p, o)
		if a := get["ID"]; a != nil {
			r := s.id(a.Value, sc)
			s.add(r, term("subject"), subj)
			s.add(r, term("predicate"), p)
			s.add(r, term("object"), o)
			s.add(r, term("type"), term("Statement"))
		}
	}
	if pt := get["parseType"]; pt != nil {
		only("ID", "parseType")
		switch pt.Value {
		case "Resource":
			n := s.fresh()
			emit(n)
			s.props(n, e.Kids, sc)
		case "Collection":
			var items []ntref.Term
			for _, k := range e.Kids {
				switch k := k.(type) {
				case Text:
					if !blank(k) {
						refuse("text in a collection")
					}
				case *Elem:
					items = append(items, s.node(k, sc))
				}
			}
			list := term("nil")
			for i := len(items) - 1; i >= 0; i-- {
				c := s.fresh()
				s.add(c, term("first"), items[i])
				s.add(c, term("rest"), list)
				list = c
			}
			emit(list)
		default:
			emit(ntref.Term{Kind: "lit", Value: Canon(e.Kids), Datatype: RDF + "XMLLiteral"})
		}
		return
	}
	var child *Elem
	text, hasText := "", false
	for _, k := range e.Kids {
		switch k := k.(type) {
		case Text:
			text += string(k)
			hasText = hasText || k != ""
		case *Elem:
			if child != nil {
				refuse("two node elements in a property")
			}
			child = k
		}
	}
	switch {
	case child != nil:
		if !blank(Text(text)) {
			refuse("text beside a node element")
		}
		only("ID")
		emit(s.node(child, sc))
	case hasText:
		only("ID", "datatype")
		if d := get["datatype"]; d != nil {
			emit(ntref.Term{Kind: "lit", Value: text, Datatype: ref(d.Value, sc)})
		} else {
			emit(literal(text, sc))
		}
	default:
		n := 0
		for _, x := range []string{"resource", "nodeID", "datatype"} {
			if get[x] != nil {
				n++
			}
		}
		if n > 1 || get["about"] != nil {
			refuse("attributes do not fit an empty property")
		}
		if n == 0 && others == 0 {
			emit(literal("", sc))
			return
		}
		if get["datatype"] != nil {
			refuse("not specified") // rdf:datatype on an empty element
		}
		var r ntref.Term
		switch {
		case get["resource"] != nil:
			r = iri(ref(get["resource"].Value, sc))
		case get["nodeID"] != nil:
			r = named(get["nodeID"].Value)
		default:
			r = s.fresh()
		}
		emit(r)
		s.propAttrs(r, as, sc)
	}
}

// Graph translates the document with the given root and base.
func Graph(root *Elem, base string) (out []ntref.Triple, why string) {
	s := &state{ids: map[string]bool{}}
	defer func() {
		if p := recover(); p != nil {
			r, ok := p.(refused)
			if !ok {
				panic(p)
			}
			out, why = nil, r.why
		}
	}()
	if i := strings.IndexByte(base, '#'); i >= 0 {
		base = base[:i]
	}
	sc := scope{base: base}
	if !rdf(root.Name, "RDF") {
		s.node(root, sc)
		return s.out, ""
	}
	sc, as := attrs(root, sc)
	if len(as) > 0 {
		refuse("attributes of rdf:RDF")
	}
	for _, k := range root.Kids {
		switch k := k.(type) {
		case Text:
			if !blank(k) {
				refuse("text between node elements")
			}
		case *Elem:
			s.node(k, sc)
		}
	}
	return s.out, ""
}

// Canon is a canonical form of XML content: expanded names, sorted attributes, no namespace declarations, joined text.
func Canon(kids []Node) string {
	b := &strings.Builder{}
	for _, k := range kids {
		switch k := k.(type) {
		case Text:
			b.WriteString(esc(string(k)))
		case Comment:
			b.WriteString("<!--" + string(k) + "-->")
		case PI:
			b.WriteString("<?" + string(k) + "?>")
		case *Elem:
			fmt.Fprintf(b, "<{%s}%s", k.Name.NS, k.Name.Local)
			var as []string
			for _, a := range k.Attrs {
				if a.NS != "xmlns" && !(a.NS == "" && a.Local == "xmlns") {
					as = append(as, fmt.Sprintf(` {%s}%s="%s"`, a.NS, a.Local, esc(a.Value)))
				}
			}
			sort.Strings(as)
			b.WriteString(strings.Join(as, "") + ">" + Canon(k.Kids) + "</>")
		}
	}
	return b.String()
}
