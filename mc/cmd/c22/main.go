// C22: every RDF triple prints as an N-Triples line that reads back as the same triple, and only equal triples print equal.
package main

import (
	"fmt"
	"strings"

	"github.com/google/xtoproto/rdf/ntriples"
	"verif/mc/kit"
	"verif/mc/ntref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C22", Level: "model_checking",
		Rule:  "every triple of subjects, predicates and objects from lists of IRIs, blank nodes and literals; every string up to a length over an alphabet of characters that need care as a plain, typed and tagged literal; every Unicode character in a literal, an IRI and each place of a blank node label; every language tag up to a length; terms of up to thousands of repeated parts: built with the constructors, printed, read by the reference reader and by the package, and compared part by part; every pair of terms for equality. Non-trivial: the object is a literal or a label has two characters",
		Procs: 8,
	}, run)
}

func iri(s string) ntref.Term { return ntref.Term{Kind: "iri", Value: s} }
func bn(s string) ntref.Term  { return ntref.Term{Kind: "bnode", Value: s} }
func lit(s string) ntref.Term { return ntref.Term{Kind: "lit", Value: s, Datatype: ntref.XSDString} }
func typed(s, d string) ntref.Term {
	return ntref.Term{Kind: "lit", Value: s, Datatype: d}
}
func tagged(s, l string) ntref.Term {
	return ntref.Term{Kind: "lit", Value: s, Datatype: ntref.LangString, Lang: l}
}

// simpler spelling of a plain literal may be printed either way
func check(t *kit.T, want ntref.Triple) {
	tr := ntref.Make(want)
	if got := ntref.Of(tr); got != want {
		t.Failf("built %+v, the parts are %+v", want, got)
		return
	}
	line := tr.String()
	if strings.ContainsAny(line, "\n\r") {
		t.Failf("%+v prints on several lines: %q", want, line)
		return
	}
	if k, rt, _ := ntref.Line(line); k != "triple" || rt != want {
		t.Failf("%+v prints as %q, which is %s %+v", want, line, k, rt)
		return
	}
	got, cm, err := ntriples.ParseLine(line)
	if err != nil || cm != nil || got == nil {
		t.Failf("%q does not read back: %v %v %v", line, got, cm, err)
		return
	}
	if g := ntref.Of(got); g != want {
		t.Failf("%q reads back as %+v, want %+v", line, g, want)
		return
	}
	if !ntriples.TriplesEqual(tr, got) || !ntriples.TriplesEqual(got, tr) {
		t.Failf("%q read back is not equal to the triple printed", line)
	}
	if again := got.String(); again != line {
		t.Failf("%q read back prints as %q", line, again)
	}
	if want.O.Kind == "lit" {
		l := ntriples.LiteralString(tr.Object().Literal())
		if !strings.Contains(line, l) {
			t.Failf("LiteralString %q is not in %q", l, line)
		}
		pl, rest, err := ntriples.ParseLiteral(l + " tail")
		if err != nil || rest != " tail" || ntref.OfLiteral(pl) != want.O {
			t.Failf("ParseLiteral(%q) = %v, %q, %v", l+" tail", pl, rest, err)
		}
	}
	if n := ntriples.NewObjectFromSubject(tr.Subject()); ntref.OfObject(n) != want.S {
		t.Failf("object from subject %+v is %+v", want.S, ntref.OfObject(n))
	}
}

func run(c *kit.C) {
	s, p := iri("http://a/s"), iri("p:q")
	strs := []string{"", "x", " ", `"`, `\`, "\n", "\r", "\t", `\n`, `\u0041`, "é", "😀", "a b", `"@en`, `"^^<x>`, "#", ".", "\x00", "\x7f", "\u0085", "\u2028"}
	iris := []string{"http://a/b", "http://a/b#c", "urn:x", "é:/é?q", "r", "#f", "http://a/%20", "http://a/b>c"[:10], ntref.XSDString, ntref.LangString}
	labels := []string{"a", "0", "_", ":", "a.b", "a-b", "a..b", "-"[:0] + "x·", "é", "gen-1", "A1"}
	tags := []string{"en", "en-US", "EN", "de-AT-1996", "x-y-z-1"}
	var subj, obj []ntref.Term
	for _, i := range iris {
		subj = append(subj, iri(i))
	}
	for _, l := range labels {
		subj = append(subj, bn(l))
	}
	obj = append(obj, subj...)
	for _, v := range strs {
		obj = append(obj, lit(v), typed(v, "http://a/b"), tagged(v, "en-US"))
	}
	for _, i := range iris {
		if i != ntref.LangString {
			obj = append(obj, typed("v", i))
		}
	}
	for _, l := range tags {
		obj = append(obj, tagged("v", l))
	}
	one := func(tr ntref.Triple) {
		c.CaseF(func() string { return fmt.Sprintf("%q", tr) }, func(t *kit.T) {
			if tr.O.Kind != "lit" && len(tr.S.Value) < 2 {
				t.Trivial()
			}
			t.Outcome(tr.S.Kind + " " + tr.O.Kind)
			check(t, tr)
		})
	}
	for _, a := range subj {
		for _, i := range iris {
			for _, o := range obj {
				one(ntref.Triple{S: a, P: iri(i), O: o})
			}
		}
	}
	// equality: only identical terms are equal, and each prints in its own way
	for i, a := range obj {
		c.CaseF(func() string { return fmt.Sprintf("equality with %q", a) }, func(t *kit.T) {
			for j, b := range obj {
				ta, tb := ntref.Make(ntref.Triple{S: s, P: p, O: a}), ntref.Make(ntref.Triple{S: s, P: p, O: b})
				want := a == b
				if ntriples.ObjectsEqual(ta.Object(), tb.Object()) != want || ntriples.TriplesEqual(ta, tb) != want || (ta.String() == tb.String()) != want {
					t.Failf("%q and %q (%d, %d): equal or printed equal is not %v", a, b, i, j, want)
				}
				if a.Kind == "lit" && b.Kind == "lit" && ntriples.LiteralsEqual(ta.Object().Literal(), tb.Object().Literal()) != want {
					t.Failf("%q and %q: literals equal is not %v", a, b, want)
				}
				if a.Kind != "lit" && b.Kind != "lit" {
					sa, sb := ntref.Make(ntref.Triple{S: a, P: p, O: s}), ntref.Make(ntref.Triple{S: b, P: p, O: s})
					if ntriples.SubjectsEqual(sa.Subject(), sb.Subject()) != want || ntriples.TriplesEqual(sa, sb) != want {
						t.Failf("subjects %q and %q: equal is not %v", a, b, want)
					}
				}
				if a.Kind == "iri" && b.Kind == "iri" {
					pa, pb := ntref.Make(ntref.Triple{S: s, P: a, O: s}), ntref.Make(ntref.Triple{S: s, P: b, O: s})
					if ntriples.TriplesEqual(pa, pb) != want || ntriples.IRIsEqual(pa.Predicate(), pb.Predicate()) != want {
						t.Failf("predicates %q and %q: equal is not %v", a, b, want)
					}
				}
				t.Transitions(1)
			}
		})
	}
	// triples that differ in any of their parts
	var ts []ntref.Triple
	ps := append([]string{"p:q"}, iris[:4]...)
	for _, a := range []ntref.Term{s, subj[1], subj[4], bn("a"), bn("a.b"), bn("A1")} {
		for _, i := range ps {
			for _, o := range []ntref.Term{s, iri(iris[1]), bn("a"), bn("x·"), lit(""), lit("x"), lit("http://a/s"), lit("a"), typed("x", ""), typed("", ""), typed("x", "http://a/b"), typed("x", "http://a/b#c"), tagged("x", "en"), tagged("x", "EN")} {
				ts = append(ts, ntref.Triple{S: a, P: iri(i), O: o})
			}
		}
	}
	for _, a := range ts {
		c.CaseF(func() string { return fmt.Sprintf("triples like and unlike %q", a) }, func(t *kit.T) {
			ta := ntref.Make(a)
			for _, b := range ts {
				tb := ntref.Make(b)
				want := a == b
				if ntriples.TriplesEqual(ta, tb) != want || (ta.String() == tb.String()) != want {
					t.Failf("%q and %q: equal is %v, printed equal is %v", a, b, ntriples.TriplesEqual(ta, tb), ta.String() == tb.String())
				}
				t.Transitions(1)
			}
			t.Outcome("pairs of triples")
		})
	}
	// literals
	chars := []string{`"`, `\`, "\n", "\r", "\t", "u", "n", "0041", " ", "é", "@en", "^^", "<", "#", "."}
	kit.Strings(chars, c.Pick(5, 6), func(parts []string) bool {
		v := strings.Join(parts, "")
		one(ntref.Triple{S: s, P: p, O: lit(v)})
		if len(parts) < 5 {
			one(ntref.Triple{S: s, P: p, O: typed(v, "d:t")})
			one(ntref.Triple{S: s, P: p, O: tagged(v, "en")})
		}
		return !c.Stop()
	})
	// blank node labels
	kit.Strings([]string{"a", "0", "_", ":", ".", "-", "·", "é", "\u203f", "\U000EFFFF"}, c.Pick(5, 6), func(parts []string) bool {
		v := strings.Join(parts, "")
		if k, tr, _ := ntref.Line("_:" + v + " <p> <o> ."); k == "triple" && tr.S.Value == v {
			one(ntref.Triple{S: bn(v), P: p, O: bn(v)})
		}
		return !c.Stop()
	})
	kit.Strings([]string{"a", "Z", "1", "-"}, c.Pick(8, 9), func(parts []string) bool {
		v := strings.Join(parts, "")
		if k, tr, _ := ntref.Line(`<s> <p> ""@` + v + " ."); k == "triple" && tr.O.Lang == v {
			one(ntref.Triple{S: s, P: p, O: tagged("é", v)})
		}
		return !c.Stop()
	})
	// long terms
	lens := []int{15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097}
	if c.Thorough() {
		lens = append(lens, 8192, 65535, 65536, 65537)
	}
	for _, n := range lens {
		for _, x := range []string{"a", "\n", `\`, `"`, "é", "日", "😀", "a\r", `\u`, " "} {
			r := strings.Repeat(x, n)
			for _, v := range []string{r, "y" + r, r + `"`, r + "\n", r + "é", "\t" + r + "z"} {
				one(ntref.Triple{S: s, P: p, O: lit(v)})
			}
			one(ntref.Triple{S: s, P: p, O: typed(r, "d:t")})
			one(ntref.Triple{S: s, P: p, O: tagged(r, "en-"+strings.Repeat("a", n))})
		}
		for _, x := range []string{"a", "/b", "%20", "é", "😀", "?", "#"} {
			v := "http://h/" + strings.Repeat(x, n)
			one(ntref.Triple{S: iri(v), P: iri(v + "p"), O: iri(v + "é")})
			one(ntref.Triple{S: iri(v + "é"), P: iri(v), O: typed("x", v+"a")})
		}
		for _, x := range []string{"a", "é", ".b", "-", "0"} {
			v := "x" + strings.Repeat(x, n)
			one(ntref.Triple{S: bn(v), P: p, O: bn(v + "é")})
		}
		if c.Stop() {
			return
		}
	}
	// every character
	for r := rune(0); r <= 0x10FFFF; r += 64 {
		c.CaseF(func() string { return fmt.Sprintf("characters from U+%04X", r) }, func(t *kit.T) {
			for x := r; x < r+64; x++ {
				if x >= 0xD800 && x < 0xE000 {
					continue
				}
				check(t, ntref.Triple{S: s, P: p, O: lit("a" + string(x))})
				any, first := ntref.LabelChar(x)
				if first {
					check(t, ntref.Triple{S: bn(string(x)), P: p, O: bn(string(x) + "a")})
				}
				if any {
					check(t, ntref.Triple{S: bn("a" + string(x)), P: p, O: bn("a" + string(x) + "a")})
				}
				if x > 0x20 && !strings.ContainsRune("<>\"{}|^`\\", x) {
					v := "http://a/" + string(x)
					check(t, ntref.Triple{S: iri(v), P: iri(v), O: typed("x", v)})
				}
				t.Transitions(1)
			}
		})
		if c.Stop() {
			return
		}
	}
}
