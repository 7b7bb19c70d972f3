// C20: references resolve against a base exactly as RFC 3986 says.
package main

import (
	"fmt"
	"strings"

	"github.com/google/xtoproto/rdf/iri"
	"verif/mc/iriref"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C20", Level: "model_checking",
		Rule:        "every absolute base IRI made of a scheme, an authority, a path, a query and a fragment from lists of every shape (absent, empty, filled; dot segments, double slashes, rootless and opaque paths), with every valid reference up to a length over tokens (scheme, slashes, dots, segments, query, fragment, ports), and with long references of up to 300 segments; resolved on the real code and by a reference implementation of RFC 3986 section 5.2. Non-trivial: the reference is not absolute",
		Assumptions: []string{"the RFC examples of section 5.4 are part of the run, so a slip of the reference implementation shows"},
		Procs:       8,
	}, run)
}

func one(c *kit.C, base, ref string) {
	c.CaseF(func() string { return base + " + " + ref }, func(t *kit.T) {
		rr := iriref.Split(ref)
		want := iriref.Resolve(iriref.Split(base), rr)
		if ref == "" || want.Auth == nil && strings.HasPrefix(want.Path, "//") {
			t.Trivial()
			t.Outcome("not judged")
			iri.IRI(base).ResolveReference(iri.IRI(ref))
			return
		}
		if rr.Scheme != nil {
			t.Trivial()
			t.Outcome("absolute")
		} else {
			t.Outcome(fmt.Sprintf("authority %v path %v query %v fragment %v", rr.Auth != nil, rr.Path != "", rr.Query != nil, rr.Fragment != nil))
		}
		got := iri.IRI(base).ResolveReference(iri.IRI(ref))
		if string(got) != want.Join() {
			t.Failf("got %s, want %s", string(got), want.Join())
			return
		}
		if err := got.Check(); err != nil {
			t.Failf("the result is refused: %v", err)
		}
	})
}

func run(c *kit.C) {
	// RFC 3986 section 5.4
	for _, l := range strings.Split(strings.TrimSpace(examples), "\n") {
		f := strings.Fields(l)
		base := "http://a/b/c/d;p?q"
		want := iriref.Resolve(iriref.Split(base), iriref.Split(f[0])).Join()
		if want != f[1] {
			panic("reference implementation: " + f[0] + " gives " + want)
		}
		one(c, base, f[0])
	}
	auths := []string{"", "//", "//h", "//u@h:8", "//h:", "//@h", "//:8", "//u:p@[::1]:8", "//é"}
	paths := []string{"", "/", "/b", "/b/", "/b/c", "/b//c", "/b/c/d/", "b", "b/c", "b:c", "/./b", "/b/../c/.", ".", "..", "../b", "//"}
	queries := []string{"", "?", "?q/r"}
	frags := []string{"", "#", "#f/g"}
	var bases []string
	for _, sch := range []string{"s:", "http:"} {
		for _, a := range auths {
			for _, p := range paths {
				if a != "" && p != "" && p[0] != '/' || a == "" && strings.HasPrefix(p, "//") {
					continue
				}
				for _, q := range queries {
					for _, f := range frags {
						b := sch + a + p + q + f
						if ok, _ := iriref.Valid(b); !ok {
							panic(b)
						}
						bases = append(bases, b)
					}
				}
			}
		}
	}
	few := []string{"http://a/b/c/d;p?q", "s://u@h:8/b/c#f", "s:///b/c", "s://h", "urn:a:b", "s:/b/c?q", "s:", "s://h:/b//c/?q#f", "s:b/c/d"}
	seen := map[string]bool{}
	refs := func(tokens []string, n int, f func(ref string)) {
		kit.Strings(tokens, n, func(p []string) bool {
			r := strings.Join(p, "")
			if ok, _ := iriref.Valid(r); ok && !seen[r] {
				seen[r] = true
				f(r)
			}
			return !c.Stop()
		})
	}
	// every base with every short reference
	tokens := []string{"s:", "t:", "//", "/", ".", "..", "x", "h@", ":9", "?", "#", "y:z", "%C3%A9"}
	refs(tokens, c.Pick(3, 4), func(r string) {
		for _, b := range bases {
			one(c, b, r)
		}
	})
	// some bases with every longer reference
	refs(tokens, c.Pick(5, 6), func(r string) {
		for _, b := range few {
			one(c, b, r)
		}
	})
	// paths
	refs([]string{"/", ".", "..", "x", "?", "#"}, c.Pick(7, 8), func(r string) {
		for _, b := range few {
			one(c, b, r)
		}
	})
	// long bases and references: many segments and dots in every order of a few patterns, and long segments
	n := int64(0)
	segs := []string{"..", ".", "x", "", "x:y", "...", "..x", "%2e%2e"}
	var pats [][]string
	kit.Strings(segs, c.Pick(3, 4), func(p []string) bool {
		if len(p) > 0 {
			pats = append(pats, append([]string(nil), p...))
		}
		return true
	})
	for _, k := range []int{8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
		if !c.Thorough() && k > 17 && k%8 != 1 {
			continue
		}
		long := strings.Repeat("y", k)
		deep := "s://h/" + strings.Repeat("a/", k) + "b?q"
		for _, p := range pats {
			var r []string
			for i := 0; i < k; i++ {
				r = append(r, p[i%len(p)])
			}
			for _, pre := range []string{"", "/", "x/", "//h/", "../", "./", "t:/"} {
				ref := pre + strings.Join(r, "/")
				for _, end := range []string{"", "/", "/" + long, "?" + ref, "#" + ref[:k/2]} {
					if ok, _ := iriref.Valid(ref + end); !ok {
						continue
					}
					for _, b := range []string{deep, "s://h/b", "s:" + long + "/" + long + "/c", "urn:a:b"} {
						n++
						one(c, b, ref+end)
					}
				}
			}
		}
		for _, up := range []int{k - 2, k - 1, k, k + 1, k + 2} {
			for _, end := range []string{"", "g", "g/", ".", "..", "?z", "#z", long} {
				for _, b := range []string{deep, strings.Replace(deep, "?q", "/", 1), strings.Replace(deep, "s://h", "s:", 1)} {
					n++
					one(c, b, strings.Repeat("../", up)+end)
				}
			}
		}
		if c.Stop() {
			return
		}
	}
	c.Part("long bases and references", n)
}

const examples = `
g:h g:h
g http://a/b/c/g
./g http://a/b/c/g
g/ http://a/b/c/g/
/g http://a/g
//g http://g
?y http://a/b/c/d;p?y
g?y http://a/b/c/g?y
#s http://a/b/c/d;p?q#s
g#s http://a/b/c/g#s
g?y#s http://a/b/c/g?y#s
;x http://a/b/c/;x
g;x http://a/b/c/g;x
g;x?y#s http://a/b/c/g;x?y#s
. http://a/b/c/
./ http://a/b/c/
.. http://a/b/
../ http://a/b/
../g http://a/b/g
../.. http://a/
../../ http://a/
../../g http://a/g
../../../g http://a/g
../../../../g http://a/g
/./g http://a/g
/../g http://a/g
g. http://a/b/c/g.
.g http://a/b/c/.g
g.. http://a/b/c/g..
..g http://a/b/c/..g
./../g http://a/b/g
./g/. http://a/b/c/g/
g/./h http://a/b/c/g/h
g/../h http://a/b/c/h
g;x=1/./y http://a/b/c/g;x=1/y
g;x=1/../y http://a/b/c/y
g?y/./x http://a/b/c/g?y/./x
g?y/../x http://a/b/c/g?y/../x
g#s/./x http://a/b/c/g#s/./x
g#s/../x http://a/b/c/g#s/../x
http:g http:g
`
