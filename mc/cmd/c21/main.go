// C21: exactly the IRI references of RFC 3987 are accepted, and percent-encoding is normalized as it says.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/google/xtoproto/rdf/iri"
	"verif/mc/iriref"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C21", Level: "model_checking",
		Rule:  "every text up to a length over delimiters, letters, digits, escapes and characters of every class; every character of Unicode (and every single byte) in every component; every shape of IPv6 address and every decimal octet; every percent-encoded sequence of one and two octets and every boundary one of three and four, alone and in context; every piece repeated up to 300 times in every component with another one in it: accepted or not, and normalized, as a reference recognizer written from the RFC says. Non-trivial: the text is accepted",
		Procs: 8,
	}, run)
}

func check(t *kit.T, s string) {
	ok, free := iriref.Valid(s)
	got, err := iri.Parse(s)
	norm := iri.IRI(s).NormalizePercentEncoding()
	if free {
		t.Trivial()
		t.Outcome("not judged")
		return
	}
	if (err == nil) != ok {
		t.Failf("Parse(%q): error %v, want valid: %v", s, err != nil, ok)
		return
	}
	if e := iri.IRI(s).Check(); (e == nil) != ok {
		t.Failf("Check of %q: %v", s, e)
	}
	if want := iriref.Normalize(s); string(norm) != want && (ok || utf8.ValidString(s)) {
		t.Failf("normalized %q is %q, want %q", s, string(norm), want)
		return
	}
	if !ok {
		t.Trivial()
		t.Outcome("refused")
		if got != "" {
			t.Failf("refused %q gives %q", s, string(got))
		}
		return
	}
	t.Outcome("accepted")
	if string(got) != s {
		t.Failf("Parse(%q) = %q", s, string(got))
	}
	if got.String() != "<"+s+">" {
		t.Failf("%q prints as %s", s, got)
	}
	if n2 := norm.NormalizePercentEncoding(); n2 != norm {
		t.Failf("%q normalizes to %q and then to %q", s, string(norm), string(n2))
	}
	if _, err := iri.Parse(string(norm)); err != nil {
		t.Failf("%q normalizes to %q, which is refused: %v", s, string(norm), err)
	}
}

func run(c *kit.C) {
	one := func(s string) {
		c.CaseF(func() string { return fmt.Sprintf("%q", s) }, func(t *kit.T) { check(t, s) })
	}
	chars := []string{"a", "1", ":", "/", "?", "#", "@", "[", "]", "%41", "%", "é", "\ue000", " ", "\n", "."}
	kit.Strings(chars, c.Pick(5, 6), func(p []string) bool {
		one(strings.Join(p, ""))
		return !c.Stop()
	})
	tokens := []string{"http:", "//", "h", "u:p", "@", ":", "80", "[::1]", "/", "p", "..", "?", "q=1&", "#", "%C3%A9", "%ff", "\U000F0001", "-", "~"}
	kit.Strings(tokens, c.Pick(5, 6), func(p []string) bool {
		one(strings.Join(p, ""))
		return !c.Stop()
	})
	// every character in every component
	ctx := []string{"%s", "a%s:x", "s://u%s@h/p", "s://h%s/p", "s://h:%s/", "s://[v1.%s]/", "s:%s", "s:/p%s", "s:?%s", "s:#%s", "/%sx", "s:%%4%s", "s:%%%s1"}
	for r := rune(0); r <= 0x10FFFF+1; r += 64 {
		c.CaseF(func() string { return fmt.Sprintf("characters from U+%04X", r) }, func(t *kit.T) {
			for x := r; x < r+64 && x <= 0x10FFFF; x++ {
				if x >= 0xD800 && x < 0xE000 {
					continue
				}
				for _, f := range ctx {
					if x > 0x3000 && x&0xFFFF > 0x40 && x&0xFFFF < 0xD700 && f[0] != 's' {
						continue
					}
					if strings.HasPrefix(f, "s:%%") && x > 0x100 {
						continue
					}
					check(t, fmt.Sprintf(f, string(x)))
					t.Transitions(1)
				}
			}
		})
		if c.Stop() {
			return
		}
	}
	c.Case("single bytes", func(t *kit.T) {
		for b := 0; b < 256; b++ {
			for _, f := range ctx {
				check(t, fmt.Sprintf(f, string([]byte{byte(b)})))
				check(t, fmt.Sprintf(f, string([]byte{0xe2, byte(b)})))
			}
		}
	})
	// addresses
	for n := 1; n <= 10; n++ {
		for m := 0; m < 1<<n; m++ {
			for _, last := range []string{"", "1.2.3.4", "abcde", "0", "g"} {
				var g []string
				for i := 0; i < n; i++ {
					x := ""
					if m>>i&1 == 1 {
						x = []string{"1", "aF", "012", "ffff"}[i%4]
					}
					g = append(g, x)
				}
				if last != "" {
					g[n-1] = last
				}
				one("s://[" + strings.Join(g, ":") + "]:8/p")
				if n > 2 {
					g2 := append([]string{}, g...)
					g2[n/2] = "1.2.3.4"
					one("//[" + strings.Join(g2, ":") + "]")
				}
			}
		}
	}
	for i := 0; i <= 300; i++ {
		for _, f := range []string{"%d", "%03d", "0%d"} {
			x := fmt.Sprintf(f, i)
			for _, a := range []string{x + ".1.1.1", "1." + x + ".1.1", "1.1.1." + x} {
				one("//[::" + a + "]")
				one("//[1:2:3:4:5:6:" + a + "]")
				one("//" + a)
			}
		}
	}
	fut := []string{"v", "V", "1", "F", "g", ".", ":", "~", "=", "é", "%41", "@"}
	kit.Strings(fut, c.Pick(5, 6), func(p []string) bool {
		one("//[" + strings.Join(p, "") + "]")
		return !c.Stop()
	})
	// percent-encoding
	pct := func(b ...byte) (s string) {
		for i, x := range b {
			if i%2 == 0 {
				s += fmt.Sprintf("%%%02X", x)
			} else {
				s += fmt.Sprintf("%%%02x", x)
			}
		}
		return
	}
	for b := 0; b < 256; b++ {
		c.Case(fmt.Sprintf("octets from %02x", b), func(t *kit.T) {
			for _, f := range []string{"%s", "s://h/a%sb", "s://%s@%s/", "?%%20%s%%41", "s:%%ff/%s", "#%sé%s"} {
				n := strings.Count(f, "%s")
				do := func(x string) {
					a := make([]interface{}, n)
					for i := range a {
						a[i] = x
					}
					check(t, fmt.Sprintf(f, a...))
					t.Transitions(1)
				}
				do(pct(byte(b)))
				for d := 0; d < 256; d++ {
					do(pct(byte(b), byte(d)))
				}
				edges := []byte{0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xb5, 0xbd, 0xbe, 0xbf, 0xc2, 0xef}
				for _, d := range edges {
					for _, e := range edges {
						do(pct(byte(b), d, e))
						for _, g := range edges {
							if f == "%s" || f == "s://h/a%sb" {
								do(pct(byte(b), d, e, g))
							}
						}
					}
				}
			}
		})
		if c.Stop() {
			return
		}
	}
	// every character, escaped
	for r := rune(0); r <= 0x10FFFF; r += 64 {
		c.CaseF(func() string { return fmt.Sprintf("escaped characters from U+%04X", r) }, func(t *kit.T) {
			for x := r; x < r+64 && x <= 0x10FFFF; x++ {
				check(t, "s:/"+pct([]byte(string(x))...)+"%2F")
				t.Transitions(1)
			}
		})
		if c.Stop() {
			return
		}
	}
	// long texts: every piece repeated in every component, with another piece at the start, in the middle or at the end
	n := int64(0)
	reps := []string{"a", "é", "\U000F0001", "%41", "%C3%A9", "%ff", "%c3", "/", "a/", ":", "@", ".", "0", "-"}
	odd := []string{"", "%e9", "%C3%A9", "%7e", "%", "%4", "[", "]", " ", "\ue000", "é", "\xff", "#", "?", "@", ":", "/"}
	forms := []string{"s:%s", "s://%s", "s://u%s@h", "s://h/%s", "s:?%s", "s:#%s", "s://h:%s/", "s%s:x", "%s", "//[v1.%s]/", "?%s"}
	for _, k := range []int{8, 9, 15, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
		if !c.Thorough() && k > 17 && k%8 != 1 && k != 300 {
			continue
		}
		for _, r := range reps {
			for _, f := range forms {
				for _, o := range odd {
					for _, at := range []int{0, 1, k / 2, k - 1, k} {
						if o == "" && at > 0 {
							continue
						}
						n++
						one(fmt.Sprintf(f, strings.Repeat(r, at)+o+strings.Repeat(r, k-at)))
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
	c.Part("long texts", n)
}
