// C23: exactly the lines of N-Triples are read, each as the triple it spells.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/google/xtoproto/rdf/ntriples"
	"verif/mc/kit"
	"verif/mc/ntref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C23", Level: "model_checking",
		Rule:  "every line made of a subject, a predicate and an object from lists of well-formed and broken terms with every kind of blank between and after them; every term text up to a length over characters and escapes in each place; every line one and two edits (deletion, insertion, replacement of a character) away from lines of a list; terms and blanks of up to thousands of repeated parts; every document of up to four lines, and documents of thousands of lines with another one at a place: read, refused and reported as a reference reader written from the grammar does. Non-trivial: the line is a triple",
		Procs: 8,
	}, run)
}

func check(t *kit.T, line string) {
	kind, want, comment := ntref.Line(line)
	tr, cm, err := ntriples.ParseLine(line)
	if strings.ContainsAny(line, "\n\r") && kind == "comment" {
		t.Outcome("not judged")
		t.Trivial()
		return
	}
	switch {
	case err != nil && (tr != nil || cm != nil), err == nil && (tr == nil) == (cm == nil):
		t.Failf("%q gives %v, %v and %v", line, tr, cm, err)
	case kind == "triple":
		t.Outcome("triple")
		if err != nil || tr == nil {
			t.Failf("%q is refused: %v", line, err)
		} else if got := ntref.Of(tr); got != want {
			t.Failf("%q gives %q, want %q", line, got, want)
		} else if back, _, err := ntriples.ParseLine(tr.String()); err != nil || ntref.Of(back) != want {
			t.Failf("%q prints as %q, which gives %v", line, tr.String(), err)
		}
	case kind == "comment":
		t.Trivial()
		t.Outcome("comment")
		if cm == nil || cm.Contents() != comment || cm.Line() != "#"+comment {
			t.Failf("%q gives %v, %v, %v, want the comment %q", line, tr, cm, err, comment)
		}
	default:
		t.Trivial()
		t.Outcome(kind)
		if err == nil {
			t.Failf("%q is read as %v %v", line, tr, cm)
		}
	}
}

func run(c *kit.C) {
	seen := map[string]bool{}
	one := func(line string) {
		if !utf8.ValidString(line) {
			return
		}
		c.CaseF(func() string { return fmt.Sprintf("%q", line) }, func(t *kit.T) { check(t, line) })
	}
	subj := []string{"<a:s>", "<r>", `<\u00e9>`, "<%41%c3%a9>", "_:a", "_:a.b", "_:0-·", "_:a.", "", "<>", "<a b>", `<\u0020>`, `<\U00110000>`, `<\uD800>`, `"s"`, "_:", "_:-", "_a", "a:b", "<x"}
	objs := append([]string{`"x"`, `""`, `"x"@en`, `"x"@en-US-x`, `"x"^^<d:t>`, `"x"^^<\u00e9%41>`, `"\u0041\U0001F600\t\b\n\r\f\"\'\\"`, `"\uDFFF"`, `"\UFFFFFFFF"`, `"\x"`, `"x`, `"x"@`, `"x"@1`, `"x"@en-`, `"x"^^`, `"x"^^<>`, `"x"^^x`, `"x"^<d>`, `'x'`, `"x" @en`, `"x"^^ <d:t>`, `"é😀"`, `true`, `1`}, subj...)
	blanks := []string{"", " ", "\t", " \t "}
	tails := []string{".", " .", "\t. ", " . #c", ".#", "", " ", "..", " . .", " . x", "#.", " ; "}
	if c.Tier == "thorough" {
		tails = append(tails, ". \t#a#b.", ".\u00a0", "\v.", ",")
	}
	for _, s := range subj {
		for _, p := range subj {
			for _, o := range objs {
				for _, b1 := range blanks[:3] {
					for _, b2 := range blanks[1:] {
						for _, tl := range tails {
							one(b1 + s + b2 + p + b2 + o + tl)
							if b1 == "" {
								one(s + p + b2 + o + tl)
								one(s + b2 + p + o + tl)
							}
						}
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
	// terms
	strs := []string{`\`, `"`, "u", "U", "0041", "000", "D800", "n", "x", "\n", "é", "'", "<", "@", "^^"}
	kit.Strings(strs, c.Pick(5, 6), func(p []string) bool {
		one(`<a:s> <a:p> "` + strings.Join(p, "") + `" .`)
		if len(p) < 5 {
			one(`<a:s> <a:p> ` + strings.Join(p, "") + ` .`)
		}
		return !c.Stop()
	})
	// every character after a backslash, in each kind of term
	for x := rune(0); x < 0x300; x++ {
		for _, f := range []string{`<a:s> <a:p> "\%s" .`, `<a:s> <a:p> "a\%sb"@en .`, `<a:s> <a:p> "\\\%s" .`, `<a:\%s> <a:p> <a:o> .`, `<a:s> <a:\%sb> <a:o> .`, `<a:s> <a:p> "x"^^<a:\%s> .`, `_:a\%sb <a:p> <a:o> .`} {
			one(fmt.Sprintf(f, string(x)))
		}
	}
	irs := []string{`\`, ">", "<", "u", "U", "0041", "000000E9", "003E", "0020", "DFFF", "%41", "%", "x", " ", "{", "é", ":", "#"}
	kit.Strings(irs, c.Pick(4, 5), func(p []string) bool {
		x := strings.Join(p, "")
		one("<" + x + "> <a:p> _:b .")
		one("<a:s> <" + x + "> _:b .")
		one("<a:s> <a:p> <" + x + "> .")
		one(`<a:s> <a:p> "x"^^<` + x + "> .")
		return !c.Stop()
	})
	labs := []string{"a", "0", "_", ":", ".", "-", "·", "\u0300", "é", " ", "<", "#", "\\", "\U00010000", "\U000F0000", "\u037e"}
	kit.Strings(labs, c.Pick(4, 5), func(p []string) bool {
		x := strings.Join(p, "")
		one("_" + x + " <a:p> <a:o> .")
		one("_:" + x + "<a:p> <a:o> .")
		one("<a:s> <a:p> _:" + x + ".")
		return !c.Stop()
	})
	kit.Strings([]string{"a", "Z", "1", "-", "_", ".", " ", "@", "é", "^^<a:b>"}, c.Pick(5, 6), func(p []string) bool {
		one(`<a:s> <a:p> "x"@` + strings.Join(p, "") + ".")
		return !c.Stop()
	})
	// every character as label character, in each place
	for r := rune(0); r <= 0x10FFFF; r += 64 {
		c.CaseF(func() string { return fmt.Sprintf("characters from U+%04X", r) }, func(t *kit.T) {
			for x := r; x < r+64; x++ {
				if x >= 0xD800 && x < 0xE000 {
					continue
				}
				check(t, "_:"+string(x)+" <a:p> _:a"+string(x)+"b .")
				check(t, "_:a"+string(x)+" <a:p> <a:o> .")
				check(t, "<a:"+string(x)+"> <a:p> <a:o> .")
				check(t, "<a:s> <a:p> \""+string(x)+"\" .")
				check(t, fmt.Sprintf(`<a:s> <a:p> "\U%08X\U%08x" .`, x, x))
				check(t, fmt.Sprintf(`<a:s> <a:p> <a:\U%08X> .`, x))
				check(t, "<a:s>"+string(x)+"<a:p> <a:o> .")
				check(t, "<a:s> <a:p> <a:o> ."+string(x))
				t.Transitions(1)
			}
		})
		if c.Stop() {
			return
		}
	}
	// long terms and blanks
	lens := []int{15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 4097}
	if c.Thorough() {
		lens = append(lens, 65535, 65536, 65537)
	}
	for _, n := range lens {
		for _, x := range []string{"a", `\\`, `\n`, `\u00e9`, `\U0001F600`, "é", "😀", `\"`, " ", "\t", ".", "/", "%41", "#", "-", `\ud800`, "\n", "0"} {
			r := strings.Repeat(x, n)
			one(`<a:s> <a:p> "` + r + `" .`)
			one(`<a:s> <a:p> "` + r + `\" .`)
			one(`<a:s> <a:p> "x` + r + `"@en-` + r + " .")
			one(`<a:s> <a:p> "x"^^<d:` + r + "> .")
			one("<a:" + r + "> <a:p> <" + r + "> . # " + r)
			one("_:x" + r + "y <a:" + r + "> _:x" + r + " .")
			one("<a:s>" + r + "<a:p>" + r + "<a:o>" + r + "." + r)
			one("#" + r)
		}
		if c.Stop() {
			return
		}
	}
	// edits
	base := []string{`<a:s> <a:p> "x\u0041\n"@en-US .`, `_:b.c <a:p> "y"^^<a:d> . # c`, "_:b<a:p>_:c.", `<\u00E9> <p> <%41> .`, "# c", ` <s> <p> "\\" .`}
	edits := []string{"", `"`, `\`, "<", ">", "_", ":", ".", " ", "@", "^", "-", "#", "u", "0", "é", "\n", "\t"}
	edit := func(s string, f func(string)) {
		rs := []rune(s)
		for i := 0; i <= len(rs); i++ {
			for _, e := range edits {
				f(string(rs[:i]) + e + string(rs[i:]))
				if i < len(rs) {
					f(string(rs[:i]) + e + string(rs[i+1:]))
				}
			}
		}
	}
	for _, b := range base {
		edit(b, func(x string) {
			edit(x, func(y string) {
				if len(y) > len(b)+1 && c.Tier != "thorough" || seen[y] {
					return
				}
				seen[y] = true
				one(y)
			})
		})
		if c.Stop() {
			return
		}
	}
	// long documents with one other line at a place
	for _, n := range []int{10, 100, 1100, c.Pick(70000, 200000)} {
		for _, at := range []int{0, 8, 9, 10, 98, 99, 100, 255, 256, 511, 512, 998, 999, 1000, 1023, 1024, 2047, 2048, 65535, 65536} {
			for _, odd := range []string{"", "#c", "<a:s> <a:p> .", "x", `_:b <a:q> "y"@en . #c`} {
				if at >= n {
					continue
				}
				c.CaseF(func() string { return fmt.Sprintf("document of %d lines with %q at %d", n, odd, at) }, func(t *kit.T) {
					lines := make([]string, n)
					for i := range lines {
						lines[i] = fmt.Sprintf("<a:s%d> <a:p> _:b%d .", i/2, i)
					}
					lines[at] = odd
					document(t, lines)
				})
			}
		}
	}
	// documents
	lines := []string{"", " ", "#c", "<a:s> <a:p> _:b .", `_:b <a:p> "x" .`, "<a:s> <a:p> .", "\t# d", "x"}
	kit.Strings(lines, c.Pick(5, 6), func(p []string) bool {
		c.CaseF(func() string { return fmt.Sprintf("document %q", p) }, func(t *kit.T) {
			document(t, p)
		})
		return !c.Stop()
	})
}

// document compares what ParseLines makes of the lines.
func document(t *kit.T, p []string) {
	var want []ntref.Triple
	bad := 0
	for i, l := range p {
		k, tr, _ := ntref.Line(l)
		if k == "triple" {
			want = append(want, tr)
		}
		if k == "bad" {
			bad = i + 1
			break
		}
	}
	got, err := ntriples.ParseLines(p)
	if bad > 0 {
		t.Outcome("bad document")
		if err == nil || !strings.HasPrefix(err.Error(), fmt.Sprintf("%d:", bad)) || got != nil {
			t.Failf("%q: %v and error %v, want an error for line %d", p, got, err, bad)
		}
		return
	}
	t.Outcome(fmt.Sprintf("document of %d triples", len(want)))
	if err != nil || len(got) != len(want) {
		t.Failf("%.300q: %.300v and error %v", p, got, err)
		return
	}
	for i := range got {
		if ntref.Of(got[i]) != want[i] {
			t.Failf("%q: triple %d is %v", p, i, got[i])
		}
	}
}
