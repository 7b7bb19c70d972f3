// Package ntref is the reference reader of N-Triples lines, written from the W3C grammar.
package ntref

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/mc/iriref"
)

const (
	LangString = "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
	XSDString  = "http://www.w3.org/2001/XMLSchema#string"
)

// Term is an IRI ("iri"), a blank node ("bnode") or a literal ("lit").
type Term struct{ Kind, Value, Datatype, Lang string }

// Triple is a triple.
type Triple struct{ S, P, O Term }

type reader struct {
	s   string
	bad bool
}

func (r *reader) ws() { r.s = strings.TrimLeft(r.s, " \t") }

func (r *reader) eat(p string) bool {
	if strings.HasPrefix(r.s, p) {
		r.s = r.s[len(p):]
		return true
	}
	return false
}

// uchar reads an escape at the start of r.s, which starts with \u or \U.
func (r *reader) uchar() (rune, bool) {
	n := 4
	if r.s[1] == 'U' {
		n = 8
	}
	if len(r.s) < 2+n {
		return 0, false
	}
	for _, c := range []byte(r.s[2 : 2+n]) {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(c)) {
			return 0, false
		}
	}
	v, err := strconv.ParseUint(r.s[2:2+n], 16, 64)
	if err != nil || v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
		return 0, false
	}
	r.s = r.s[2+n:]
	return rune(v), true
}

func iriChar(c rune) bool { return c > 0x20 && !strings.ContainsRune("<>\"{}|^`\\", c) }

func (r *reader) iri() (Term, bool) {
	if !r.eat("<") {
		return Term{}, false
	}
	v := ""
	for {
		switch {
		case r.s == "":
			return Term{}, false
		case r.s[0] == '>':
			r.s = r.s[1:]
			return Term{Kind: "iri", Value: iriref.Normalize(v)}, v != ""
		case strings.HasPrefix(r.s, `\u`) || strings.HasPrefix(r.s, `\U`):
			c, ok := r.uchar()
			if !ok || !iriChar(c) {
				return Term{}, false
			}
			v += string(c)
		default:
			c, n := utf8.DecodeRuneInString(r.s)
			if !iriChar(c) {
				return Term{}, false
			}
			v += r.s[:n]
			r.s = r.s[n:]
		}
	}
}

func in(c rune, ranges ...rune) bool {
	for i := 0; i < len(ranges); i += 2 {
		if c >= ranges[i] && c <= ranges[i+1] {
			return true
		}
	}
	return false
}

// LabelChar tells whether c may stand in a blank node label, and whether it may be the first character.
func LabelChar(c rune) (any, first bool) {
	base := in(c, 'A', 'Z', 'a', 'z', 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x1FFF, 0x200C, 0x200D, 0x2070, 0x218F,
		0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF)
	first = base || c == '_' || c == ':' || in(c, '0', '9')
	return first || c == '-' || c == 0xB7 || in(c, 0x300, 0x36F, 0x203F, 0x2040), first
}

func (r *reader) bnode() (Term, bool) {
	if !r.eat("_:") {
		return Term{}, false
	}
	end := 0
	for i, c := range r.s {
		any, first := LabelChar(c)
		if i == 0 && !first || i > 0 && !any && c != '.' {
			break
		}
		if c != '.' {
			end = i + utf8.RuneLen(c)
		}
	}
	v := r.s[:end]
	r.s = r.s[end:]
	return Term{Kind: "bnode", Value: v}, v != ""
}

func alnum(c byte) bool { return in(rune(c), 'a', 'z', 'A', 'Z', '0', '9') }
func alpha(c byte) bool { return in(rune(c), 'a', 'z', 'A', 'Z') }

func (r *reader) literal() (Term, bool) {
	if !r.eat(`"`) {
		return Term{}, false
	}
	v := ""
	for {
		if r.s == "" || r.s[0] == '\n' || r.s[0] == '\r' {
			return Term{}, false
		}
		if r.eat(`"`) {
			break
		}
		if r.s[0] != '\\' {
			_, n := utf8.DecodeRuneInString(r.s)
			v += r.s[:n]
			r.s = r.s[n:]
			continue
		}
		if len(r.s) < 2 {
			return Term{}, false
		}
		if r.s[1] == 'u' || r.s[1] == 'U' {
			c, ok := r.uchar()
			if !ok {
				return Term{}, false
			}
			v += string(c)
			continue
		}
		i := strings.IndexByte(`tbnrf"'\`, r.s[1])
		if i < 0 {
			return Term{}, false
		}
		v += string("\t\b\n\r\f\"'\\"[i])
		r.s = r.s[2:]
	}
	t := Term{Kind: "lit", Value: v, Datatype: XSDString}
	switch {
	case strings.HasPrefix(r.s, "^^"):
		r.s = r.s[2:]
		d, ok := r.iri()
		t.Datatype = d.Value
		return t, ok
	case strings.HasPrefix(r.s, "@"):
		n := 1
		for n < len(r.s) && alpha(r.s[n]) {
			n++
		}
		if n == 1 {
			return t, false
		}
		for n+1 < len(r.s) && r.s[n] == '-' && alnum(r.s[n+1]) {
			n++
			for n < len(r.s) && alnum(r.s[n]) {
				n++
			}
		}
		t.Datatype, t.Lang = LangString, r.s[1:n]
		r.s = r.s[n:]
	}
	return t, true
}

func (r *reader) subject() (Term, bool) {
	if strings.HasPrefix(r.s, "_") {
		return r.bnode()
	}
	return r.iri()
}

// Line reads a line: kind is "triple", "comment", "blank" or "bad".
func Line(s string) (kind string, t Triple, comment string) {
	r := &reader{s: s}
	r.ws()
	if r.s == "" {
		return "blank", t, ""
	}
	if r.eat("#") {
		return "comment", t, r.s
	}
	var ok bool
	if t.S, ok = r.subject(); !ok {
		return "bad", t, ""
	}
	r.ws()
	if t.P, ok = r.iri(); !ok {
		return "bad", t, ""
	}
	r.ws()
	if strings.HasPrefix(r.s, `"`) {
		t.O, ok = r.literal()
	} else {
		t.O, ok = r.subject()
	}
	if !ok {
		return "bad", t, ""
	}
	r.ws()
	if !r.eat(".") {
		return "bad", t, ""
	}
	r.ws()
	if r.s != "" && r.s[0] != '#' {
		return "bad", t, ""
	}
	return "triple", t, ""
}
