// Package iriref is the reference for IRI references: RFC 3987 syntax and RFC 3986 section 5 resolution, written
// character by character from the RFCs.
package iriref

import (
	"net/netip"
	"strings"
	"unicode/utf8"
)

// Ref is an IRI reference split as in RFC 3986 appendix B. A nil part is undefined.
type Ref struct {
	Scheme, Auth    *string
	Path            string
	Query, Fragment *string
}

func str(s string) *string { return &s }

// Split splits any text.
func Split(s string) Ref {
	var r Ref
	if i := strings.IndexAny(s, ":/?#"); i > 0 && s[i] == ':' {
		r.Scheme, s = str(s[:i]), s[i+1:]
	}
	if i := strings.IndexByte(s, '#'); i >= 0 {
		r.Fragment, s = str(s[i+1:]), s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		r.Query, s = str(s[i+1:]), s[:i]
	}
	if strings.HasPrefix(s, "//") {
		s = s[2:]
		i := strings.IndexByte(s, '/')
		if i < 0 {
			i = len(s)
		}
		r.Auth, s = str(s[:i]), s[i:]
	}
	r.Path = s
	return r
}

// Join is the recomposition of RFC 3986 section 5.3.
func (r Ref) Join() string {
	s := ""
	if r.Scheme != nil {
		s += *r.Scheme + ":"
	}
	if r.Auth != nil {
		s += "//" + *r.Auth
	}
	s += r.Path
	if r.Query != nil {
		s += "?" + *r.Query
	}
	if r.Fragment != nil {
		s += "#" + *r.Fragment
	}
	return s
}

// Resolve is the transformation of RFC 3986 section 5.2.2 (strict).
func Resolve(base, r Ref) Ref {
	var t Ref
	switch {
	case r.Scheme != nil:
		t = Ref{r.Scheme, r.Auth, dots(r.Path), r.Query, nil}
	case r.Auth != nil:
		t = Ref{base.Scheme, r.Auth, dots(r.Path), r.Query, nil}
	case r.Path == "":
		t = Ref{base.Scheme, base.Auth, base.Path, r.Query, nil}
		if r.Query == nil {
			t.Query = base.Query
		}
	case r.Path[0] == '/':
		t = Ref{base.Scheme, base.Auth, dots(r.Path), r.Query, nil}
	default:
		m := r.Path
		if base.Auth != nil && base.Path == "" {
			m = "/" + r.Path
		} else {
			m = base.Path[:strings.LastIndexByte(base.Path, '/')+1] + r.Path
		}
		t = Ref{base.Scheme, base.Auth, dots(m), r.Query, nil}
	}
	t.Fragment = r.Fragment
	return t
}

// dots removes dot segments. It works on the list of segments, each with the slash before it, rather than by the
// RFC's string rewriting.
func dots(p string) string {
	var segs []string
	for i := 0; i < len(p); {
		j := strings.IndexByte(p[i+1:], '/')
		if j < 0 {
			segs = append(segs, p[i:])
			break
		}
		segs = append(segs, p[i:i+1+j])
		i += 1 + j
	}
	var out []string
	for i := 0; i < len(segs); i++ {
		last := i == len(segs)-1
		switch s := segs[i]; {
		case s == "." || s == "..":
			// a relative dot at the very start: it goes together with the slash after it
			if !last {
				segs[i+1] = segs[i+1][1:]
				if segs[i+1] == "" && i+1 == len(segs)-1 {
					segs = segs[:i+1]
				}
			}
		case s == "/.":
			if last {
				out = append(out, "/")
			}
		case s == "/..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			if last {
				out = append(out, "/")
			}
		default:
			out = append(out, s)
		}
	}
	return strings.Join(out, "")
}

func alpha(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c rune) bool { return c >= '0' && c <= '9' }
func hexc(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// Unreserved tells whether c is an iunreserved character.
func Unreserved(c rune) bool {
	return alpha(c) || digit(c) || c < 0x80 && c > 0 && strings.ContainsRune("-._~", c) || ucs(c)
}

func ucs(c rune) bool {
	switch {
	case c >= 0xA0 && c <= 0xD7FF, c >= 0xF900 && c <= 0xFDCF, c >= 0xFDF0 && c <= 0xFFEF:
		return true
	case c < 0x10000 || c >= 0xF0000:
		return false
	case c >= 0xE0000 && c < 0xE1000:
		return false
	}
	return c&0xFFFF <= 0xFFFD
}

func private(c rune) bool {
	return c >= 0xE000 && c <= 0xF8FF || c >= 0xF0000 && c <= 0xFFFFD || c >= 0x100000 && c <= 0x10FFFD
}

func subDelim(c rune) bool { return c < 0x80 && c > 0 && strings.ContainsRune("!$&'()*+,;=", c) }

// chars tells whether s consists of iunreserved, pct-encoded and sub-delims characters, those in extra and, if
// priv, private ones.
func chars(s, extra string, priv bool) bool {
	for i := 0; i < len(s); {
		if s[i] == '%' {
			if i+2 >= len(s) || !hexc(s[i+1]) || !hexc(s[i+2]) {
				return false
			}
			i += 3
			continue
		}
		c, n := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && n == 1 {
			return false
		}
		if !Unreserved(c) && !subDelim(c) && !strings.ContainsRune(extra, c) && !(priv && private(c)) {
			return false
		}
		i += n
	}
	return true
}

func scheme(s string) bool {
	for i, c := range s {
		if !alpha(c) && (i == 0 || !digit(c) && c != '+' && c != '-' && c != '.') {
			return false
		}
	}
	return s != ""
}

func authority(a string) (ok, free bool) {
	if i := strings.IndexByte(a, '@'); i >= 0 {
		if !chars(a[:i], ":", false) {
			return false, false
		}
		a = a[i+1:]
	}
	if strings.HasPrefix(a, "[") {
		i := strings.IndexByte(a, ']')
		if i < 0 {
			return false, false
		}
		lit, rest := a[1:i], a[i+1:]
		if rest != "" && (rest[0] != ':' || !digits(rest[1:])) {
			return false, false
		}
		if strings.HasPrefix(lit, "v") || strings.HasPrefix(lit, "V") {
			j := strings.IndexByte(lit, '.')
			if j < 2 || j == len(lit)-1 {
				return false, false
			}
			for _, c := range []byte(lit[1:j]) {
				if !hexc(c) {
					return false, false
				}
			}
			for _, c := range lit[j+1:] {
				if !(c < 0x80 && (Unreserved(c) || subDelim(c) || c == ':')) {
					return false, false
				}
			}
			return true, lit[0] == 'V'
		}
		ip, err := netip.ParseAddr(lit)
		return err == nil && ip.Is6() && ip.Zone() == "" && !strings.Contains(lit, "%"), false
	}
	if i := strings.IndexByte(a, ':'); i >= 0 {
		if !digits(a[i+1:]) {
			return false, false
		}
		a = a[:i]
	}
	return chars(a, "", false), false
}

func digits(s string) bool {
	for _, c := range s {
		if !digit(c) {
			return false
		}
	}
	return true
}

// octetRuns calls f with the octets of each maximal run of percent-encoded octets and its place.
func octetRuns(s string, f func(start, end int, b []byte)) {
	hexv := func(c byte) byte {
		switch {
		case c <= '9':
			return c - '0'
		case c <= 'F':
			return c - 'A' + 10
		}
		return c - 'a' + 10
	}
	for i := 0; i < len(s); {
		var b []byte
		j := i
		for j+2 < len(s) && s[j] == '%' && hexc(s[j+1]) && hexc(s[j+2]) {
			b = append(b, hexv(s[j+1])<<4|hexv(s[j+2]))
			j += 3
		}
		if j == i {
			i++
			continue
		}
		f(i, j, b)
		i = j
	}
}

// Valid tells whether s is an IRI reference whose percent-encoded octets spell UTF-8; free means it is not judged.
func Valid(s string) (ok, free bool) {
	if strings.HasPrefix(s, ":") {
		return false, false
	}
	r := Split(s)
	if r.Scheme != nil && !scheme(*r.Scheme) {
		return false, false
	}
	if r.Auth != nil {
		ok, f := authority(*r.Auth)
		if !ok {
			return false, false
		}
		free = f
	}
	if !chars(r.Path, "/:@", false) {
		return false, false
	}
	if r.Query != nil && !chars(*r.Query, "/:@?", true) || r.Fragment != nil && !chars(*r.Fragment, "/:@?", false) {
		return false, false
	}
	ok = true
	octetRuns(s, func(_, _ int, b []byte) { ok = ok && utf8.Valid(b) })
	return ok, free
}

// Normalize is the percent-encoding normalization of RFC 3987 section 5.3.2.3: needless escapes are replaced by
// their characters, the others written in upper case. A text with escapes that are not UTF-8 stays as it is.
func Normalize(s string) string {
	out, at, ok := "", 0, true
	octetRuns(s, func(start, end int, b []byte) {
		ok = ok && utf8.Valid(b)
		out += s[at:start]
		for _, c := range string(b) {
			if Unreserved(c) {
				out += string(c)
				continue
			}
			for _, x := range []byte(string(c)) {
				const h = "0123456789ABCDEF"
				out += "%" + string(h[x>>4]) + string(h[x&15])
			}
		}
		at = end
	})
	if !ok {
		return s
	}
	return out + s[at:]
}
