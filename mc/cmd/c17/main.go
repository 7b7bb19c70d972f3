// C17: the s-expression reader reads every text as the forms of its grammar, with exact values and positions.
package main

import (
	"fmt"
	"go/constant"
	"io"
	"math/big"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/google/xtoproto/sexpr"
	"github.com/google/xtoproto/sexpr/form"
	"verif/mc/kit"
	"verif/mc/numref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C17", Level: "model_checking",
		Rule:  "every text up to the length bound over an alphabet of single characters (brackets, quotes, blanks, comment characters, escapes, letters, digits, signs), and every sequence of longer pieces (comments, escapes, number spellings, symbols) up to a bound, and tokens, lists and texts of up to thousands of parts, read with the default and with a recording form factory and compared with a reference reader: forms, values, nesting, comments, blanks and positions. Non-trivial: the text has at least one form",
		Procs: 8,
	}, run)
}

// item is one form of the reference reader.
type item struct {
	kind       string // ws, comment, string, symbol, int, float, list, anynum
	text       string
	num        *big.Int
	flt        float64
	kids       []*item // with blanks and comments, except for quote lists
	start, end int
}

type refErr struct{ free bool }

type reader struct {
	t    []rune
	i    int
	log  []*item
	free bool
}

func (r *reader) emit(it *item) *item { r.log = append(r.log, it); return it }

// one reads the next item; nil, nil at the end.
func (r *reader) one() (*item, *refErr) {
	if r.i >= len(r.t) {
		return nil, nil
	}
	start := r.i
	switch c := r.t[r.i]; {
	case c == '\'':
		r.i++
		q := r.emit(&item{kind: "symbol", text: "QUOTE", start: start, end: r.i})
		f, e := r.substantive()
		if e != nil {
			return nil, e
		}
		if f == nil {
			return nil, &refErr{}
		}
		return r.emit(&item{kind: "list", kids: []*item{q, f}, start: start, end: r.i}), nil
	case c == ' ' || c == '\t' || c == '\n':
		for r.i < len(r.t) && strings.ContainsRune(" \t\n", r.t[r.i]) {
			r.i++
		}
		return r.emit(&item{kind: "ws", text: string(r.t[start:r.i]), start: start, end: r.i}), nil
	case c == '"':
		return r.str()
	case c == '(':
		r.i++
		var kids []*item
		for {
			if r.i >= len(r.t) {
				return nil, &refErr{}
			}
			if r.t[r.i] == ')' {
				r.i++
				return r.emit(&item{kind: "list", kids: kids, start: start, end: r.i}), nil
			}
			k, e := r.one()
			if e != nil {
				return nil, e
			}
			kids = append(kids, k)
		}
	case c == ')':
		return nil, &refErr{}
	case c == '/' && r.i+1 < len(r.t) && r.t[r.i+1] == '/':
		for r.i < len(r.t) && r.t[r.i] != '\n' {
			r.i++
		}
		lit := string(r.t[start:r.i])
		if r.i < len(r.t) {
			r.i++
		}
		return r.emit(&item{kind: "comment", text: lit, start: start, end: r.i}), nil
	case c == '/' && r.i+1 < len(r.t) && r.t[r.i+1] == '*':
		for r.i += 2; r.i+1 < len(r.t); r.i++ {
			if r.t[r.i] == '*' && r.t[r.i+1] == '/' {
				r.i += 2
				return r.emit(&item{kind: "comment", text: string(r.t[start:r.i]), start: start, end: r.i}), nil
			}
		}
		return nil, &refErr{free: true} // nothing says what an open block comment is
	}
	for r.i < len(r.t) && !strings.ContainsRune(" \t\n()\"", r.t[r.i]) {
		if r.i > start && r.t[r.i] == '/' && r.i+1 < len(r.t) && (r.t[r.i+1] == '/' || r.t[r.i+1] == '*') {
			break
		}
		if r.t[r.i] == '\'' {
			r.free = true // a quote inside a token
		}
		r.i++
	}
	it, e := number(string(r.t[start:r.i]))
	if e != nil {
		return nil, e
	}
	it.start, it.end = start, r.i
	return r.emit(it), nil
}

func (r *reader) substantive() (*item, *refErr) {
	for {
		f, e := r.one()
		if e != nil || f == nil || f.kind != "ws" && f.kind != "comment" {
			return f, e
		}
	}
}

func (r *reader) str() (*item, *refErr) {
	start := r.i
	var b []byte
	bad, free := false, false
	for r.i++; ; {
		if r.i >= len(r.t) {
			return nil, &refErr{free: free}
		}
		c := r.t[r.i]
		if c == '"' {
			r.i++
			break
		}
		if c != '\\' {
			b = append(b, string(c)...)
			r.i++
			continue
		}
		if r.i+1 >= len(r.t) {
			return nil, &refErr{}
		}
		e := r.t[r.i+1]
		if k := strings.IndexRune(`abfnrtv\"`, e); k >= 0 {
			b = append(b, "\a\b\f\n\r\t\v\\\""[k])
			r.i += 2
			continue
		}
		n, base := 0, rune(16)
		skip := 2
		switch {
		case e == 'x':
			n = 2
		case e == 'u':
			n = 4
		case e == 'U':
			n = 8
		case e >= '0' && e <= '7':
			n, base, skip = 3, 8, 1
		case e == '\n':
			free = true
		}
		v, k := rune(0), 0
		for ; k < n && r.i+skip+k < len(r.t); k++ {
			d := strings.IndexRune("0123456789abcdef", lower(r.t[r.i+skip+k]))
			if d < 0 || rune(d) >= base {
				break
			}
			v = v*base + rune(d)
		}
		if n == 0 || k < n || base == 8 && v > 255 || n >= 4 && !utf8.ValidRune(v) {
			bad = true
			r.i += 2
			continue
		}
		if n >= 4 {
			b = append(b, string(v)...)
		} else {
			b = append(b, byte(v))
		}
		r.i += skip + n
	}
	if bad || free {
		return nil, &refErr{free: free}
	}
	return r.emit(&item{kind: "string", text: string(b), start: start, end: r.i}), nil
}

func lower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

var (
	intRE   = regexp.MustCompile(`^(?:0|[1-9](?:_?[0-9])*|0(?:_?[0-7])+|0[xX](?:_?[0-9a-fA-F])+|0[bB](?:_?[01])+|0[oO](?:_?[0-7])+)$`)
	floatRE = regexp.MustCompile(`^(?:[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+|\.[0-9]+(?:[eE][+-]?[0-9]+)?)$`)
	zeroRE  = regexp.MustCompile(`^0[0-9]+$`)
	oddRE   = regexp.MustCompile(`^(?:0[xX].*[pP].*|[0-9.][0-9.eE+-]*_[0-9._eE+-]*)$`)
)

func number(tok string) (*item, *refErr) {
	abs, neg, sign := tok, false, false
	if tok[0] == '+' || tok[0] == '-' {
		sign, neg = true, tok[0] == '-'
		abs = tok[1:]
	}
	digit := tok[0] >= '0' && tok[0] <= '9'
	switch {
	case intRE.MatchString(abs):
		v, ok := new(big.Int).SetString(abs, 0)
		if !ok {
			return nil, &refErr{free: true}
		}
		if neg {
			v.Neg(v)
		}
		if !sign && v.IsUint64() || sign && v.IsInt64() {
			return &item{kind: "int", num: v}, nil
		}
		return nil, &refErr{free: true} // integers beyond 64 bits
	case zeroRE.MatchString(abs), oddRE.MatchString(abs):
		return nil, &refErr{free: true}
	case floatRE.MatchString(abs):
		rat, ok := new(big.Rat).SetString(tok)
		if !ok {
			return nil, &refErr{free: true}
		}
		f, _ := rat.Float64()
		if f-f != 0 {
			if digit {
				return nil, &refErr{}
			}
			return nil, &refErr{free: true}
		}
		return &item{kind: "float", flt: f}, nil
	case digit:
		return nil, &refErr{}
	}
	return &item{kind: "symbol", text: tok}, nil
}

// The recording factory.
type base struct{ sp form.SourcePosition }

func (b base) SourcePosition() form.SourcePosition { return b.sp }
func (b base) Value() interface{}                  { return nil }

type rList struct {
	base
	all, sub []form.Form
}

func (l *rList) Len() int            { return len(l.sub) }
func (l *rList) Nth(n int) form.Form { return l.sub[n] }

type rNum struct {
	base
	v constant.Value
}

func (n *rNum) Number() constant.Value { return n.v }

type rSym struct {
	base
	s string
}

func (n *rSym) SymbolLiteral() string { return n.s }

type rStr struct {
	base
	s string
}

func (n *rStr) StringValue() string { return n.s }

type rCom struct {
	base
	s string
}

func (n *rCom) CommentLiteral() string { return n.s }
func (n *rCom) Valueless()             {}

type rWs struct {
	base
	s string
}

func (n *rWs) Whitespace() string { return n.s }
func (n *rWs) Valueless()         {}

type recorder struct {
	log  []form.Form
	def  sexpr.FormFactory // told of every list too; must not change it
	said []string
}

func (r *recorder) add(f form.Form) { r.log = append(r.log, f) }
func (r *recorder) NewList(fs []form.Form, sp sexpr.SourceSpan) (form.List, error) {
	l := &rList{base{sp}, append([]form.Form(nil), fs...), nil}
	if r.def != nil {
		d, err := r.def.NewList(fs, sp)
		for i := range fs {
			if fs[i] != l.all[i] {
				r.said = append(r.said, fmt.Sprintf("the default factory changed part %d of the list it was given", i))
			}
		}
		if err == nil && d.SourcePosition().String() != sp.String() {
			r.said = append(r.said, "the default factory moved a list")
		}
	}
	for _, f := range fs {
		if _, ok := f.(form.Valueless); !ok {
			l.sub = append(l.sub, f)
		}
	}
	r.add(l)
	return l, nil
}
func (r *recorder) NewNumberForm(v constant.Value, sp sexpr.SourceSpan) (form.Number, error) {
	f := &rNum{base{sp}, v}
	r.add(f)
	return f, nil
}
func (r *recorder) NewSymbolForm(s string, sp sexpr.SourceSpan) (form.Symbol, error) {
	f := &rSym{base{sp}, s}
	r.add(f)
	return f, nil
}
func (r *recorder) NewStringForm(s string, sp sexpr.SourceSpan) (sexpr.StringForm, error) {
	f := &rStr{base{sp}, s}
	r.add(f)
	return f, nil
}
func (r *recorder) NewCommentForm(s string, sp sexpr.SourceSpan) (sexpr.CommentForm, error) {
	f := &rCom{base{sp}, s}
	r.add(f)
	return f, nil
}
func (r *recorder) NewWhitespaceForm(s string, sp sexpr.SourceSpan) (sexpr.WhitespaceForm, error) {
	f := &rWs{base{sp}, s}
	r.add(f)
	return f, nil
}

const name = "dir/f 1.sexpr"

type pos struct{ row, col int }

func positions(t []rune) []pos {
	out := make([]pos, len(t)+1)
	r, c := 1, 1
	for i, x := range t {
		out[i] = pos{r, c}
		c++
		if x == '\n' {
			r, c = r+1, 1
		}
	}
	out[len(t)] = pos{r, c}
	return out
}

func span(ps []pos, it *item) string {
	a, b := ps[it.start], ps[it.end]
	if a.row == b.row {
		return fmt.Sprintf("%s:%d:%d-%d", name, a.row, a.col, b.col)
	}
	return fmt.Sprintf("%s:%d:%d-%d:%d", name, a.row, a.col, b.row, b.col)
}

func showItem(ps []pos, it *item, all bool) string {
	s := span(ps, it)
	switch it.kind {
	case "list":
		var k []string
		for _, x := range it.kids {
			if all || x.kind != "ws" && x.kind != "comment" {
				k = append(k, showItem(ps, x, all))
			}
		}
		return fmt.Sprintf("list(%s)@%s", strings.Join(k, " "), s)
	case "int":
		return fmt.Sprintf("int %v@%s", it.num, s)
	case "float":
		return fmt.Sprintf("float %x@%s", it.flt+0, s) // constants have no negative zero
	}
	return fmt.Sprintf("%s %q@%s", it.kind, it.text, s)
}

func showForm(f form.Form, all bool) string {
	if f == nil {
		return "nil"
	}
	s := f.SourcePosition().String()
	switch f := f.(type) {
	case *rList:
		var k []string
		fs := f.sub
		if all {
			fs = f.all
		}
		for _, x := range fs {
			k = append(k, showForm(x, all))
		}
		return fmt.Sprintf("list(%s)@%s", strings.Join(k, " "), s)
	case form.List:
		var k []string
		subs := form.Subforms(f)
		val, isList := f.Value().([]form.Form)
		if len(subs) != f.Len() || isList && len(val) != f.Len() {
			return fmt.Sprintf("list of length %d with %d subforms and Value %v", f.Len(), len(subs), val)
		}
		for i := 0; i < f.Len(); i++ {
			if subs[i] != f.Nth(i) || isList && val[i] != f.Nth(i) {
				return fmt.Sprintf("list whose part %d is not the subform %d", i, i)
			}
			k = append(k, showForm(f.Nth(i), all))
		}
		return fmt.Sprintf("list(%s)@%s", strings.Join(k, " "), s)
	case form.String:
		if v, has := f.Value().(string); has && v != f.StringValue() {
			return fmt.Sprintf("string %q with Value %q", f.StringValue(), v)
		}
		return fmt.Sprintf("string %q@%s", f.StringValue(), s)
	case form.Symbol:
		return fmt.Sprintf("symbol %q@%s", f.SymbolLiteral(), s)
	case form.Comment:
		return fmt.Sprintf("comment %q@%s", f.CommentLiteral(), s)
	case form.Whitespace:
		return fmt.Sprintf("ws %q@%s", f.Whitespace(), s)
	case form.Number:
		n := f.Number()
		val := ""
		switch n.Kind() {
		case constant.Int:
			val = "int " + n.ExactString()
			if v := f.Value(); v != nil && fmt.Sprint(v) != n.ExactString() {
				val += fmt.Sprintf(" with Value %v", v)
			}
		case constant.Float:
			x, _ := constant.Float64Val(n)
			val = fmt.Sprintf("float %x", x+0)
			if v, ok := f.Value().(float64); f.Value() != nil && (!ok || v != x) {
				val += fmt.Sprintf(" with Value %v", f.Value())
			}
		default:
			val = fmt.Sprintf("number of kind %v", n.Kind())
		}
		return val + "@" + s
	}
	return fmt.Sprintf("%T", f)
}

var errRE = regexp.MustCompile(`^` + regexp.QuoteMeta(name) + `:(\d+):(\d+)`)

func text(c *kit.C, s string) {
	c.CaseF(func() string { return fmt.Sprintf("text %q", s) }, func(t *kit.T) {
		r := &reader{t: []rune(s)}
		ps := positions(r.t)
		var want []string
		var wantAll []string
		var rerr *refErr
		lastEnd := 0
		for {
			f, e := r.substantive()
			if e != nil {
				rerr = e
				break
			}
			if f == nil {
				break
			}
			want = append(want, showItem(ps, f, false))
			lastEnd = f.end
		}
		for _, it := range r.log {
			wantAll = append(wantAll, showItem(ps, it, true))
		}
		free := r.free || rerr != nil && rerr.free
		if len(want) == 0 {
			t.Trivial()
		}
		readAll := func(fr *sexpr.FormReader) (out []string, err error) {
			for {
				f, e := fr.ReadForm()
				if e == io.EOF {
					if f2, e2 := fr.ReadForm(); e2 != io.EOF {
						t.Failf("after the end of the file: %v, %v", f2, e2)
					}
					return out, nil
				}
				if e != nil {
					return out, e
				}
				if f == nil {
					t.Failf("a nil form without an error")
					return out, nil
				}
				out = append(out, showForm(f, false))
				if len(out) > len(s)+1 {
					t.Failf("more forms than characters")
					return out, nil
				}
			}
		}
		got, err := readAll(sexpr.NewFileReader(name, s))
		rec := &recorder{}
		got2, err2 := readAll(sexpr.NewFileReader(name, s, sexpr.CustomFormFactory(func(fr *sexpr.FormReader) sexpr.FormFactory {
			rec.def = sexpr.DefaultFormFactory(fr)
			return rec
		})))
		for _, x := range rec.said {
			t.Failf("%s", x)
		}
		if fmt.Sprint(err) != fmt.Sprint(err2) || strings.Join(got, "\n") != strings.Join(got2, "\n") {
			t.Failf("default factory: %q, %v\ncustom factory: %q, %v", got, err, got2, err2)
		}
		if free {
			t.Outcome("no documented meaning")
			return
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Failf("read %q (error %v)\nwant %q (error %v)", got, err, want, rerr != nil)
			return
		}
		if (err != nil) != (rerr != nil) {
			t.Failf("after %d forms: error %v, want an error: %v", len(got), err, rerr != nil)
			return
		}
		if err != nil {
			t.Outcome("malformed")
			m := errRE.FindStringSubmatch(err.Error())
			if m == nil {
				t.Failf("error %q does not start with file name and position", err)
				return
			}
			for i, p := range ps {
				if fmt.Sprint(p.row) == m[1] && fmt.Sprint(p.col) == m[2] {
					if i < lastEnd {
						t.Failf("error %q names a position before the end of the last form", err)
					}
					return
				}
			}
			t.Failf("error %q names a position outside the text", err)
			return
		}
		t.Outcome(fmt.Sprintf("%d forms", len(want)))
		var all []string
		for _, f := range rec.log {
			all = append(all, showForm(f, true))
		}
		if strings.Join(all, "\n") != strings.Join(wantAll, "\n") {
			t.Failf("forms made %q\nwant %q", all, wantAll)
		}
	})
}

func run(c *kit.C) {
	chars := []string{"(", ")", " ", "\n", `"`, `\`, "/", "*", "'", "a", "1", "é", "-"}
	kit.Strings(chars, c.Pick(6, 7), func(parts []string) bool {
		text(c, strings.Join(parts, ""))
		return !c.Stop()
	})
	pieces := []string{"(", ")", " ", "\t", "\n", "//c", "/*b*/", "/**/", "/***/", "/* x\n*y */", `"s"`, `"\\"`, `"\""`, `"\n\t"`, "\"a\nb\"", "'", "sym", "a/b", "/", "12", "-3", "1.5", "0x1F", "inf", "日本", "\r", "//c\rd"}
	kit.Strings(pieces, c.Pick(4, 5), func(parts []string) bool {
		text(c, strings.Join(parts, ""))
		return !c.Stop()
	})
	esc := []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\"`, `\'`, `\x41`, `\xff`, `\x4`, `\u00e9`, `\u12`, `\U0001F600`, `\UFFFFFFFF`, `\ud800`, `\101`, `\400`, `\8`, `\z`, "x", "é", "\n", " ", "'", "/", "(", "\t", "\r"}
	kit.Strings(esc, c.Pick(3, 4), func(parts []string) bool {
		text(c, `"`+strings.Join(parts, "")+`"`)
		text(c, `("`+strings.Join(parts, "")+`" b)`)
		return !c.Stop()
	})
	num := []string{"0", "1", "7", "9", "a", "e", "x", "b", "o", ".", "-", "+", "_", "F", "p"}
	kit.Strings(num, c.Pick(5, 6), func(parts []string) bool {
		text(c, strings.Join(parts, ""))
		return !c.Stop()
	})
	for b := uint(0); b <= 66; b++ {
		for _, d := range []int64{-2, -1, 0, 1, 2} {
			v := new(big.Int).Lsh(big.NewInt(1), b)
			v.Add(v, big.NewInt(d))
			for _, f := range []string{"%d", "-%d", "+%d", "0x%x", "0X%X", "0b%b", "0o%o", "0%o", "%d.0", "%de3", "(%d)"} {
				text(c, fmt.Sprintf(f, v))
			}
		}
	}
	for _, w := range []string{"inf", "Inf", "INF", "+inf", "-Inf", "infinity", "-INFINITY", "nan", "NaN", "+nan", "1e308", "1e309", "1e400", "4.9e-324", "1e-400", "0.1", "-0.1", "1.7976931348623157e308", "9007199254740993.0", "-0", "-0.0", "true", "nil"} {
		for _, f := range []string{"%s", "(%s)", "'%s", "(a %s b)", "%s//x", "%s\"s\""} {
			text(c, fmt.Sprintf(f, w))
		}
	}
	for _, h := range numref.Hard() {
		text(c, h)
		text(c, "("+h+" b)")
	}
	// every kind of odd character in every place
	for _, o := range []string{"\ufeff", "\u00a0", "\u2028", "\u3000", "\u200b", "\x00", "\u0085", "\v", "\f", "\x1b", "\x7f", "\ufffd", "[", "]", "{", "}", ";", "#", "`", ",", "|", ":", "@", "$", "%", "&", "~", "^", "!", "?", "=", "<", ">", ".", "_", "\\", "e\u0301", "\U0001f468\u200d\U0001f469", "ß", "İ", "٣", "Ⅷ"} {
		for _, f := range []string{"%s", "%sa", "a%s", "(%s)", "a %s b", "(a%sb)", "(a%s)", "(%s)b", "%s(a)", "(a)%s", "%s%[1]s", "%s %[1]s", "//%s\nb", "a//%s", "/*%s*/b", "\"%s\"", "(\"a%sb\" c)", "'%s", "%s'a", "1%s", "%s1", "-%s", "%s\na", "a\n%s", "//c\n%s", "%s//c\na", "%s/*c*/a", "/%s/", "/%s*", "/*%s/ */a"} {
			text(c, fmt.Sprintf(f, o))
		}
	}
	// long tokens and many of them
	for _, n := range []int{60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, c.Pick(70000, 200000)} {
		for _, x := range []string{"a", "é", "日", "😀", "-", "/", "*", "1", " ", "\t", "\n", "\r\n", "'", "\\\"", "\\u00e9"} {
			if x == "'" && n > 300 {
				continue // The forms nest; writing them down takes too long.
			}
			r := strings.Repeat(x, n)
			text(c, r+" b")
			text(c, "a"+r+" (b")
			text(c, "("+r+"x)\n  y")
			text(c, "\""+r+"\" b")
			text(c, "//"+r+"\nb")
			text(c, "/*"+r+"*/ b")
			text(c, "a /*"+r)
		}
		for _, x := range []string{"a ", "12 ", "\"s\" ", "(a b)\n", "'q ", "//c\n", "/*c*/ ", "é\n", "()"} {
			if n > 2100 && !c.Thorough() {
				continue
			}
			r := strings.Repeat(x, n)
			text(c, r)
			text(c, "("+r+")")
			text(c, "("+r+")) ")
		}
	}
	for depth := 1; depth <= c.Pick(300, 2000); depth++ {
		text(c, strings.Repeat("(", depth)+"x"+strings.Repeat(")", depth))
		text(c, strings.Repeat("(\n", depth)+strings.Repeat(") ", depth-1))
		text(c, strings.Repeat("'", depth)+"(x)")
	}
}
