package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/google/xtoproto/xmlinfer"
	"github.com/jhump/protoreflect/desc"
	"github.com/jhump/protoreflect/desc/protoparse"
	"verif/mc/kit"
	"verif/mc/numref"
)

// An elem is an element with what it holds: *elem, a text, or another token that means nothing.
type elem struct {
	name  xml.Name
	attrs []xml.Attr
	kids  []interface{}
}

func el(name string, attrs []xml.Attr, kids ...interface{}) *elem {
	return &elem{xml.Name{Local: name}, attrs, kids}
}

func at(nv ...string) (out []xml.Attr) {
	for i := 0; i < len(nv); i += 2 {
		out = append(out, xml.Attr{Name: xml.Name{Local: nv[i]}, Value: nv[i+1]})
	}
	return
}

func (e *elem) tokens() (out []xml.Token) {
	out = append(out, xml.StartElement{Name: e.name, Attr: e.attrs})
	for _, k := range e.kids {
		switch k := k.(type) {
		case *elem:
			out = append(out, k.tokens()...)
		case string:
			out = append(out, xml.CharData(k))
		default:
			out = append(out, k)
		}
	}
	return append(out, xml.EndElement{Name: e.name})
}

func (e *elem) text(b *strings.Builder) {
	fmt.Fprintf(b, "<%s", e.name.Local)
	for _, a := range e.attrs {
		fmt.Fprintf(b, " %s=\"", a.Name.Local)
		xml.EscapeText(b, []byte(a.Value))
		b.WriteString(`"`)
	}
	b.WriteString(">")
	for _, k := range e.kids {
		switch k := k.(type) {
		case *elem:
			k.text(b)
		case string:
			xml.EscapeText(b, []byte(k))
		case xml.CharData:
			fmt.Fprintf(b, "<![CDATA[%s]]>", k)
		case xml.Comment:
			fmt.Fprintf(b, "<!--%s-->", k)
		case xml.ProcInst:
			fmt.Fprintf(b, "<?%s %s?>", k.Target, k.Inst)
		case xml.Directive:
			fmt.Fprintf(b, "<!%s>", k)
		}
	}
	fmt.Fprintf(b, "</%s>", e.name.Local)
}

func text(roots []*elem) string {
	b := &strings.Builder{}
	for _, r := range roots {
		r.text(b)
		b.WriteString("\n")
	}
	return b.String()
}

// source gives tokens, then an error.
type source struct {
	toks []xml.Token
	i, n int
	err  error
	// with gives the error along with the last token, and gaps gives nil tokens between the others: see xml.TokenReader
	with, gaps, gap bool
}

func (s *source) Token() (xml.Token, error) {
	if s.i >= s.n {
		return nil, s.err
	}
	if s.gaps && !s.gap {
		s.gap = true
		return nil, nil
	}
	s.gap = false
	s.i++
	if s.with && s.i == s.n {
		return s.toks[s.i-1], s.err
	}
	return s.toks[s.i-1], nil
}

func tokens(roots []*elem) (out []xml.Token) {
	for _, r := range roots {
		out = append(out, r.tokens()...)
	}
	return
}

func reader(roots []*elem) xml.TokenReader {
	t := tokens(roots)
	return &source{toks: t, n: len(t), err: io.EOF}
}

// The model: what is known of all elements at one path, and of all values of one attribute or leaf.
type values struct {
	order  []string
	counts map[string]int
}

func (v *values) add(s string) {
	if v.counts == nil {
		v.counts = map[string]int{}
	}
	v.counts[s]++
}

type class struct {
	name   xml.Name
	n      int
	attrs  []xml.Name
	values map[xml.Name]*values
	kids   []*class
	cards  map[*class]map[int]int
	text   values
}

func newClass(n xml.Name) *class {
	return &class{name: n, values: map[xml.Name]*values{}, cards: map[*class]map[int]int{}}
}

func (c *class) leaf() bool { return len(c.attrs)+len(c.kids) == 0 }

func (c *class) see(e *elem) {
	c.n++
	for _, a := range e.attrs {
		if c.values[a.Name] == nil {
			c.values[a.Name] = &values{}
			c.attrs = append(c.attrs, a.Name)
		}
		c.values[a.Name].add(a.Value)
	}
	here := map[*class]int{}
	t := ""
	for _, k := range e.kids {
		switch k := k.(type) {
		case *elem:
			var kc *class
			for _, o := range c.kids {
				if o.name == k.name {
					kc = o
				}
			}
			if kc == nil {
				kc = newClass(k.name)
				c.kids = append(c.kids, kc)
				c.cards[kc] = map[int]int{}
			}
			here[kc]++
			kc.see(k)
		case string:
			t += k
		case xml.CharData:
			t += string(k)
		}
	}
	for kc, n := range here {
		c.cards[kc][n]++
	}
	c.text.add(t)
}

func classes(roots []*elem) (out []*class) {
next:
	for _, r := range roots {
		for _, c := range out {
			if c.name == r.name {
				c.see(r)
				continue next
			}
		}
		c := newClass(r.name)
		out = append(out, c)
		c.see(r)
	}
	return
}

// typ is the most specific type of all the values; ok is false if it is not
// specified whether they are floats: then it may be double or string, but an integer is decimal.
func (v *values) typ() (name string, ok bool) {
	name, ok = "int64", true
	for s := range v.counts {
		if _, is := numref.Int(s, 64, true); is {
			continue
		}
		_, is, known := numref.Float(s, 64)
		if !known {
			ok = false
		} else if !is {
			return "string", true
		} else {
			name = "double"
		}
	}
	return
}

func (v *values) comment() string {
	type vc struct {
		s string
		n int
	}
	var all []vc
	total := 0
	for s, n := range v.counts {
		all = append(all, vc{s, n})
		total += n
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].n != all[j].n {
			return all[i].n > all[j].n
		}
		return all[i].s < all[j].s
	})
	shown := all
	if len(shown) > 5 {
		shown = shown[:5]
	}
	out := fmt.Sprintf("inferred type from %d examples, %d unique values (showing first %d):", total, len(all), len(shown))
	for _, x := range shown {
		out += fmt.Sprintf("\n- %q (%d)", x.s, x.n)
	}
	return out
}

func clean(s string) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	for i := range lines {
		lines[i] = strings.TrimSpace(lines[i])
	}
	return strings.Join(lines, "\n")
}

// plain names are spelled the same way in XML and in the file, but for the first letter.
func plain(n xml.Name) bool {
	return n.Space == "" && strings.Trim(n.Local, "abcdefghijklmnopqrstuvwxyz") == ""
}

func parseProto(src string) (*desc.FileDescriptor, error) {
	p := protoparse.Parser{IncludeSourceCodeInfo: true, Accessor: func(string) (io.ReadCloser, error) {
		return io.NopCloser(strings.NewReader(src)), nil
	}}
	fs, err := p.ParseFiles("f.proto")
	if err != nil {
		return nil, err
	}
	return fs[0], nil
}

// infer runs the code under test.
func infer(tr xml.TokenReader) (string, error) {
	r, err := xmlinfer.Infer(tr)
	if err != nil {
		return "", err
	}
	s, err := r.ProtoFile()
	if err != nil {
		return "", err
	}
	if again, err := r.ProtoFile(); err != nil || again != s {
		return "", fmt.Errorf("asked again, the result gives %v\n%s\ninstead of\n%s", err, again, s)
	}
	return s, nil
}

// judge compares what the code under test makes of the tokens with the model of the elements.
func judge(t *kit.T, tr xml.TokenReader, roots []*elem) (out string) {
	cs := classes(roots)
	s, err := infer(tr)
	if err != nil {
		t.Failf("no file: %v", err)
		return
	}
	f, err := parseProto(s)
	if err != nil {
		t.Failf("the file is not valid: %v\n%s", err, s)
		return
	}
	if !f.IsProto3() || len(f.GetEnumTypes())+len(f.GetExtensions())+len(f.GetServices())+len(f.GetDependencies()) != 0 {
		t.Failf("the file holds other things than messages\n%s", s)
	}
	msgs := f.GetMessageTypes()
	used := map[*desc.MessageDescriptor]bool{}
	plainNames := map[string]int{}
	var count func(c *class)
	allPlain := true
	count = func(c *class) {
		if !plain(c.name) {
			allPlain = false
		}
		if !c.leaf() {
			plainNames[c.name.Local]++
		}
		for _, k := range c.kids {
			count(k)
		}
	}
	for _, c := range cs {
		count(c)
	}
	var compare func(c *class, m *desc.MessageDescriptor, path string)
	compare = func(c *class, m *desc.MessageDescriptor, path string) {
		if used[m] {
			t.Failf("%s: its message %s is another element's, too\n%s", path, m.GetName(), s)
			return
		}
		used[m] = true
		if allPlain && plainNames[c.name.Local] == 1 {
			if want := strings.ToUpper(c.name.Local[:1]) + c.name.Local[1:]; m.GetName() != want {
				t.Failf("%s: its message is called %s instead of %s\n%s", path, m.GetName(), want, s)
			}
		}
		fields := m.GetFields()
		if len(fields) != len(c.attrs)+len(c.kids) {
			t.Failf("%s: message %s has %d fields for %d attributes and %d children\n%s", path, m.GetName(), len(fields), len(c.attrs), len(c.kids), s)
			return
		}
		var kids []string
		for _, k := range c.kids {
			kids = append(kids, strings.ToUpper(k.name.Local[:1])+k.name.Local[1:])
		}
		comment := fmt.Sprintf("%d attrFields, %d elemFields: %s, based on %d examples", len(c.attrs), len(c.kids), strings.Join(kids, ", "), c.n)
		if got := clean(m.GetSourceInfo().GetLeadingComments()); allPlain && got != comment {
			t.Failf("%s: the comment of message %s is\n%s\ninstead of\n%s", path, m.GetName(), got, comment)
		}
		one := func(i int, n xml.Name, v *values, sub *class, cards map[int]int, dup bool) {
			fd := fields[i]
			here := fmt.Sprintf("%s/%s", path, n.Local)
			if fd.GetNumber() != int32(i+1) {
				t.Failf("%s: its field %s has number %d instead of %d\n%s", here, fd.GetName(), fd.GetNumber(), i+1, s)
			}
			if plain(n) && !dup && fd.GetName() != n.Local {
				t.Failf("%s: its field is called %s\n%s", here, fd.GetName(), s)
			}
			rep := false
			for k := range cards {
				rep = rep || k > 1
			}
			if fd.IsRepeated() != rep {
				t.Failf("%s: repeated is %v instead of %v\n%s", here, fd.IsRepeated(), rep, s)
			}
			got := strings.TrimPrefix(strings.ToLower(fd.GetType().String()), "type_")
			comment := ""
			if sub != nil {
				if got != "message" {
					t.Failf("%s: has type %s instead of a message\n%s", here, got, s)
					return
				}
				compare(sub, fd.GetMessageType(), here)
				comment = fmt.Sprintf("Cardinalities in parent: %v.", cards)
			} else {
				if want, ok := v.typ(); got != want && (ok || got != "double" && got != "string") {
					t.Failf("%s: has type %s instead of %s\n%s", here, got, want, s)
				}
				comment = v.comment()
			}
			if c := clean(fd.GetSourceInfo().GetLeadingComments()); c != comment {
				t.Failf("%s: the comment of field %s is\n%s\ninstead of\n%s", here, fd.GetName(), c, comment)
			}
		}
		names := map[string]int{}
		for _, a := range c.attrs {
			names[a.Local]++
		}
		for _, k := range c.kids {
			names[k.name.Local]++
		}
		simple := true
		for n := range names {
			simple = simple && plain(xml.Name{Local: n})
		}
		for i, a := range c.attrs {
			one(i, a, c.values[a], nil, nil, !simple || names[a.Local] > 1)
		}
		for i, k := range c.kids {
			if k.leaf() {
				one(len(c.attrs)+i, k.name, &k.text, nil, c.cards[k], !simple || names[k.name.Local] > 1)
			} else {
				one(len(c.attrs)+i, k.name, nil, k, c.cards[k], !simple || names[k.name.Local] > 1)
			}
		}
	}
	// The message of a root is the one that has its name and is not that of a child; with plain, unrepeated names it is
	// found by name, else by trying every message that no field refers to, in order.
	var free []*desc.MessageDescriptor
	inner := map[*desc.MessageDescriptor]bool{}
	for _, m := range msgs {
		for _, fd := range m.GetFields() {
			if k := fd.GetMessageType(); k != nil {
				inner[k] = true
			}
		}
	}
	for _, m := range msgs {
		if !inner[m] {
			free = append(free, m)
		}
	}
	var want []*class
	for _, c := range cs {
		if !c.leaf() {
			want = append(want, c)
		}
	}
	if len(free) != len(want) {
		t.Failf("%d messages are no child's, but there are %d kinds of root elements\n%s", len(free), len(want), s)
		return s
	}
	for _, c := range want {
		i := 0
		for j, m := range free {
			if strings.EqualFold(m.GetName(), c.name.Local) {
				i = j
			}
		}
		compare(c, free[i], "/"+c.name.Local)
		free = append(free[:i:i], free[i+1:]...)
	}
	if len(used) != len(msgs) && !t.Failed() {
		t.Failf("%d messages for %d kinds of elements\n%s", len(msgs), len(used), s)
	}
	if len(msgs) == 0 {
		t.Trivial()
	}
	return s
}
