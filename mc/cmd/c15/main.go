// C15: printing a wire path and parsing the text gives the same path, and parsing accepts exactly the path language.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/golang/protobuf/proto"
	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/wirepath"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C15", Level: "model_checking",
		Rule:  "every well-formed path of up to the length bound over an alphabet of elements with every kind of slot at the edges of its range, and long paths; every text up to the length bound over an alphabet of path tokens and of string-literal tokens, compared with a reference parser; every accepted text is printed and parsed again. Non-trivial: the path has a slot or two elements, or the text is accepted",
		Procs: 8,
	}, run)
}

func field(n int32, name string) *pb.WirePath {
	return &pb.WirePath{Element: &pb.WirePath_FieldNumber{FieldNumber: n}, FieldName: name}
}

func self() *pb.WirePath {
	return &pb.WirePath{Element: &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SELF}}
}

func withSlot(n int32, name string, slots []*pb.WirePath) []*pb.WirePath {
	var out []*pb.WirePath
	for _, s := range slots {
		e := field(n, name)
		e.Slot = s.Slot
		out = append(out, e)
	}
	return out
}

var strs = []string{"", "a", "a/b", "]", "\"", "\\", "\\n", "\n", "\r\t\v\a\b\f", "\x00", "\x7f", "é", "日本", "\u00a0", "\u200b", "\ufeff", "😀", "\U000e0001", "\xff", "a\xc3", "\ufffd", "'", "\"]/2[\"", "\"/\"", "\\\"", "%d", " ", "x\\", "\\x41", "\\0101", "a\u2028b", "[0]", ":bool", "0123"}

func slots(small bool) []*pb.WirePath {
	var s []*pb.WirePath
	add := func(w *pb.WirePath) { s = append(s, w) }
	i32 := []int32{0, 1, -1, math.MaxInt32, math.MinInt32}
	i64 := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 31, -1<<31 - 1}
	u32 := []uint32{0, 1, math.MaxUint32}
	u64 := []uint64{0, 1, math.MaxUint64, 1 << 32}
	ss := strs
	if small {
		i32, i64, u32, u64 = []int32{-7}, []int64{math.MinInt64}, []uint32{math.MaxUint32}, []uint64{math.MaxUint64}
		ss = []string{"", "a/b", "\"]/2[\"", "\\", "\u200b\n"}
	}
	for _, v := range ss {
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyString{MapKeyString: v}})
	}
	for _, v := range []int64{0, 1, 10, math.MaxInt64} {
		add(&pb.WirePath{Slot: &pb.WirePath_RepeatedFieldOffset{RepeatedFieldOffset: v}})
		if small {
			break
		}
	}
	for _, v := range i32 {
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyInt32{MapKeyInt32: v}})
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeySint32{MapKeySint32: v}})
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeySfixed32{MapKeySfixed32: v}})
	}
	for _, v := range i64 {
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyInt64{MapKeyInt64: v}})
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeySint64{MapKeySint64: v}})
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeySfixed64{MapKeySfixed64: v}})
	}
	for _, v := range u32 {
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyUint32{MapKeyUint32: v}})
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyFixed32{MapKeyFixed32: v}})
	}
	for _, v := range u64 {
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyUint64{MapKeyUint64: v}})
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyFixed64{MapKeyFixed64: v}})
	}
	for _, v := range []bool{false, true} {
		add(&pb.WirePath{Slot: &pb.WirePath_MapKeyBool{MapKeyBool: v}})
	}
	return s
}

func chain(elems []*pb.WirePath) *pb.WirePath {
	var head *pb.WirePath
	for i := len(elems) - 1; i >= 0; i-- {
		e := proto.Clone(elems[i]).(*pb.WirePath)
		e.Child = head
		head = e
	}
	return head
}

func eq(a, b *pb.WirePath) bool {
	for {
		if a == nil || b == nil {
			return a == b
		}
		x, y := *a, *b
		x.Child, y.Child = nil, nil
		if a.FieldName != b.FieldName || fmt.Sprintf("%#v", deref(a.Element)) != fmt.Sprintf("%#v", deref(b.Element)) || fmt.Sprintf("%#v", deref(a.Slot)) != fmt.Sprintf("%#v", deref(b.Slot)) {
			return false
		}
		a, b = a.Child, b.Child
	}
}

func deref(v interface{}) interface{} {
	switch v := v.(type) {
	case *pb.WirePath_FieldNumber:
		return *v
	case *pb.WirePath_SpecialPath_:
		return *v
	case *pb.WirePath_RepeatedFieldOffset:
		return *v
	case *pb.WirePath_MapKeyString:
		return *v
	case *pb.WirePath_MapKeyInt32:
		return *v
	case *pb.WirePath_MapKeyInt64:
		return *v
	case *pb.WirePath_MapKeyUint32:
		return *v
	case *pb.WirePath_MapKeyUint64:
		return *v
	case *pb.WirePath_MapKeySint32:
		return *v
	case *pb.WirePath_MapKeySint64:
		return *v
	case *pb.WirePath_MapKeyFixed32:
		return *v
	case *pb.WirePath_MapKeyFixed64:
		return *v
	case *pb.WirePath_MapKeySfixed32:
		return *v
	case *pb.WirePath_MapKeySfixed64:
		return *v
	case *pb.WirePath_MapKeyBool:
		return *v
	}
	return v
}

func show(p *pb.WirePath) string {
	var s []string
	for ; p != nil; p = p.Child {
		s = append(s, fmt.Sprintf("{%T%+v %s %T%+v}", deref(p.Element), deref(p.Element), p.FieldName, deref(p.Slot), deref(p.Slot)))
	}
	return strings.Join(s, " ")
}

// round checks that the path prints to a text that parses to it.
func round(c *kit.C, elems []*pb.WirePath) {
	p := chain(elems)
	c.CaseF(func() string { return "path " + show(p) }, func(t *kit.T) {
		if len(elems) < 2 && elems[0].Slot == nil {
			t.Trivial()
		}
		t.Outcome(fmt.Sprintf("printed %d elements", len(elems)))
		want := proto.Clone(p).(*pb.WirePath)
		w, err := wirepath.FromProto(p)
		if err != nil {
			t.Failf("FromProto: %v", err)
			return
		}
		if w.Proto() != p {
			t.Failf("Proto() is not the message the path was made of")
		}
		text := w.String()
		if again := w.String(); again != text {
			t.Failf("printed %q and then %q", text, again)
		}
		if !eq(p, want) {
			t.Failf("printing changed the path")
		}
		if r, ok, _ := ref(text); !ok || !eq(r, p) {
			t.Failf("printed as %q, which does not denote the path", text)
		}
		got, err := wirepath.ParseString(text)
		if err != nil {
			t.Failf("printed as %q, which does not parse: %v", text, err)
			return
		}
		if got == nil || !eq(got.Proto(), p) {
			t.Failf("printed as %q, which parses to %s", text, showW(got))
		}
		if m := wirepath.MustParse(text); m == nil || !eq(m.Proto(), p) {
			t.Failf("MustParse(%q) = %s", text, showW(m))
		}
	})
}

func showW(w *wirepath.WirePath) string {
	if w == nil {
		return "nil"
	}
	return show(w.Proto())
}

// ref is the reference parser. free is set for texts whose meaning nothing documents.
func ref(text string) (p *pb.WirePath, ok, free bool) {
	text = strings.TrimSpace(text)
	if text == "" {
		return nil, true, false
	}
	var parts []string
	cur, inStr := "", false
	for i := 0; i < len(text); i++ {
		b := text[i]
		switch {
		case inStr && b == '\\' && i+1 < len(text):
			cur += text[i : i+2]
			i++
			continue
		case b == '"':
			inStr = !inStr
		case b == '/' && !inStr:
			parts = append(parts, cur)
			cur = ""
			continue
		}
		cur += string([]byte{b})
	}
	parts = append(parts, cur)
	if parts[len(parts)-1] == "" {
		free = true // a slash at the end
		parts = parts[:len(parts)-1]
	}
	var elems []*pb.WirePath
	for _, s := range parts {
		e, ok, f := refElem(s)
		if f {
			free = true
		} else if !ok {
			return nil, false, free
		}
		elems = append(elems, e)
	}
	for _, e := range elems {
		if free && e == nil {
			return nil, false, true
		}
	}
	// Of a free text is said only what it means if it is taken at all.
	return chain(elems), !free, free
}

func digits(s string) int {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	return n
}

func identLen(s string) int {
	n := 0
	for n < len(s) {
		b := s[n]
		if b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || n > 0 && (b == '_' || b >= '0' && b <= '9') {
			n++
			continue
		}
		break
	}
	return n
}

func refElem(s string) (e *pb.WirePath, ok, free bool) {
	if s == "." {
		return self(), true, false
	}
	n := digits(s)
	if n == 0 {
		return nil, false, false
	}
	v, _ := new(big.Int).SetString(s[:n], 10)
	if v.Cmp(big.NewInt(math.MaxInt32)) > 0 {
		return nil, false, false
	}
	free = s[0] == '0'
	e = field(int32(v.Int64()), "")
	s = s[n:]
	if strings.HasPrefix(s, "(") {
		k := identLen(s[1:])
		if k == 0 || !strings.HasPrefix(s[1+k:], ")") {
			return nil, false, false
		}
		e.FieldName = s[1 : 1+k]
		s = s[2+k:]
	}
	if s == "" {
		return e, true, free
	}
	if len(s) < 3 || s[0] != '[' || s[len(s)-1] != ']' {
		return nil, false, false
	}
	s = s[1 : len(s)-1]
	if s[0] == '"' {
		str, ok, f := refString(s)
		if !ok {
			return nil, false, false
		}
		e.Slot = &pb.WirePath_MapKeyString{MapKeyString: str}
		if f {
			return nil, false, true
		}
		return e, true, free
	}
	num, typ := s, ""
	if i := strings.IndexByte(s, ':'); i >= 0 {
		num, typ = s[:i], s[i+1:]
		if k := identLen(typ); k == 0 || k != len(typ) {
			return nil, false, false
		}
	}
	abs := num
	if strings.HasPrefix(abs, "+") {
		free = true
		abs = abs[1:]
	} else if strings.HasPrefix(abs, "-") {
		abs = abs[1:]
		if abs == "0" {
			free = true
		}
	}
	if k := digits(abs); k == 0 || k != len(abs) || len(abs) > 1 && abs[0] == '0' {
		return nil, false, false
	}
	v, _ = new(big.Int).SetString(abs, 10)
	if strings.HasPrefix(num, "-") {
		v.Neg(v)
	}
	in := func(lo, hi string) bool {
		l, _ := new(big.Int).SetString(lo, 10)
		h, _ := new(big.Int).SetString(hi, 10)
		return v.Cmp(l) >= 0 && v.Cmp(h) <= 0
	}
	const min32, max32, maxU32 = "-2147483648", "2147483647", "4294967295"
	const min64, max64, maxU64 = "-9223372036854775808", "9223372036854775807", "18446744073709551615"
	switch strings.ToLower(typ) {
	case "":
		if !in(min64, max64) {
			return nil, false, free
		}
		e.Slot = &pb.WirePath_RepeatedFieldOffset{RepeatedFieldOffset: v.Int64()}
	case "bool":
		if !in("0", "1") {
			return nil, false, free
		}
		e.Slot = &pb.WirePath_MapKeyBool{MapKeyBool: v.Sign() > 0}
	case "int32", "sint32", "sfixed32":
		if !in(min32, max32) {
			return nil, false, free
		}
		x := int32(v.Int64())
		switch strings.ToLower(typ) {
		case "int32":
			e.Slot = &pb.WirePath_MapKeyInt32{MapKeyInt32: x}
		case "sint32":
			e.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: x}
		default:
			e.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: x}
		}
	case "int64", "sint64", "sfixed64":
		if !in(min64, max64) {
			return nil, false, free
		}
		x := v.Int64()
		switch strings.ToLower(typ) {
		case "int64":
			e.Slot = &pb.WirePath_MapKeyInt64{MapKeyInt64: x}
		case "sint64":
			e.Slot = &pb.WirePath_MapKeySint64{MapKeySint64: x}
		default:
			e.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: x}
		}
	case "uint32", "fixed32":
		if !in("0", maxU32) {
			return nil, false, free
		}
		x := uint32(v.Uint64())
		if strings.ToLower(typ) == "uint32" {
			e.Slot = &pb.WirePath_MapKeyUint32{MapKeyUint32: x}
		} else {
			e.Slot = &pb.WirePath_MapKeyFixed32{MapKeyFixed32: x}
		}
	case "uint64", "fixed64":
		if !in("0", maxU64) {
			return nil, false, free
		}
		x := v.Uint64()
		if strings.ToLower(typ) == "uint64" {
			e.Slot = &pb.WirePath_MapKeyUint64{MapKeyUint64: x}
		} else {
			e.Slot = &pb.WirePath_MapKeyFixed64{MapKeyFixed64: x}
		}
	default:
		return nil, false, free
	}
	return e, true, free
}

func hexv(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return -1
}

// refString reads a whole double-quoted literal.
func refString(s string) (out string, ok, free bool) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", false, false
	}
	s = s[1 : len(s)-1]
	var b []byte
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == 0 || c == '\n' || c == '"':
			return "", false, false
		case c != '\\':
			b = append(b, c)
			i++
		default:
			if i+1 >= len(s) {
				return "", false, false
			}
			k := strings.IndexByte(`abfnrtv\'"`, s[i+1])
			switch {
			case k >= 0:
				b = append(b, "\a\b\f\n\r\t\v\\'\""[k])
				i += 2
			case (s[i+1] == 'x' || s[i+1] == 'X') && i+3 < len(s) && hexv(s[i+2]) >= 0 && hexv(s[i+3]) >= 0:
				b = append(b, byte(hexv(s[i+2])<<4|hexv(s[i+3])))
				i += 4
			case s[i+1] >= '0' && s[i+1] <= '7':
				// The tests read \0ddd as octal where the protobuf language has \ddd: only \0ddd is checked.
				if s[i+1] == '0' && i+4 < len(s) && s[i+2] >= '0' && s[i+2] <= '3' && s[i+3] >= '0' && s[i+3] <= '7' && s[i+4] >= '0' && s[i+4] <= '7' {
					b = append(b, (s[i+2]-'0')<<6|(s[i+3]-'0')<<3|(s[i+4]-'0'))
					i += 5
					continue
				}
				if s[i+1] == '0' && i+4 < len(s) && s[i+2] >= '4' && s[i+2] <= '7' && s[i+3] >= '0' && s[i+3] <= '7' && s[i+4] >= '0' && s[i+4] <= '7' {
					return "", false, false // no byte
				}
				return "", true, true
			default:
				return "", false, false
			}
		}
	}
	return string(b), true, false
}

func text(c *kit.C, s string) {
	c.CaseF(func() string { return fmt.Sprintf("text %q", s) }, func(t *kit.T) {
		want, ok, free := ref(s)
		got, err := wirepath.ParseString(s)
		if !ok && !free {
			t.Trivial()
		}
		switch {
		case free:
			t.Outcome("text with no documented meaning")
			if want != nil && err == nil && (got == nil || !eq(got.Proto(), want)) {
				t.Failf("parses to %s, but could only mean %s", showW(got), show(want))
			}
		case ok:
			t.Outcome("text accepted")
			if err != nil {
				t.Failf("refused: %v", err)
				return
			}
			if want == nil {
				if got != nil && got.Proto() != nil {
					t.Failf("parses to %s, want nothing", showW(got))
				}
				if got.String() != "" {
					t.Failf("the empty path prints as %q", got.String())
				}
				return
			}
			if got == nil || !eq(got.Proto(), want) {
				t.Failf("parses to %s, want %s", showW(got), show(want))
				return
			}
		default:
			t.Outcome("text refused")
			if err == nil {
				t.Failf("accepted as %s", showW(got))
			}
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				wirepath.MustParse(s)
				return
			}()
			if !panicked {
				t.Failf("MustParse accepts it")
			}
		}
		if err == nil && got != nil && got.Proto() != nil && !free {
			again, err := wirepath.ParseString(got.String())
			if err != nil {
				t.Failf("prints as %q, which does not parse: %v", got.String(), err)
			} else if !eq(again.Proto(), got.Proto()) {
				t.Failf("prints as %q, which parses to %s", got.String(), showW(again))
			}
		}
	})
}

func run(c *kit.C) {
	full := slots(false)
	var one []*pb.WirePath
	for _, n := range []int32{1, 10, 999, 19999, 536870911, math.MaxInt32} {
		for _, name := range []string{"", "a", "A_1", "fieldName", "Z9_"} {
			one = append(one, field(n, name))
			one = append(one, withSlot(n, name, full)...)
		}
	}
	one = append(one, self())
	for _, e := range one {
		round(c, []*pb.WirePath{e})
	}
	two := append(withSlot(7, "", full), field(1, ""), field(12, "x_y"), self())
	for _, a := range two {
		for _, b := range two {
			round(c, []*pb.WirePath{a, b})
		}
	}
	small := append(withSlot(3, "n", slots(true)), field(2, ""), self())
	if !c.Thorough() {
		small = append(small[:8], small[len(small)-6:]...)
	}
	depth := c.Pick(4, 4)
	for d := 3; d <= depth; d++ {
		kit.Seqs(len(small), d, func(idx []int) bool {
			var es []*pb.WirePath
			for _, i := range idx {
				es = append(es, small[i])
			}
			round(c, es)
			return !c.Stop()
		})
	}
	lengths := []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, c.Pick(5000, 20000)}
	for n := 5; n <= 40; n++ {
		lengths = append(lengths, n)
	}
	for _, n := range lengths {
		for s := 0; s < len(small); s++ {
			var es []*pb.WirePath
			for i := 0; i < n; i++ {
				es = append(es, small[(i*5+s)%len(small)])
			}
			round(c, es)
		}
	}
	tokens := []string{"1", "0", "23", ".", "/", "(", "a", ")", "[", "]", "-", ":", "int32", "BOOL", `"`, `\`, " ", "[4]", "(b)", `["k"]`}
	kit.Strings(tokens, c.Pick(5, 6), func(parts []string) bool {
		text(c, strings.Join(parts, ""))
		return !c.Stop()
	})
	lit := []string{"a", "/", "]", `"`, `\\`, `\"`, `\'`, `\n`, `\x41`, `\XfF`, `\x4`, `\q`, `\`, "é", "\n", "\x00", `\0101`, `\0777`, "\xff", "1"}
	kit.Strings(lit, c.Pick(5, 6), func(parts []string) bool {
		text(c, `1["`+strings.Join(parts, "")+`"]`)
		if len(parts) < 4 {
			text(c, `2["`+strings.Join(parts, "")+`"]/3["`+strings.Join(parts, "")+`"]`)
		}
		return !c.Stop()
	})
	types := []string{"", ":int32_value", ":uint32_value", ":bool_", ":int32 ", ": int32", ":map_key_int32", ":int", ":int320", ":int32", ":sint32", ":sfixed32", ":int64", ":sint64", ":sfixed64", ":uint32", ":fixed32", ":uint64", ":fixed64", ":bool", ":string", ":Int64", ":FIXED32", ":float", ":"}
	for _, ty := range types {
		for b := uint(0); b <= 65; b++ {
			for _, d := range []int64{-2, -1, 0, 1, 2} {
				v := new(big.Int).Lsh(big.NewInt(1), b)
				v.Add(v, big.NewInt(d))
				text(c, fmt.Sprintf("5[%s%s]", v, ty))
				text(c, fmt.Sprintf("5(f)[%s%s]/6", v.Neg(v), ty))
				if ty == "" {
					text(c, new(big.Int).Abs(v).String())
				}
			}
		}
	}
}
