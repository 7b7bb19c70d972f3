// C16: reading a value by its path gives exactly the value at that place, and an error where there is none.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/proto/wirepath/testproto"
	"github.com/google/xtoproto/wirepath"
	"google.golang.org/protobuf/encoding/prototext"
	protov2 "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C16", Level: "model_checking",
		Rule:  "every path of up to the length bound over an alphabet of fields (known, unknown, zero, negative), self references and slots (offsets inside, at and past the end and negative, keys of every kind, present, absent and of the wrong type), evaluated in every message of a list (empty, filled, nested) of a dynamic type with all kinds of field and of a generated type; then lists and maps of up to 300 (thorough 1025) elements and values up to 257 (1001) levels down; compared with a reference evaluator over an own value tree. Non-trivial: the path has a slot or two elements",
		Procs: 8,
	}, run)
}

// msg is the harness's own value tree: scalars, *msg, []interface{} and map[interface{}]interface{}.
type msg struct {
	f map[int32]interface{}
}

func m(kv ...interface{}) *msg {
	r := &msg{map[int32]interface{}{}}
	for i := 0; i < len(kv); i += 2 {
		r.f[int32(kv[i].(int))] = kv[i+1]
	}
	return r
}

type lst = []interface{}
type mp = map[interface{}]interface{}

func build(dst protoreflect.Message, v *msg) {
	scalar := func(x interface{}) protoreflect.Value { return protoreflect.ValueOf(x) }
	for n, x := range v.f {
		fd := dst.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(n))
		switch x := x.(type) {
		case lst:
			l := dst.Mutable(fd).List()
			for _, e := range x {
				if sub, ok := e.(*msg); ok {
					el := l.NewElement()
					build(el.Message(), sub)
					l.Append(el)
				} else {
					l.Append(scalar(e))
				}
			}
		case mp:
			mm := dst.Mutable(fd).Map()
			for k, e := range x {
				if sub, ok := e.(*msg); ok {
					el := mm.NewValue()
					build(el.Message(), sub)
					mm.Set(scalar(k).MapKey(), el)
				} else {
					mm.Set(scalar(k).MapKey(), scalar(e))
				}
			}
		case *msg:
			build(dst.Mutable(fd).Message(), x)
		default:
			dst.Set(fd, scalar(x))
		}
	}
}

func canonModel(x interface{}) string {
	switch x := x.(type) {
	case *msg:
		var s []string
		for n, v := range x.f {
			s = append(s, fmt.Sprintf("%d=%s", n, canonModel(v)))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, " ") + "}"
	case lst:
		var s []string
		for _, v := range x {
			s = append(s, canonModel(v))
		}
		return "[" + strings.Join(s, " ") + "]"
	case mp:
		var s []string
		for k, v := range x {
			s = append(s, fmt.Sprintf("%T %v:%s", k, k, canonModel(v)))
		}
		sort.Strings(s)
		return "map(" + strings.Join(s, " ") + ")"
	}
	return fmt.Sprintf("%T %v", x, x)
}

func canonReal(v protoreflect.Value) string {
	if !v.IsValid() {
		return "absent"
	}
	switch x := v.Interface().(type) {
	case protoreflect.Message:
		var s []string
		x.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			s = append(s, fmt.Sprintf("%d=%s", fd.Number(), canonReal(v)))
			return true
		})
		sort.Strings(s)
		return "{" + strings.Join(s, " ") + "}"
	case protoreflect.List:
		var s []string
		for i := 0; i < x.Len(); i++ {
			s = append(s, canonReal(x.Get(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case protoreflect.Map:
		var s []string
		x.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
			s = append(s, fmt.Sprintf("%T %v:%s", k.Interface(), k.Interface(), canonReal(v)))
			return true
		})
		sort.Strings(s)
		return "map(" + strings.Join(s, " ") + ")"
	default:
		return fmt.Sprintf("%T %v", x, x)
	}
}

type result struct {
	ok   bool
	val  string
	free bool // value or error: nothing documents which
}

func zero(fd protoreflect.FieldDescriptor) interface{} {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return false
	case protoreflect.EnumKind:
		return fd.Enum().Values().Get(0).Number()
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return int32(0)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return int64(0)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return uint32(0)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return uint64(0)
	case protoreflect.FloatKind:
		return float32(0)
	case protoreflect.DoubleKind:
		return float64(0)
	case protoreflect.StringKind:
		return ""
	case protoreflect.BytesKind:
		return []byte{}
	}
	return m()
}

// slotKey gives the key, its kind, and whether the slot is an offset.
func slotKey(p *pb.WirePath) (k interface{}, kind protoreflect.Kind, offset bool) {
	switch s := p.Slot.(type) {
	case *pb.WirePath_RepeatedFieldOffset:
		return s.RepeatedFieldOffset, 0, true
	case *pb.WirePath_MapKeyString:
		return s.MapKeyString, protoreflect.StringKind, false
	case *pb.WirePath_MapKeyBool:
		return s.MapKeyBool, protoreflect.BoolKind, false
	case *pb.WirePath_MapKeyInt32:
		return s.MapKeyInt32, protoreflect.Int32Kind, false
	case *pb.WirePath_MapKeySint32:
		return s.MapKeySint32, protoreflect.Sint32Kind, false
	case *pb.WirePath_MapKeySfixed32:
		return s.MapKeySfixed32, protoreflect.Sfixed32Kind, false
	case *pb.WirePath_MapKeyInt64:
		return s.MapKeyInt64, protoreflect.Int64Kind, false
	case *pb.WirePath_MapKeySint64:
		return s.MapKeySint64, protoreflect.Sint64Kind, false
	case *pb.WirePath_MapKeySfixed64:
		return s.MapKeySfixed64, protoreflect.Sfixed64Kind, false
	case *pb.WirePath_MapKeyUint32:
		return s.MapKeyUint32, protoreflect.Uint32Kind, false
	case *pb.WirePath_MapKeyFixed32:
		return s.MapKeyFixed32, protoreflect.Fixed32Kind, false
	case *pb.WirePath_MapKeyUint64:
		return s.MapKeyUint64, protoreflect.Uint64Kind, false
	case *pb.WirePath_MapKeyFixed64:
		return s.MapKeyFixed64, protoreflect.Fixed64Kind, false
	}
	panic("slot")
}

func goType(k protoreflect.Kind) string {
	switch k {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return "int32"
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return "int64"
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return "uint32"
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return "uint64"
	}
	return k.String()
}

func eval(md protoreflect.MessageDescriptor, cur *msg, p *pb.WirePath) result {
	free := false
	for {
		if p == nil {
			return result{true, canonModel(cur), free}
		}
		var val interface{}
		var sub protoreflect.MessageDescriptor
		_, isField := p.Element.(*pb.WirePath_FieldNumber)
		if !isField {
			if p.Slot != nil {
				return result{free: free}
			}
			val, sub = cur, md
		} else {
			fd := md.Fields().ByNumber(protoreflect.FieldNumber(p.GetFieldNumber()))
			if fd == nil {
				return result{free: free}
			}
			v, has := cur.f[p.GetFieldNumber()]
			switch {
			case fd.IsMap():
				if !has {
					v = mp{}
				}
				sub = fd.MapValue().Message()
			case fd.IsList():
				if !has {
					v = lst{}
				}
				sub = fd.Message()
			default:
				if !has {
					v = zero(fd)
				}
				sub = fd.Message()
			}
			val = v
			if p.Slot != nil {
				k, kind, off := slotKey(p)
				switch x := v.(type) {
				case lst:
					i, _ := k.(int64)
					if !off || i < 0 || i >= int64(len(x)) {
						return result{free: free}
					}
					val = x[i]
				case mp:
					if off || goType(kind) != goType(fd.MapKey().Kind()) {
						return result{free: free}
					}
					if kind != fd.MapKey().Kind() {
						free = true // the same Go type under another wire encoding
					}
					e, has := x[k]
					if !has {
						if p.Child != nil {
							return result{free: free}
						}
						return result{true, "absent", free}
					}
					val = e
				default:
					return result{free: free}
				}
			}
		}
		if p.Child == nil {
			return result{true, canonModel(val), free}
		}
		next, isMsg := val.(*msg)
		if !isMsg {
			return result{free: free}
		}
		cur, md, p = next, sub, p.Child
	}
}

const schema = `
name: "t.proto" package: "t" syntax: "proto3"
enum_type { name: "E" value { name: "E0" number: 0 } value { name: "E1" number: 1 } }
message_type { name: "M"
  FIELDS
  nested_type { name: "Leaf" field { name: "leaf" number: 1 type: TYPE_STRING label: LABEL_OPTIONAL } field { name: "up" number: 2 type: TYPE_MESSAGE type_name: ".t.M" label: LABEL_OPTIONAL } }
  NESTED
  oneof_decl { name: "choice" }
}`

var keyTypes = []string{"STRING", "BOOL", "INT32", "SINT32", "SFIXED32", "INT64", "SINT64", "SFIXED64", "UINT32", "FIXED32", "UINT64", "FIXED64"}

func dynType() protoreflect.MessageDescriptor {
	var fields, nested strings.Builder
	f := func(n int, typ, label, extra string) {
		fmt.Fprintf(&fields, "field { name: \"f%d\" number: %d type: TYPE_%s label: LABEL_%s %s }\n", n, n, typ, label, extra)
	}
	for i, t := range []string{"INT32", "UINT64", "DOUBLE", "BOOL", "BYTES", "STRING"} {
		f(i+1, t, "OPTIONAL", "")
	}
	f(7, "ENUM", "OPTIONAL", `type_name: ".t.E"`)
	f(8, "MESSAGE", "OPTIONAL", `type_name: ".t.M"`)
	f(9, "STRING", "REPEATED", "")
	f(10, "MESSAGE", "REPEATED", `type_name: ".t.M"`)
	f(11, "INT32", "OPTIONAL", "oneof_index: 0")
	f(12, "MESSAGE", "OPTIONAL", `type_name: ".t.M.Leaf" oneof_index: 0`)
	f(13, "SINT32", "REPEATED", "")
	for i, k := range keyTypes {
		n := 20 + i
		val := "type: TYPE_INT32"
		if i%2 == 0 {
			val = `type: TYPE_MESSAGE type_name: ".t.M.Leaf"`
		}
		f(n, "MESSAGE", "REPEATED", fmt.Sprintf(`type_name: ".t.M.F%dEntry"`, n))
		fmt.Fprintf(&nested, "nested_type { name: \"F%dEntry\" options { map_entry: true } field { name: \"key\" number: 1 type: TYPE_%s label: LABEL_OPTIONAL } field { name: \"value\" number: 2 %s label: LABEL_OPTIONAL } }\n", n, k, val)
	}
	fdp := &descriptorpb.FileDescriptorProto{}
	if err := prototext.Unmarshal([]byte(strings.Replace(strings.Replace(schema, "FIELDS", fields.String(), 1), "NESTED", nested.String(), 1)), fdp); err != nil {
		panic(err)
	}
	fd, err := protodesc.NewFile(fdp, nil)
	if err != nil {
		panic(err)
	}
	return fd.Messages().ByName("M")
}

func fld(n int32) *pb.WirePath {
	return &pb.WirePath{Element: &pb.WirePath_FieldNumber{FieldNumber: n}}
}

func with(p *pb.WirePath, slot interface{}) *pb.WirePath {
	q := proto.Clone(p).(*pb.WirePath)
	switch s := slot.(type) {
	case nil:
	case int:
		q.Slot = &pb.WirePath_RepeatedFieldOffset{RepeatedFieldOffset: int64(s)}
	case *pb.WirePath:
		q.Slot = s.Slot
	}
	return q
}

var keySlots = []*pb.WirePath{
	{Slot: &pb.WirePath_MapKeyString{MapKeyString: "k"}}, {Slot: &pb.WirePath_MapKeyBool{MapKeyBool: true}},
	{Slot: &pb.WirePath_MapKeyInt32{MapKeyInt32: -5}}, {Slot: &pb.WirePath_MapKeySint32{MapKeySint32: -5}}, {Slot: &pb.WirePath_MapKeySfixed32{MapKeySfixed32: -5}},
	{Slot: &pb.WirePath_MapKeyInt64{MapKeyInt64: -5}}, {Slot: &pb.WirePath_MapKeySint64{MapKeySint64: -5}}, {Slot: &pb.WirePath_MapKeySfixed64{MapKeySfixed64: -5}},
	{Slot: &pb.WirePath_MapKeyUint32{MapKeyUint32: 5}}, {Slot: &pb.WirePath_MapKeyFixed32{MapKeyFixed32: 5}},
	{Slot: &pb.WirePath_MapKeyUint64{MapKeyUint64: 5}}, {Slot: &pb.WirePath_MapKeyFixed64{MapKeyFixed64: 5}},
	{Slot: &pb.WirePath_MapKeyString{MapKeyString: ""}}, {Slot: &pb.WirePath_MapKeyBool{MapKeyBool: false}}, {Slot: &pb.WirePath_MapKeyInt32{MapKeyInt32: 0}},
}

func keyOf(i int) interface{} {
	return []interface{}{"k", true, int32(-5), int32(-5), int32(-5), int64(-5), int64(-5), int64(-5), uint32(5), uint32(5), uint64(5), uint64(5)}[i]
}

func chain(elems []*pb.WirePath) *pb.WirePath {
	var head *pb.WirePath
	for i := len(elems) - 1; i >= 0; i-- {
		e := proto.Clone(elems[i]).(*pb.WirePath)
		e.Child = head
		head = e
	}
	return head
}

type world struct {
	name  string
	md    protoreflect.MessageDescriptor
	model *msg
	make  func() protoreflect.Message
}

func check(c *kit.C, w *world, elems []*pb.WirePath) {
	p := chain(elems)
	c.CaseF(func() string { return fmt.Sprintf("in %s: %v", w.name, p) }, func(t *kit.T) {
		if len(elems) < 2 && (p == nil || p.Slot == nil) {
			t.Trivial()
		}
		in := w.make()
		before := canonReal(protoreflect.ValueOf(in))
		if before != canonModel(w.model) {
			t.Failf("harness: built %s, want %s", before, canonModel(w.model))
			return
		}
		p := chain(elems)
		wp, err := wirepath.FromProto(p)
		if err != nil {
			t.Failf("FromProto: %v", err)
			return
		}
		keep := proto.Clone(p)
		got, err := wirepath.GetValue(wp, in.Interface())
		want := eval(w.md, w.model, p)
		if after := canonReal(protoreflect.ValueOf(in)); after != before {
			t.Failf("reading changed the message to %s", after)
		}
		if p != nil && !proto.Equal(keep, p) {
			t.Failf("reading changed the path")
		}
		switch {
		case err != nil:
			t.Outcome("error")
			if want.ok && !want.free {
				t.Failf("error %v, want %s", err, want.val)
			}
			if got.IsValid() {
				t.Failf("an error came with the value %s", canonReal(got))
			}
		case !want.ok:
			t.Failf("got %s, want an error", canonReal(got))
		default:
			t.Outcome("value")
			if want.val == "absent" {
				t.Outcome("absent")
			}
			if s := canonReal(got); s != want.val {
				t.Failf("got %s, want %s", s, want.val)
			}
		}
	})
}

func run(c *kit.C) {
	md := dynType()
	leaf := func(s string) *msg { return m(1, s) }
	mapsOf := func(v *msg) *msg {
		for i := range keyTypes {
			if i%2 == 0 {
				v.f[int32(20+i)] = mp{keyOf(i): leaf(fmt.Sprint("leaf", i))}
			} else {
				v.f[int32(20+i)] = mp{keyOf(i): int32(100 + i)}
			}
		}
		return v
	}
	full := mapsOf(m(1, int32(-1), 2, uint64(math.MaxUint64), 3, 1.5, 4, true, 5, []byte("b\x00"), 6, "six", 7, protoreflect.EnumNumber(1), 9, lst{"n0", "n1"}, 13, lst{int32(-3)}, 12, m(1, "one", 2, m(6, "via oneof"))))
	nested := m(8, mapsOf(m(6, "child", 10, lst{m(6, "gc0"), m(8, m(6, "deep", 9, lst{"x"}))})), 10, lst{m(), m(6, "c1", 9, lst{"y", "z"}), mapsOf(m(1, int32(7)))}, 11, int32(9))
	emptyKeys := m(20, mp{"": m()}, 21, mp{false: int32(0)}, 22, mp{int32(0): m(2, m(9, lst{"q"}))})
	var worlds []*world
	for _, x := range []struct {
		n string
		v *msg
	}{{"empty", m()}, {"full", full}, {"nested", nested}, {"zero keys", emptyKeys}} {
		x := x
		worlds = append(worlds, &world{x.n, md, x.v, func() protoreflect.Message { d := dynamicpb.NewMessage(md); build(d, x.v); return d }})
	}
	ex := (&testproto.Example{}).ProtoReflect().Descriptor()
	friends := m(1, int32(3), 2, "col", 6, true, 7, lst{"i0", "i1"}, 8, lst{m(2, "c0"), m(10, m(2, "c1 child"))}, 10, m(7, lst{"z"}), 9, mp{int32(-5): "minus five"}, 11, mp{"k": m(8, lst{m(2, "deep")})}, 12, mp{true: m(20000, "Jaya")})
	for _, x := range []struct {
		n string
		v *msg
	}{{"generated empty", m()}, {"generated full", friends}} {
		x := x
		worlds = append(worlds, &world{x.n, ex, x.v, func() protoreflect.Message { e := (&testproto.Example{}).ProtoReflect(); build(e, x.v); return e }})
	}
	worlds = append(worlds, &world{"generated nil", ex, m(), func() protoreflect.Message { return (*testproto.Example)(nil).ProtoReflect() }})

	self := &pb.WirePath{Element: &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SELF}}
	none := &pb.WirePath{}
	numbers := []int32{0, -1, 999, math.MaxInt32, math.MinInt32, 20000, 1 + 1<<8, 2 + 1<<16, 6 + 1<<29, 9 - 1<<31, 9 + 1<<24, -6, 536870911}
	for n := int32(1); n <= 13; n++ {
		numbers = append(numbers, n)
	}
	for i := range keyTypes {
		numbers = append(numbers, int32(20+i))
	}
	var slots []interface{}
	for _, o := range []int{0, 1, 2, 3, -1, math.MaxInt64, math.MinInt64} {
		slots = append(slots, o)
	}
	for _, k := range keySlots {
		slots = append(slots, k)
	}
	slots = append(slots, nil)
	var all []*pb.WirePath
	for _, n := range numbers {
		for _, s := range slots {
			e := with(fld(n), s)
			if n%2 == 0 {
				e.FieldName = "not_the_name"
			}
			all = append(all, e)
		}
	}
	for _, s := range slots {
		all = append(all, with(self, s), with(none, s))
	}
	var mid []*pb.WirePath
	for _, n := range []int32{999, 1, 6, 8, 9, 10, 11, 12, 20, 22, 24} {
		for _, s := range []interface{}{nil, 0, 1, 2, keySlots[0], keySlots[1], keySlots[2], keySlots[12]} {
			mid = append(mid, with(fld(n), s))
		}
	}
	mid = append(mid, self, none)
	for _, w := range worlds {
		check(c, w, nil)
		for _, e := range all {
			check(c, w, []*pb.WirePath{e})
		}
		for _, a := range all {
			for _, b := range mid {
				check(c, w, []*pb.WirePath{a, b})
			}
		}
		for _, a := range mid {
			for _, b := range all {
				check(c, w, []*pb.WirePath{a, b})
			}
			if c.Stop() {
				return
			}
		}
		third := mid
		if !c.Thorough() {
			third = append(append([]*pb.WirePath{}, mid[:0]...), fld(6), fld(2), with(fld(9), 0), with(fld(10), 1), fld(8), with(fld(8), 0), with(fld(20), keySlots[0]), with(fld(11), keySlots[0]), with(fld(22), keySlots[2]), fld(999), self, with(fld(9), -1))
		}
		for _, a := range third {
			for _, b := range third {
				for _, d := range third {
					check(c, w, []*pb.WirePath{a, b, d})
					if !c.Thorough() {
						for _, e := range third {
							check(c, w, []*pb.WirePath{a, b, d, e})
						}
					}
				}
			}
		}
	}
	_ = protov2.Equal
	many(c, md, ex)
}

// keyN is key number n of the kind of key i; the bool kind has two.
func keyN(i, n int) interface{} {
	switch keyOf(i).(type) {
	case string:
		return fmt.Sprintf("key %d", n) + strings.Repeat("é", n)
	case bool:
		return n%2 == 0
	case int32:
		return int32(n*7919 - 1000)
	case int64:
		return int64(n)*(1<<33) - 1000
	case uint32:
		return uint32(n * 14000000)
	}
	return uint64(n) << 40
}

// slotN is a slot with key n of the kind of key i.
func slotN(i, n int) *pb.WirePath {
	p := &pb.WirePath{}
	switch k := keyN(i, n); i {
	case 0:
		p.Slot = &pb.WirePath_MapKeyString{MapKeyString: k.(string)}
	case 1:
		p.Slot = &pb.WirePath_MapKeyBool{MapKeyBool: k.(bool)}
	case 2:
		p.Slot = &pb.WirePath_MapKeyInt32{MapKeyInt32: k.(int32)}
	case 3:
		p.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: k.(int32)}
	case 4:
		p.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: k.(int32)}
	case 5:
		p.Slot = &pb.WirePath_MapKeyInt64{MapKeyInt64: k.(int64)}
	case 6:
		p.Slot = &pb.WirePath_MapKeySint64{MapKeySint64: k.(int64)}
	case 7:
		p.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: k.(int64)}
	case 8:
		p.Slot = &pb.WirePath_MapKeyUint32{MapKeyUint32: k.(uint32)}
	case 9:
		p.Slot = &pb.WirePath_MapKeyFixed32{MapKeyFixed32: k.(uint32)}
	case 10:
		p.Slot = &pb.WirePath_MapKeyUint64{MapKeyUint64: k.(uint64)}
	case 11:
		p.Slot = &pb.WirePath_MapKeyFixed64{MapKeyFixed64: k.(uint64)}
	}
	return p
}

// many reads long lists, big maps, and values many levels down.
func many(c *kit.C, md, ex protoreflect.MessageDescriptor) {
	var idx []int
	dyn := func(name string, v *msg) *world {
		return &world{name, md, v, func() protoreflect.Message { d := dynamicpb.NewMessage(md); build(d, v); return d }}
	}
	gen := func(name string, v *msg) *world {
		return &world{name, ex, v, func() protoreflect.Message { e := (&testproto.Example{}).ProtoReflect(); build(e, v); return e }}
	}
	for _, n := range pickInts(c, []int{9, 16, 17, 100, 129, 257, 300}, []int{9, 16, 17, 33, 64, 65, 100, 129, 257, 300, 1025}) {
		var texts, subs, ints lst
		for i := 0; i < n; i++ {
			texts = append(texts, fmt.Sprint("t", i))
			subs = append(subs, m(6, fmt.Sprint("s", i)))
			ints = append(ints, int32(i*i-50))
		}
		long := m(9, texts, 10, subs, 13, ints)
		var items, kids lst
		for i := 0; i < n; i++ {
			items = append(items, fmt.Sprint("item", i))
			kids = append(kids, m(2, fmt.Sprint("c", i)))
		}
		glong := m(7, items, 8, kids)
		for i := range keyTypes {
			x := mp{}
			for k := 0; k < n; k++ {
				if i%2 == 0 {
					x[keyN(i, k)] = m(1, fmt.Sprint("leaf ", i, k))
				} else {
					x[keyN(i, k)] = int32(k*13 + i)
				}
			}
			long.f[int32(20+i)] = x
		}
		idx = idx[:0]
		for _, i := range []int{0, 1, 7, 8, 9, 10, 15, 16, 31, 32, 99, 100, 127, 128, 255, 256, n / 2, n - 2, n - 1, n, n + 1, n + 256, 1 << 32, 1<<32 + 1, -1, -n} {
			idx = append(idx, i)
		}
		w, g := dyn(fmt.Sprintf("%d of everything", n), long), gen(fmt.Sprintf("generated, %d of everything", n), glong)
		for _, i := range idx {
			check(c, w, []*pb.WirePath{with(fld(9), i)})
			check(c, w, []*pb.WirePath{with(fld(10), i)})
			check(c, w, []*pb.WirePath{with(fld(10), i), fld(6)})
			check(c, w, []*pb.WirePath{with(fld(13), i)})
			check(c, g, []*pb.WirePath{with(fld(7), i)})
			check(c, g, []*pb.WirePath{with(fld(8), i)})
			check(c, g, []*pb.WirePath{with(fld(8), i), fld(2)})
			if i < 0 || i > n+300 {
				continue
			}
			for k := range keyTypes {
				check(c, w, []*pb.WirePath{with(fld(int32(20+k)), slotN(k, i))})
				check(c, w, []*pb.WirePath{with(fld(int32(20+k)), slotN(k, i)), fld(1)})
			}
		}
		if c.Stop() {
			return
		}
	}
	// down builds a message of depth levels, each with every kind of step to the next.
	var down func(depth int, step int) *msg
	down = func(depth, step int) *msg {
		if depth == 0 {
			return m(6, "bottom", 9, lst{"b0", "b1"})
		}
		sub := down(depth-1, step)
		v := m(6, fmt.Sprint("level ", depth))
		switch step {
		case 0:
			v.f[8] = sub
		case 1:
			v.f[10] = lst{m(6, "other"), sub}
		case 2:
			v.f[12] = m(1, "via", 2, sub)
		case 3:
			v.f[20] = mp{"k": m(2, sub), "l": m()}
		}
		return v
	}
	steps := [][]*pb.WirePath{{fld(8)}, {with(fld(10), 1)}, {fld(12), fld(2)}, {with(fld(20), keySlots[0]), fld(2)}}
	for s, st := range steps {
		for _, depth := range pickInts(c, []int{5, 15, 16, 17, 33, 64, 100, 101, 130, 257}, []int{5, 15, 16, 17, 33, 64, 100, 101, 130, 257, 513, 1001}) {
			w := dyn(fmt.Sprintf("%d levels of step %d", depth, s), down(depth, s))
			for _, to := range []int{depth / 2, depth - 1, depth, depth + 1, depth + 2} {
				var p []*pb.WirePath
				for i := 0; i < to; i++ {
					p = append(p, st...)
				}
				for _, last := range [][]*pb.WirePath{nil, {fld(6)}, {fld(9)}, {with(fld(9), 1)}, {with(fld(9), 2)}, {fld(999)}, {{Element: &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SELF}}}} {
					check(c, w, append(append([]*pb.WirePath{}, p...), last...))
				}
				if c.Stop() {
					return
				}
			}
		}
	}
	// The step that stays where it is, many times over.
	self := &pb.WirePath{Element: &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SELF}}
	for _, n := range []int{2, 10, 16, 17, 64, 100, 101, 300} {
		var p []*pb.WirePath
		for i := 0; i < n; i++ {
			p = append(p, self)
		}
		w := dyn("two levels", down(2, 0))
		check(c, w, p)
		check(c, w, append(append([]*pb.WirePath{}, p...), fld(8), fld(6)))
		check(c, w, append(append([]*pb.WirePath{fld(8)}, p...), fld(8), fld(6)))
	}
}

func pickInts(c *kit.C, quick, thorough []int) []int {
	if c.Thorough() {
		return thorough
	}
	return quick
}
