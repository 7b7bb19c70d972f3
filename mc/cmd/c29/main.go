// C29: reflected lists compare with one another and with slices by element type and elements.
package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/google/go-cmp/cmp"
	"github.com/google/xtoproto/proto/wirepath/testproto"
	"github.com/google/xtoproto/verifcmp"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/testing/protocmp"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C29", Level: "model_checking",
		Rule:  "every pair of values, bare and inside other values, with and without the option to ignore element types, even given twice, from: reflected lists of every scalar kind, of enums and of several message types, generated and dynamic, set and unset, with every sequence of up to a number of elements, and of long ones that differ at one place; the slices with the same elements; slices of interfaces and of named types; and values that are no lists. cmp must find them equal, and show no difference, exactly if the reference does. Non-trivial: one of the two is a list",
		Procs: 8,
	}, run)
}

// A val is a value under comparison with what matters about it.
type val struct {
	name  string
	v     interface{}
	list  bool
	typ   string // type of the elements; empty if it is neither list nor slice that compares with lists
	elems []interface{}
}

func equal(a, b *val, ignore bool) bool {
	if a.typ == "" || b.typ == "" || len(a.elems) != len(b.elems) {
		return false
	}
	msg := func(v *val) bool { return v.typ[0] == 'M' }
	if a.typ != b.typ && !(ignore && msg(a) && msg(b)) {
		return false
	}
	for i, x := range a.elems {
		y := b.elems[i]
		switch x := x.(type) {
		case proto.Message:
			if !proto.Equal(x, y.(proto.Message)) {
				return false
			}
		case []byte:
			if !bytes.Equal(x, y.([]byte)) {
				return false
			}
		default:
			if x != y {
				return false
			}
		}
	}
	return true
}

var kinds = []struct {
	t     descriptorpb.FieldDescriptorProto_Type
	typ   string
	elems []interface{}
}{
	{1, "double", []interface{}{1.0, 0.0, -2.5}}, {2, "float", []interface{}{float32(1), float32(0), float32(-2.5)}},
	{3, "int64", []interface{}{int64(1), int64(0), int64(-1)}}, {4, "uint64", []interface{}{uint64(1), uint64(0), uint64(1 << 63)}},
	{5, "int32", []interface{}{int32(1), int32(0), int32(-1)}}, {6, "uint64", []interface{}{uint64(1), uint64(0), uint64(2)}},
	{7, "uint32", []interface{}{uint32(1), uint32(0), uint32(2)}}, {8, "bool", []interface{}{true, false}},
	{9, "string", []interface{}{"", "1", "\x00"}}, {12, "bytes", []interface{}{[]byte{}, []byte("1"), []byte{0}}},
	{13, "uint32", []interface{}{uint32(1), uint32(0), uint32(2)}}, {14, "enum", []interface{}{protoreflect.EnumNumber(0), protoreflect.EnumNumber(1), protoreflect.EnumNumber(7)}},
	{15, "int32", []interface{}{int32(1), int32(0), int32(-1)}}, {16, "int64", []interface{}{int64(1), int64(0), int64(-1)}},
	{17, "int32", []interface{}{int32(1), int32(0), int32(-1)}}, {18, "int64", []interface{}{int64(1), int64(0), int64(-1)}},
}

func slice(elems []interface{}, t reflect.Type, isNil bool) interface{} {
	s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(elems))
	if isNil {
		s = reflect.Zero(reflect.SliceOf(t))
	}
	for _, e := range elems {
		s = reflect.Append(s, reflect.ValueOf(e).Convert(t))
	}
	return s.Interface()
}

type (
	namedInt    int32
	namedString string
	namedSlice  []string
)

func universe(max int) (out []*val) {
	fdp := &descriptorpb.FileDescriptorProto{Name: proto.String("v.proto"), Syntax: proto.String("proto3"), Package: proto.String("v"),
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: proto.String("En"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("A"), Number: proto.Int32(0)}, {Name: proto.String("B"), Number: proto.Int32(1)}}}}}
	m := &descriptorpb.DescriptorProto{Name: proto.String("M")}
	for i, k := range kinds {
		f := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprint("f", i)), Number: proto.Int32(int32(i + 1)), Type: k.t.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()}
		if k.t == 14 {
			f.TypeName = proto.String(".v.En")
		}
		m.Field = append(m.Field, f)
	}
	fdp.MessageType = []*descriptorpb.DescriptorProto{m}
	fd, err := protodesc.NewFile(fdp, nil)
	if err != nil {
		panic(err)
	}
	md := fd.Messages().Get(0)
	seqs := func(pool []interface{}, f func(elems []interface{})) {
		for n := 0; n <= max; n++ {
			kit.Seqs(len(pool), n, func(idx []int) bool {
				elems := []interface{}{}
				for _, i := range idx {
					elems = append(elems, pool[i])
				}
				f(elems)
				return true
			})
		}
	}
	seenType := map[string]bool{}
	for i, k := range kinds {
		fld := md.Fields().Get(i)
		seqs(k.elems, func(elems []interface{}) {
			d := dynamicpb.NewMessage(md)
			for _, e := range elems {
				d.Mutable(fld).List().Append(protoreflect.ValueOf(e))
			}
			out = append(out, &val{fmt.Sprintf("list of %v %v", fld.Kind(), elems), d.Get(fld).List(), true, k.typ, elems})
			if len(elems) == 0 {
				d := dynamicpb.NewMessage(md)
				out = append(out, &val{fmt.Sprintf("mutable list of %v", fld.Kind()), d.Mutable(fld).List(), true, k.typ, elems})
			}
			if !seenType[k.typ] {
				t := reflect.TypeOf(k.elems[0])
				out = append(out, &val{fmt.Sprintf("slice of %v %v", t, elems), slice(elems, t, false), false, k.typ, elems})
				if len(elems) == 0 {
					out = append(out, &val{fmt.Sprintf("nil slice of %v", t), slice(elems, t, true), false, k.typ, elems})
				}
			}
		})
		seenType[k.typ] = true
	}
	// generated lists of scalars
	for _, ss := range [][]string{nil, {""}, {"1"}, {"1", ""}} {
		ex := &testproto.Example{ProtoImports: ss}
		elems := []interface{}{}
		for _, s := range ss {
			elems = append(elems, s)
		}
		out = append(out, &val{fmt.Sprintf("generated list of string %q", ss), ex.ProtoReflect().Get(ex.ProtoReflect().Descriptor().Fields().ByName("proto_imports")).List(), true, "string", elems})
		out = append(out, &val{fmt.Sprintf("named slice of string %q", ss), namedSlice(ss), false, "string", elems})
	}
	// messages
	type fam struct {
		typ  string
		t    reflect.Type
		pool []interface{}
		list func(elems []interface{}) protoreflect.List
	}
	get := func(m proto.Message, f protoreflect.Name) protoreflect.List {
		return m.ProtoReflect().Get(m.ProtoReflect().Descriptor().Fields().ByName(f)).List()
	}
	fams := []fam{
		{"M Example", reflect.TypeOf(&testproto.Example{}), []interface{}{&testproto.Example{}, &testproto.Example{ColName: "1"}, &testproto.Example{Children: []*testproto.Example{{}}}}, func(elems []interface{}) protoreflect.List {
			return get(&testproto.Example{Children: slice(elems, reflect.TypeOf(&testproto.Example{}), true).([]*testproto.Example)}, "children")
		}},
		{"M Value", reflect.TypeOf(&structpb.Value{}), []interface{}{&structpb.Value{}, &structpb.Value{Kind: &structpb.Value_StringValue{StringValue: "1"}}, &structpb.Value{Kind: &structpb.Value_ListValue{ListValue: &structpb.ListValue{Values: []*structpb.Value{{}}}}}}, func(elems []interface{}) protoreflect.List {
			return get(&structpb.ListValue{Values: slice(elems, reflect.TypeOf(&structpb.Value{}), true).([]*structpb.Value)}, "values")
		}},
		{"M FieldDescriptorProto", reflect.TypeOf(&descriptorpb.FieldDescriptorProto{}), []interface{}{&descriptorpb.FieldDescriptorProto{}, &descriptorpb.FieldDescriptorProto{Name: proto.String("")}, &descriptorpb.FieldDescriptorProto{Name: proto.String("1")}}, func(elems []interface{}) protoreflect.List {
			return get(&descriptorpb.DescriptorProto{Field: slice(elems, reflect.TypeOf(&descriptorpb.FieldDescriptorProto{}), true).([]*descriptorpb.FieldDescriptorProto)}, "field")
		}},
	}
	anyMsg := reflect.TypeOf((*proto.Message)(nil)).Elem()
	for _, f := range fams {
		seqs(f.pool, func(elems []interface{}) {
			out = append(out, &val{fmt.Sprintf("list of %s %v", f.typ, elems), f.list(elems), true, f.typ, elems})
			out = append(out, &val{fmt.Sprintf("slice of %s %v", f.typ, elems), slice(elems, f.t, false), false, f.typ, elems})
			out = append(out, &val{fmt.Sprintf("generic slice of %s %v", f.typ, elems), slice(elems, anyMsg, false), false, "M any", elems})
			if len(elems) == 0 {
				out = append(out, &val{"nil slice of " + f.typ, slice(elems, f.t, true), false, f.typ, elems})
			}
		})
	}
	out = append(out, &val{"generic slice of two types", []proto.Message{&testproto.Example{}, &structpb.Value{}}, false, "M any", []interface{}{&testproto.Example{}, &structpb.Value{}}})
	// values that are no lists or compare with none
	for _, x := range []interface{}{nil, 1, "1", &testproto.Example{}, wrapperspb.String("1"), []int{1}, []int{}, []namedInt{1}, []namedString{"1"}, []interface{}{int32(1)}, []interface{}{}, []float64{}, [1]int32{1}, map[string]int32{}, []descriptorpb.FieldDescriptorProto_Type{1}, [][]int32{{1}}, (*int)(nil), struct{}{}} {
		v := &val{fmt.Sprintf("%T %v", x, x), x, false, "", nil}
		if _, ok := x.([]float64); ok {
			v.typ, v.elems = "double", []interface{}{}
		}
		out = append(out, v)
	}
	return
}

type box struct{ V interface{} }

func times(ignore bool) int {
	if ignore {
		return 1
	}
	return 0
}

func run(c *kit.C) {
	vs := universe(c.Pick(2, 3))
	wraps := []struct {
		name string
		f    func(interface{}) interface{}
	}{
		{"", func(x interface{}) interface{} { return x }},
		{"in a pointer ", func(x interface{}) interface{} { return &x }},
		{"in a struct ", func(x interface{}) interface{} { return box{x} }},
		{"in a map ", func(x interface{}) interface{} { return map[string]interface{}{"k": x} }},
		{"in a slice ", func(x interface{}) interface{} { return []interface{}{1, x} }},
	}
	n := int64(0)
	for _, a := range vs {
		for _, b := range vs {
			if !a.list && !b.list {
				continue
			}
			for i, w := range wraps {
				if i > 0 && (len(a.elems) > 1 || len(b.elems) > 1) {
					continue
				}
				for _, ignore := range []bool{false, true} {
					n++
					c.CaseF(func() string { return fmt.Sprintf("%s%s and %s, ignoring types: %v", w.name, a.name, b.name, ignore) }, func(t *kit.T) {
						x, y := w.f(a.v), w.f(b.v)
						want := equal(a, b, ignore)
						opts := cmp.Options{protocmp.Transform(), verifcmp.Transform(times(ignore))}
						if got := cmp.Equal(x, y, opts); got != want {
							t.Failf("Equal gives %v instead of %v", got, want)
						}
						if diff := cmp.Diff(x, y, opts); (diff == "") != want {
							t.Failf("Diff gives %q, but they should be equal: %v", diff, want)
						}
						t.Outcome(fmt.Sprint(a.list, b.list, want, a.typ == b.typ))
					})
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	c.Part("pairs", n)

	// whole messages are compared as without the option
	n = 0
	ex := func(kids ...*testproto.Example) *testproto.Example { return &testproto.Example{Children: kids} }
	msgs := []proto.Message{
		ex(), ex(ex()), ex(ex(), ex()), ex(ex(ex())), ex(&testproto.Example{ColName: "1"}), ex(ex(), &testproto.Example{ProtoImports: []string{"a"}}), ex(ex(), &testproto.Example{ProtoImports: []string{"a", "b"}}),
		&testproto.Example{Child: ex(ex())}, &testproto.Example{ProtoImports: []string{""}}, &testproto.Example{NamedChildren: map[string]*testproto.Example{"k": ex(ex())}}, &testproto.Example{NamedChildren: map[string]*testproto.Example{"k": ex()}},
		&structpb.ListValue{}, &structpb.ListValue{Values: []*structpb.Value{{}}}, &structpb.ListValue{Values: []*structpb.Value{structpb.NewBoolValue(true), {}}},
		&descriptorpb.DescriptorProto{Field: []*descriptorpb.FieldDescriptorProto{{}}}, &descriptorpb.FieldDescriptorProto{Type: descriptorpb.FieldDescriptorProto_TYPE_BOOL.Enum()},
		&descriptorpb.SourceCodeInfo_Location{Path: []int32{1, 2}}, &descriptorpb.SourceCodeInfo_Location{Path: []int32{1, 2, 3}},
	}
	for i, a := range msgs {
		for j, b := range msgs {
			for _, w := range wraps {
				for _, ignore := range []bool{false, true} {
					n++
					c.CaseF(func() string {
						return fmt.Sprintf("messages %s%d %v and %d %v, ignoring types: %v", w.name, i, a, j, b, ignore)
					}, func(t *kit.T) {
						want := i == j
						opts := cmp.Options{protocmp.Transform(), verifcmp.Transform(times(ignore))}
						if got := cmp.Equal(w.f(a), w.f(proto.Clone(b)), opts); got != want {
							t.Failf("Equal gives %v instead of %v", got, want)
						}
						if diff := cmp.Diff(w.f(a), w.f(proto.Clone(b)), opts); (diff == "") != want {
							t.Failf("Diff gives %q, but they should be equal: %v", diff, want)
						}
						t.Outcome(fmt.Sprint("messages ", want))
					})
				}
			}
		}
	}
	c.Part("pairs of messages", n)

	// long lists that differ at one place, or not, and the option given more than once
	n = 0
	sizes := []int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
	if c.Thorough() {
		sizes = append(sizes, 511, 512, 513, 1023, 1024, 1025)
	}
	sizes = append(sizes, 1500)
	for _, size := range sizes {
		for gi, g := range longs(size) {
			if size > 300 && !c.Thorough() && gi%8 != 0 {
				continue
			}
			for i, a := range g {
				for j, b := range g {
					if !a.list && !b.list || i != 0 && j != 0 && (!c.Thorough() || size > 300) && i != j {
						continue
					}
					for ignore := 0; ignore <= 2; ignore++ {
						a, b, ignore := a, b, ignore
						n++
						c.CaseF(func() string {
							return fmt.Sprintf("long %s and %s of %d, ignoring types %d times", a.name, b.name, size, ignore)
						}, func(t *kit.T) {
							want := equal(a, b, ignore > 0)
							opts := cmp.Options{protocmp.Transform(), verifcmp.Transform(ignore)}
							if got := cmp.Equal(a.v, b.v, opts); got != want {
								t.Failf("Equal gives %v instead of %v", got, want)
							}
							if size <= 33 || c.Thorough() {
								if diff := cmp.Diff(a.v, b.v, opts); (diff == "") != want {
									t.Failf("Diff gives %q, but they should be equal: %v", diff, want)
								}
							}
							t.Outcome(fmt.Sprint("long ", want))
						})
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	c.Part("long lists", n)
}

// longs are lists and slices of a length, by type: the first of each is a list, the others are like it or differ at one place.
func longs(size int) (out [][]*val) {
	fdp := &descriptorpb.FileDescriptorProto{Name: proto.String("l.proto"), Syntax: proto.String("proto3"), Package: proto.String("l"),
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: proto.String("En"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("A"), Number: proto.Int32(0)}}}}}
	m := &descriptorpb.DescriptorProto{Name: proto.String("M")}
	for i, k := range kinds {
		f := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprint("f", i)), Number: proto.Int32(int32(i + 1)), Type: k.t.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()}
		if k.t == 14 {
			f.TypeName = proto.String(".l.En")
		}
		m.Field = append(m.Field, f)
	}
	fdp.MessageType = []*descriptorpb.DescriptorProto{m}
	fd, err := protodesc.NewFile(fdp, nil)
	if err != nil {
		panic(err)
	}
	md := fd.Messages().Get(0)
	var places []int
	for _, p := range []int{0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, size / 2, size - 2, size - 1} {
		if p >= 0 && p < size && (size <= 300 || p == 0 || p > 500) {
			places = append(places, p)
		}
	}
	// variants calls f with every sequence of interest.
	variants := func(pool []interface{}, f func(name string, elems []interface{})) {
		base := func(n int) (elems []interface{}) {
			for i := 0; i < n; i++ {
				elems = append(elems, pool[i*i%7%len(pool)])
			}
			return
		}
		f("base", base(size))
		f("shorter", base(size-1))
		f("longer", base(size+1))
		for _, p := range places {
			e := base(size)
			for _, x := range pool {
				if fmt.Sprint(x) != fmt.Sprint(e[p]) {
					e[p] = x
					break
				}
			}
			f(fmt.Sprint("other at ", p), e)
		}
		e := base(size)
		f("rotated", append(append([]interface{}{}, e[1:]...), e[0]))
	}
	for i, k := range kinds {
		fld := md.Fields().Get(i)
		var g []*val
		variants(k.elems, func(name string, elems []interface{}) {
			d := dynamicpb.NewMessage(md)
			for _, e := range elems {
				d.Mutable(fld).List().Append(protoreflect.ValueOf(e))
			}
			g = append(g, &val{fmt.Sprintf("list of %v %s", fld.Kind(), name), d.Get(fld).List(), true, k.typ, elems})
			t := reflect.TypeOf(k.elems[0])
			g = append(g, &val{fmt.Sprintf("slice of %v %s", t, name), slice(elems, t, false), false, k.typ, elems})
		})
		out = append(out, g)
	}
	var g []*val
	variants([]interface{}{&testproto.Example{}, &testproto.Example{ColName: "1"}, &testproto.Example{Children: []*testproto.Example{{}}}}, func(name string, elems []interface{}) {
		t := reflect.TypeOf(&testproto.Example{})
		kids := slice(elems, t, true).([]*testproto.Example)
		l := (&testproto.Example{Children: kids}).ProtoReflect()
		g = append(g, &val{"list of Example " + name, l.Get(l.Descriptor().Fields().ByName("children")).List(), true, "M Example", elems})
		g = append(g, &val{"slice of Example " + name, kids, false, "M Example", elems})
		g = append(g, &val{"generic slice of Example " + name, slice(elems, reflect.TypeOf((*proto.Message)(nil)).Elem(), false), false, "M any", elems})
	})
	return append(out, g)
}
