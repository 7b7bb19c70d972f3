// C10: the generated converter compiles and turns every CSV file into exactly the messages the mapping asks for.
package main

import (
	"fmt"
	"strconv"

	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"verif/mc/convrun"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C10", Level: "model_checking",
		Rule:        "every mapping of a list built from all field types (every pair of them), field and message names on which protoc-gen-go's naming rules differ, column names that need quoting, layouts, zones and unit suffixes is generated with the current generator, compiled with protoc and the Go compiler, and run on every CSV file over its cell alphabet: header orders, extra and missing columns, good and bad cells, row sequences up to the bound; results are compared with a reference converter. Non-trivial: the file has at least one data row",
		Assumptions: []string{"protoc and protoc-gen-go (of the module's version) compile the generated .proto file"},
	}, run)
}

var typs = []struct {
	key, typ, layout, zone, unit string
	cells                        []string
}{
	{"int32", "int32", "", "", "", []string{"7", "-2147483648", "2147483648", "x", "", "1.0"}},
	{"int64", "int64", "", "", "", []string{"9223372036854775807", "-5", "9223372036854775808", " 1"}},
	{"float", "float", "", "", "", []string{"1.5", "16777217", "1e39", "abc"}},
	{"double", "double", "", "", "", []string{"0.1", "-1e300", "1e400", "1,5"}},
	{"string", "string", "", "", "", []string{"abc", "", "q\"u,o\nte", " é "}},
	{"time", "google.protobuf.Timestamp", "2006-01-02 15:04:05", "America/New_York", "", []string{"2021-07-04 12:00:00", "2021-01-04 12:00:00.5", "2021-02-29 12:00:00", "0000-01-01 00:00:00", ""}},
	{"date", "google.protobuf.Timestamp", "2006-01-02", "", "", []string{"1969-12-31", "0001-01-01", "0000-12-31", "2021-1-1"}},
	{"rfc", "google.protobuf.Timestamp", "2006-01-02T15:04:05Z07:00", "Asia/Tokyo", "", []string{"2021-07-04T12:00:00Z", "2021-07-04T12:00:00-07:30", "2021-07-04T12:00:00"}},
	{"dur", "google.protobuf.Duration", "", "", "s", []string{"90", "-1.5", "9223372037", "1h", ""}},
	{"durfree", "google.protobuf.Duration", "", "", "", []string{"1h2m3.5s", "-250ms", "5", "0"}},
	{"durms", "google.protobuf.Duration", "", "", "ms", []string{"1500", "-0.001", "x"}},
	// From here on, types that are not put into pairs.
	{"quoted layout", "google.protobuf.Timestamp", "2006-01-02 \"at\" 15:04", "", "", []string{"2021-07-04 \"at\" 12:30", "2021-07-04 at 12:30", "2021-07-04 \\at\\ 12:30"}},
	{"backslash layout", "google.protobuf.Timestamp", "2006\\01\\02", "", "", []string{"2021\\07\\04", "2021\\\\07\\\\04", "2021-07-04", "2021/07/04"}},
	{"back quote layout", "google.protobuf.Timestamp", "`2006`01`02`", "Africa/Lagos", "", []string{"`2021`07`04`", "2021`07`04", "2021-07-04"}},
	{"escape layout", "google.protobuf.Timestamp", "2006\t01\n02%d{{.}}é", "", "", []string{"2021\t07\n04%d{{.}}é", "2021\\t07\\n04"}},
	{"US layout", "google.protobuf.Timestamp", "1/2/2006 3:04:05 PM", "Asia/Kolkata", "", []string{"7/4/2021 1:02:03 PM", "12/31/2021 11:59:59 AM", "13/1/2021 1:02:03 PM"}},
	{"quoted unit", "google.protobuf.Duration", "", "", "s\"", []string{"1", "2s"}},
	{"backslash unit", "google.protobuf.Duration", "", "", "\\x73", []string{"1", "2s"}},
	{"long unit", "google.protobuf.Duration", "", "", "h30m", []string{"1", "-2", "1.5", ".5", "h", ""}},
	{"micro unit", "google.protobuf.Duration", "", "", "µs", []string{"1", "-2.5", "1e3", "9223372036854775", "9223372036854776"}},
}

// pairs is how many of the types are put into pairs.
const pairs = 11

func column(name, field string, k int, tag int32) *pb.ColumnToFieldMapping {
	t := typs[k]
	c := &pb.ColumnToFieldMapping{ColName: name, ProtoName: field, ProtoType: t.typ, ProtoTag: tag}
	switch t.typ {
	case "google.protobuf.Timestamp":
		c.ProtoImports = []string{"google/protobuf/timestamp.proto"}
		c.ParsingInfo = &pb.ColumnToFieldMapping_TimeFormat{TimeFormat: &pb.TimeFormat{GoLayout: t.layout, TimeZoneName: t.zone}}
	case "google.protobuf.Duration":
		c.ProtoImports = []string{"google/protobuf/duration.proto"}
		if t.unit != "" {
			c.ParsingInfo = &pb.ColumnToFieldMapping_DurationFormat{DurationFormat: &pb.DurationFormat{GoUnitSuffix: t.unit}}
		}
	}
	return c
}

func mappings(th bool) (out []convrun.Case) {
	add := func(key, msg string, cols ...*pb.ColumnToFieldMapping) {
		out = append(out, convrun.Case{key, &pb.RecordProtoMapping{PackageName: fmt.Sprintf("gen.m%d", len(out)), MessageName: msg, ColumnToFieldMappings: cols,
			GoOptions: &pb.GoOptions{GoPackageName: "conv", ProtoImport: fmt.Sprintf("gen/m%d/pb", len(out))}}})
	}
	add("no columns", "M")
	for i, a := range typs {
		add(a.key, "M", column("A", "a", i, 1))
		if i >= pairs {
			continue
		}
		for j, b := range typs[:pairs] {
			if th || j >= i || j == (i+3)%len(typs) {
				add(a.key+","+b.key, "M", column("A", "a", i, 2), column("B", "b", j, 1))
			}
		}
	}
	names := []string{"b_b", "a1", "a_1", "f_9x", "URL", "userID", "string", "reset", "descriptor", "proto", "Proto", "proto_", "type", "func", "err", "r", "message", "time", "pb", "layout", "location", "x_", "_x", "aB_cD", "marshal", "extension_map", "my_2_cents_3", "nil", "duration", "proto_message", "a__b", "_", "_1", "__1a", "_a_", "B", "BB", "a1B2", "new", "record", "new_record"}
	for _, n := range names {
		add("field "+n, "M", column("A", n, 0, 1), column("B", "other", 5, 2))
		add("time field "+n, "M", column("A", n, 5, 1), column("B", "other", 0, 2))
		add("duration field "+n, "M", column("A", n, 8, 3))
	}
	add("getter", "M", column("A", "a", 4, 1), column("B", "get_a", 0, 2))
	add("getter first", "M", column("A", "get_a", 4, 1), column("B", "a", 0, 2))
	for _, n := range []string{"my_msg", "URLInfo", "X1", "M_2", "m", "Record", "Reader", "Sample", "Time", "New", "new", "NEW", "_1", "_x", "Proto", "Int32", "Err"} {
		add("message "+n, n, column("A", "a", 0, 1), column("B", "b", 5, 2))
	}
	for _, n := range []string{"a b", "q\"q", "back`tick", "`", "é", "a\\b", "c:d", "new\nline", "x,y", "%d", "a", "A ", "tab\t", "{{.T}}", "日本", "a\"`b", "-"} {
		add("column "+strconv.Quote(n), "M", column(n, "a", 0, 1), column("B", "b", 4, 2))
	}
	ign := column("I", "a", 4, 1)
	ign.Ignored = true
	ign2 := column("A", "gone", 0, 1)
	ign2.Ignored = true
	ign2.ProtoType = "no.such.Type"
	add("ignored first", "M", ign, column("A", "a", 0, 1))
	ign3 := column("I2", "get_a", 8, 1)
	ign3.Ignored = true
	add("ignored with names used later", "M", ign, ign3, column("A", "a", 0, 1), column("B", "get_a", 5, 2))
	add("ignored with names used before", "M", column("A", "a", 0, 1), column("B", "b", 5, 2), ign, ign3)
	add("ignored in between", "M", column("A", "a", 0, 1), ign, column("B", "b", 5, 2), ign3)
	add("ignored unknown type", "M", column("B", "b", 4, 7), ign2)
	add("three", "M", column("A", "a", 5, 5), column("B", "b", 8, 4), column("C", "c", 4, 3))
	add("three times", "M", column("A", "a", 5, 5), column("B", "b", 6, 4), column("C", "c", 7, 3))
	out = append(out, convrun.Case{"extra fields", &pb.RecordProtoMapping{PackageName: "gen.x", MessageName: "M",
		ColumnToFieldMappings: []*pb.ColumnToFieldMapping{column("A", "a", 0, 1)},
		ExtraFieldDefinitions: []*pb.FieldDefinition{{ProtoName: "get_b", ProtoType: "string", ProtoTag: 4}, {ProtoName: "b", ProtoType: "google.protobuf.Timestamp", ProtoTag: 3, ProtoImports: []string{"google/protobuf/timestamp.proto"}}},
		GoOptions:             &pb.GoOptions{GoPackageName: "conv", ProtoImport: fmt.Sprintf("gen/m%d/pb", len(out))}}})
	return
}

// files lists the CSV texts for a mapping.
func files(m *pb.RecordProtoMapping, max int) (out []string) {
	var names []string
	var cells [][]string
	for _, c := range m.ColumnToFieldMappings {
		if c.Ignored {
			continue
		}
		names = append(names, c.ColName)
		for _, t := range typs {
			if t.typ == c.ProtoType && t.layout == c.GetTimeFormat().GetGoLayout() && t.unit == c.GetDurationFormat().GetGoUnitSuffix() {
				cells = append(cells, t.cells)
				break
			}
		}
	}
	if len(cells) != len(names) {
		panic("no cells")
	}
	n := len(names)
	out = append(out, "", "X\n", convrun.Text([]string{"X", "Y"}, []string{"1", "2"}))
	if n == 0 {
		return
	}
	row := func(idx []int) []string {
		r := make([]string, n)
		for i := range r {
			r[i] = cells[i][idx[i]]
		}
		return r
	}
	out = append(out, convrun.Text(names), convrun.Text(names)+"\n\n")
	var dims []int
	for i := range cells {
		dims = append(dims, len(cells[i]))
	}
	first := make([]int, n)
	var all [][]string
	kit.Product(dims, func(idx []int) bool {
		r := row(idx)
		if n == 1 && r[0] == "" {
			return true // an empty line is no record
		}
		all = append(all, r)
		return true
	})
	for _, r := range all {
		// between two good rows
		out = append(out, convrun.Text(names, row(first), r, row(first)))
		// every column order, with an extra column in every place
		kit.Perms(n, func(p []int) bool {
			for e := 0; e <= n; e++ {
				var h, v []string
				for i, k := range p {
					if i == e {
						h, v = append(h, "extra"), append(v, "junk")
					}
					h, v = append(h, names[k]), append(v, r[k])
				}
				if e == n {
					h, v = append(h, "extra"), append(v, "junk")
				}
				out = append(out, convrun.Text(h, v))
			}
			return true
		})
	}
	// a column missing
	for d := range names {
		var h, v []string
		for i := range names {
			if i != d {
				h, v = append(h, names[i]), append(v, row(first)[i])
			}
		}
		h, v = append(h, "other"), append(v, "1")
		out = append(out, convrun.Text(h, v))
	}
	// sequences of good, bad, short, long and unreadable rows
	good2 := make([]int, n)
	for i := range good2 {
		good2[i] = 1
	}
	bad := append([]int(nil), first...)
	for i := range cells {
		for k, x := range cells[i] {
			if _, ok, known := convrun.Cell(convrun.Live(m)[i], x); known && !ok {
				bad[i] = k
			}
		}
	}
	lines := []string{convrun.Text(row(first)), convrun.Text(row(good2)), convrun.Text(row(bad)), "a,b,c,d,e\n", "\n", "a\"b\n"}
	for l := 2; l <= max; l++ {
		kit.Seqs(len(lines), l, func(idx []int) bool {
			s := convrun.Text(names)
			for _, k := range idx {
				s += lines[k]
			}
			out = append(out, s)
			return true
		})
	}
	return
}

func run(c *kit.C) {
	refusals(c)
	ms := mappings(c.Thorough())
	c.Part("mappings", int64(len(ms)))
	r := convrun.Build(c, ms)
	if r == nil {
		return
	}
	max := c.Pick(3, 4)
	var reqs []convrun.Req
	for i := range ms {
		for _, f := range files(ms[i].M, max) {
			reqs = append(reqs, convrun.Req{M: i, Text: f})
		}
	}
	r.Check(c, reqs)
}

func refusals(c *kit.C) {
	goOpts := func() *pb.GoOptions { return &pb.GoOptions{GoPackageName: "conv", ProtoImport: "x/pb"} }
	for _, typ := range []string{"", "bool", "bytes", "uint32", "int", "Int32", "int32 ", "google.protobuf.timestamp", "Timestamp", "other.Msg", "repeated int32", "sint64", "uint64", "fixed32"} {
		for pos := 0; pos < 3; pos++ {
			for _, protoToo := range []bool{true, false} {
				c.Case(fmt.Sprintf("refuse type %q at %d proto=%v", typ, pos, protoToo), func(t *kit.T) {
					cols := []*pb.ColumnToFieldMapping{column("A", "a", 0, 1), column("B", "b", 4, 2)}
					bad := &pb.ColumnToFieldMapping{ColName: "Z", ProtoName: "z", ProtoType: typ, ProtoTag: 9}
					cols = append(cols[:pos:pos], append([]*pb.ColumnToFieldMapping{bad}, cols[pos:]...)...)
					m := &pb.RecordProtoMapping{PackageName: "p", MessageName: "M", GoOptions: goOpts(), ColumnToFieldMappings: cols}
					p, g, err := csvtoproto.GenerateCode(m, protoToo, true)
					if err == nil || p != "" || g != "" {
						t.Failf("err=%v, code lengths %d and %d; want an error and no code", err, len(p), len(g))
					}
					if _, _, err := csvtoproto.GenerateCode(m, true, false); err != nil {
						t.Failf("the .proto alone was refused: %v", err)
					}
					t.Outcome("refused type")
				})
			}
		}
	}
	for i, o := range []*pb.GoOptions{nil, {}, {ProtoImport: "x/pb"}} {
		c.Case(fmt.Sprintf("refuse go options %d", i), func(t *kit.T) {
			m := &pb.RecordProtoMapping{PackageName: "p", MessageName: "M", GoOptions: o, ColumnToFieldMappings: []*pb.ColumnToFieldMapping{column("A", "a", 0, 1)}}
			if p, g, err := csvtoproto.GenerateCode(m, true, true); err == nil || p != "" || g != "" {
				t.Failf("accepted")
			}
			if p, g, err := csvtoproto.GenerateCode(m, false, false); err != nil || p != "" || g != "" {
				t.Failf("asked for nothing: %q %q %v", p, g, err)
			}
		})
	}
}
