// C09: the generated .proto file is valid and says exactly what the mapping says.
package main

import (
	"fmt"
	"io"
	"io/ioutil"
	"sort"
	"strings"

	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/jhump/protoreflect/desc/protoparse"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C09", Level: "model_checking",
		Rule: "every sequence, up to the length bound, of column mappings over an alphabet of names, types, imports, comments, ignored flags and tags, with every combination of extra field definitions, package names and message names of the lists, and every comment over an alphabet of words, blank lines and long words; each generated file is parsed with an independent proto parser and compared with the mapping field by field. Non-trivial: at least one column is not ignored",
	}, run)
}

const other = `syntax = "proto3"; package other.v1; message Thing {} enum Kind { NONE = 0; }`

type fld struct {
	comment string // the own comment; the column line is checked apart
	col     *string
	imports []string
	name    string
	tag     int32
	typ     string
	rep     bool
}

func expect(m *pb.RecordProtoMapping) (out []fld, imports []string) {
	seen := map[string]bool{}
	add := func(f fld) {
		if strings.HasPrefix(f.typ, "repeated ") {
			f.rep = true
			f.typ = strings.TrimPrefix(f.typ, "repeated ")
		}
		out = append(out, f)
		for _, i := range f.imports {
			if !seen[i] {
				seen[i] = true
				imports = append(imports, i)
			}
		}
	}
	for _, c := range m.ColumnToFieldMappings {
		if c.Ignored {
			continue
		}
		col := c.ColName
		add(fld{c.Comment, &col, c.ProtoImports, c.ProtoName, c.ProtoTag, c.ProtoType, false})
	}
	for _, e := range m.ExtraFieldDefinitions {
		add(fld{e.Comment, nil, e.ProtoImports, e.ProtoName, e.ProtoTag, e.ProtoType, false})
	}
	sort.Strings(imports)
	return
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }
func nospace(s string) string { return strings.Join(strings.Fields(s), "") }

func check(c *kit.C, m *pb.RecordProtoMapping) {
	c.CaseF(func() string { return m.String() }, func(t *kit.T) {
		want, imports := expect(m)
		live := 0
		for _, col := range m.ColumnToFieldMappings {
			if !col.Ignored {
				live++
			}
		}
		if live == 0 {
			t.Trivial()
		}
		code, goCode, err := csvtoproto.GenerateCode(m, true, false)
		if err != nil {
			t.Failf("refused: %v", err)
			return
		}
		t.States(1)
		t.Traces(1)
		if goCode != "" {
			t.Failf("Go code though none was asked for")
		}
		for i := 0; i < 3; i++ {
			if again, _, _ := csvtoproto.GenerateCode(m, true, false); again != code {
				t.Failf("not deterministic")
				return
			}
		}
		p := protoparse.Parser{IncludeSourceCodeInfo: true, Accessor: func(name string) (io.ReadCloser, error) {
			switch name {
			case "x.proto":
				return ioutil.NopCloser(strings.NewReader(code)), nil
			case "other/v1/other.proto", "a/b.proto":
				o := other
				if name == "a/b.proto" {
					o = `syntax = "proto3"; package ab; message B {}`
				}
				return ioutil.NopCloser(strings.NewReader(o)), nil
			}
			return nil, fmt.Errorf("no file %q", name)
		}}
		fds, err := p.ParseFiles("x.proto")
		if err != nil {
			t.Failf("not a valid .proto file: %v\n%s", err, code)
			return
		}
		fd := fds[0]
		if !fd.IsProto3() || fd.GetPackage() != m.PackageName {
			t.Failf("package %q proto3=%v", fd.GetPackage(), fd.IsProto3())
		}
		if got := fd.AsFileDescriptorProto().GetDependency(); strings.Join(got, ";") != strings.Join(imports, ";") {
			t.Failf("imports %q, want %q", got, imports)
		}
		if len(fd.GetMessageTypes()) != 1 || len(fd.GetEnumTypes())+len(fd.GetServices())+len(fd.GetExtensions()) != 0 || fd.GetMessageTypes()[0].GetName() != m.MessageName {
			t.Failf("messages %v", fd.GetMessageTypes())
			return
		}
		fs := fd.GetMessageTypes()[0].GetFields()
		if len(fs) != len(want) {
			t.Failf("%d fields, want %d\n%s", len(fs), len(want), code)
			return
		}
		for i, f := range fs {
			w := want[i]
			typ := ""
			switch {
			case f.GetMessageType() != nil:
				typ = f.GetMessageType().GetFullyQualifiedName()
			case f.GetEnumType() != nil:
				typ = f.GetEnumType().GetFullyQualifiedName()
			default:
				typ = strings.ToLower(strings.TrimPrefix(f.GetType().String(), "TYPE_"))
			}
			if f.GetName() != w.name || f.GetNumber() != w.tag || typ != w.typ || f.IsRepeated() != w.rep || f.GetOneOf() != nil {
				t.Failf("field %d is %s %s = %d, want %s %s = %d", i, typ, f.GetName(), f.GetNumber(), w.typ, w.name, w.tag)
			}
			lead := f.GetSourceInfo().GetLeadingComments()
			wantComment := w.comment
			if w.col != nil {
				wantComment += fmt.Sprintf("\n\ncsv field: %q", *w.col)
			}
			if nospace(lead) != nospace(wantComment) {
				t.Failf("field %d has comment %q, want %q", i, lead, wantComment)
			}
			// words stay words
			if squeeze(lead) != squeeze(wantComment) {
				t.Failf("field %d has comment words %q, want %q", i, squeeze(lead), squeeze(wantComment))
			}
			// lines of the comment stay lines: each own line break is still one
			ll := strings.Split(lead, "\n")
			k := 0
			for _, wl := range strings.Split(wantComment, "\n") {
				acc := ""
				for k < len(ll) && acc != nospace(wl) || k < len(ll) && nospace(wl) == "" && acc == "" && nospace(ll[k]) == "" {
					acc += nospace(ll[k])
					k++
					if nospace(wl) == "" {
						break
					}
				}
				if acc != nospace(wl) {
					t.Failf("field %d: line %q of the comment is not on lines of its own in %q", i, wl, lead)
					break
				}
			}
		}
		for _, line := range strings.Split(code, "\n") {
			if tr := strings.TrimSpace(line); strings.HasPrefix(tr, "//") && len(line) > 80 && len(strings.Fields(tr)) > 2 && ascii(line) {
				t.Failf("comment line longer than 80 columns could have been wrapped: %q", line)
			}
		}
		t.Outcome(fmt.Sprintf("%d fields, %d imports", len(want), len(imports)))
	})
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 126 {
			return false
		}
	}
	return true
}

func col(name, typ string, imports ...string) *pb.ColumnToFieldMapping {
	return &pb.ColumnToFieldMapping{ColName: name, ProtoType: typ, ProtoImports: imports}
}

func run(c *kit.C) {
	const tsp, dup = "google/protobuf/timestamp.proto", "google/protobuf/duration.proto"
	cols := []*pb.ColumnToFieldMapping{
		col("A", "int32"),
		col("b b", "string"),
		col("q\"x`", "int64"),
		col("t", "google.protobuf.Timestamp", tsp),
		col("d", "google.protobuf.Duration", dup, tsp),
		col("é\n", "float"),
		col("", "double"),
		col("o", "other.v1.Thing", "other/v1/other.proto"),
		col("k", "repeated other.v1.Kind", "other/v1/other.proto", "a/b.proto"),
		{ColName: "ign", ProtoType: "no_such_type!", ProtoName: "A", ProtoTag: 1, Ignored: true, ProtoImports: []string{"nope.proto"}},
		{ColName: "com", ProtoType: "bool", Comment: "Words of a comment."},
	}
	names := []string{"a", "b_b", "Foo", "x_1", "message", "f9_"}
	tags := [][]int32{{1, 2, 3, 4, 5, 6}, {7, 3, 536870911, 18999, 2, 1}}
	extras := [][]*pb.FieldDefinition{
		nil,
		{{ProtoName: "extra", ProtoType: "string", ProtoTag: 100}},
		{{ProtoName: "e1", ProtoType: "repeated int32", ProtoTag: 101, Comment: "An extra\nfield."}, {ProtoName: "e2", ProtoType: "ab.B", ProtoTag: 99, ProtoImports: []string{"a/b.proto"}}},
		{{ProtoName: "ts", ProtoType: "google.protobuf.Timestamp", ProtoTag: 102, ProtoImports: []string{tsp, tsp}}},
	}
	max := 4
	type job struct{ idx []int }
	var jobs []job
	for n := 0; n <= max; n++ {
		kit.Seqs(len(cols), n, func(idx []int) bool {
			jobs = append(jobs, job{append([]int(nil), idx...)})
			return true
		})
	}
	c.Part("column sequences", int64(len(jobs)))
	c.Parallel(len(jobs), func(i int) {
		for _, ex := range extras {
			for _, tg := range tags {
				m := &pb.RecordProtoMapping{PackageName: "p.q", MessageName: "M", ExtraFieldDefinitions: ex}
				k := 0
				for ci, x := range jobs[i].idx {
					cc := *cols[x]
					cc.ColumnIndex = int32(ci)
					if !cc.Ignored {
						cc.ProtoName = names[k]
						cc.ProtoTag = tg[k]
						k++
					}
					m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, &cc)
				}
				if c.Stop() {
					return
				}
				check(c, m)
			}
		}
	})
	// package and message names
	for _, p := range []string{"p", "a.b.c", "_x", "google.protobuf.x", "xtoproto"} {
		for _, n := range []string{"M", "my_msg", "Message", "X1", "string"} {
			for _, x := range cols[:9] {
				cc := *x
				cc.ProtoName, cc.ProtoTag = "f", 1
				check(c, &pb.RecordProtoMapping{PackageName: p, MessageName: n, ColumnToFieldMappings: []*pb.ColumnToFieldMapping{&cc}})
			}
		}
	}
	// comments
	long := strings.Repeat("w", 70)
	words := []string{"a", "\n", " ", "two words", long, strings.Repeat("z", 90), "/* x", "*/", "// y", "é\t", ";", "\\"}
	var comments []string
	kit.Strings(words, c.Pick(3, 4), func(p []string) bool {
		comments = append(comments, strings.Join(p, ""), strings.Join(p, " "))
		return true
	})
	for n := 60; n < 100; n++ {
		comments = append(comments, strings.Repeat("x", n)+" tail", strings.Repeat("ab ", n/3)+"end", strings.Repeat("x", n-20)+" "+strings.Repeat("y", 20)+" e")
	}
	// comments of every number of lines, words and characters, over the wrapping
	for n := 1; n <= c.Pick(60, 400); n++ {
		num := make([]string, n)
		for i := range num {
			num[i] = fmt.Sprintf("l%d", i)
		}
		comments = append(comments, strings.Join(num, "\n"), strings.Join(num, "\n\n"), strings.Join(num, " "), strings.Repeat("v", n)+"\n"+strings.Join(num, " "))
	}
	for _, n := range []int{500, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193} {
		comments = append(comments, strings.Repeat("abc def ", n/8+1)[:n]+".", strings.Repeat("w", n)+" end", strings.Repeat("abc\n", n/4)+"end")
	}
	// comments that say what the file says elsewhere
	comments = append(comments, "a", "b", "c", "d", "e", "M", "p", "string", "int32", "csv field: \"c\"", "\ncsv field: \"c\"", "string a = 1;", "message M {", "TODO", "//", "/", "-", "string a", "1")
	c.Part("comments", int64(len(comments)))
	c.Parallel(len(comments), func(i int) {
		if c.Stop() {
			return
		}
		// the comment on a first field, a later one and an extra one; and as a column name
		check(c, &pb.RecordProtoMapping{PackageName: "p", MessageName: "M",
			ColumnToFieldMappings: []*pb.ColumnToFieldMapping{
				{ColName: "c", ProtoName: "a", ProtoTag: 1, ProtoType: "string", Comment: comments[i]},
				{ColName: comments[i], ProtoName: "b", ProtoTag: 2, ProtoType: "string"},
				{ColName: "d", ProtoName: "c", ProtoTag: 3, ProtoType: "string", Comment: comments[i]}},
			ExtraFieldDefinitions: []*pb.FieldDefinition{{ProtoName: "e", ProtoTag: 4, ProtoType: "int32", Comment: comments[i]}}})
	})
	// wide mappings: every number of columns and of extra fields
	wide := c.Pick(40, 150)
	c.Part("numbers of columns", int64(wide))
	c.Parallel(wide, func(i int) {
		for _, split := range []int{0, i / 3, i} {
			if c.Stop() {
				return
			}
			m := &pb.RecordProtoMapping{PackageName: "p", MessageName: "M"}
			for k := 0; k < i; k++ {
				x := *cols[k%len(cols)]
				name, tag, comment := fmt.Sprintf("f%d", k), int32(1+(k*37)%1009), fmt.Sprintf("Comment %d.", k)
				if k >= split {
					m.ExtraFieldDefinitions = append(m.ExtraFieldDefinitions, &pb.FieldDefinition{ProtoName: name, ProtoTag: tag, ProtoType: cols[k%9].ProtoType, ProtoImports: cols[k%9].ProtoImports, Comment: comment})
					continue
				}
				x.ProtoName, x.ProtoTag, x.Comment, x.ColumnIndex = name, tag, comment, int32(k)
				if k%5 == 4 {
					x.ColName = m.ColumnToFieldMappings[k-1].ColName
				}
				m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, &x)
			}
			check(c, m)
		}
	})
}
