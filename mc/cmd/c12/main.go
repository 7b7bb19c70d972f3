// C12: an inferred mapping describes its sample column by column and leads to valid code that reads the sample back.
package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"io/ioutil"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/recordinfer"
	"github.com/jhump/protoreflect/desc"
	"github.com/jhump/protoreflect/desc/protoparse"
	"verif/mc/convrun"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C12", Level: "model_checking",
		Rule: "every header, up to the length bound, over column names of every shape (plain, camel case, spaced, accented, empty, leading digits, names that map to one field name) over columns of every inferred type: the mapping is compared with a reference, the generated and the direct .proto files are parsed and compared with the mapping, the text form is read back; and a list of samples is carried through inference, generation, protoc and the Go compiler, and read back by the compiled converter under every row order. the comment of a column is compared with a count for every number of each of seven values. Non-trivial: two columns or more, or two values",
	}, run)
}

// snake is the documented field name: words at non-alphanumeric characters, before an upper case letter that follows
// a lower case one, and before the last of a run of upper case letters that a lower case one follows.
func snake(s string) string {
	isU := func(b byte) bool { return b >= 'A' && b <= 'Z' }
	isL := func(b byte) bool { return b >= 'a' && b <= 'z' }
	isD := func(b byte) bool { return b >= '0' && b <= '9' }
	var words []string
	cur := ""
	flush := func() {
		if cur != "" {
			words = append(words, strings.ToLower(cur))
		}
		cur = ""
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !isU(b) && !isL(b) && !isD(b) {
			flush()
			continue
		}
		if isU(b) && i > 0 && (isL(s[i-1]) || isU(s[i-1]) && i+1 < len(s) && isL(s[i+1])) {
			flush()
		}
		cur += string(b)
	}
	flush()
	return strings.Join(words, "_")
}

var ident = regexp.MustCompile(`^[a-z][a-z0-9_]*$`)

func parseProto(code string) (*desc.FileDescriptor, error) {
	p := protoparse.Parser{Accessor: func(name string) (io.ReadCloser, error) {
		if name == "x.proto" {
			return ioutil.NopCloser(strings.NewReader(code)), nil
		}
		return nil, fmt.Errorf("no file %q", name)
	}}
	fds, err := p.ParseFiles("x.proto")
	if err != nil {
		return nil, err
	}
	return fds[0], nil
}

func typeOf(f *desc.FieldDescriptor) string {
	if f.GetMessageType() != nil {
		return f.GetMessageType().GetFullyQualifiedName()
	}
	return strings.ToLower(strings.TrimPrefix(f.GetType().String(), "TYPE_"))
}

type kind struct {
	typ  string
	vals [2]string
}

var kinds = []kind{
	{"int64", [2]string{"1", "-20"}},
	{"string", [2]string{"a \"b\"", ""}},
	{"google.protobuf.Timestamp", [2]string{"2021-03-14 01:59:00", "1969-07-20 20:17:40"}},
	{"float", [2]string{"1.5", "2"}},
	{"google.protobuf.Timestamp", [2]string{"2021-3-4", "2020-02-29"}},
}

func build(hdr []string, ks []int, loc *time.Location) (*recordinfer.InferredProto, [][]string, error) {
	rows := [][]string{hdr, nil, nil}
	for i := range hdr {
		k := kinds[ks[i]]
		rows[1] = append(rows[1], k.vals[0])
		rows[2] = append(rows[2], k.vals[1])
	}
	b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "Rec", PackageName: "pk.g", GoPackageName: "conv", GoProtoImport: "x/pb", TimestampLocation: loc})
	for _, r := range rows {
		if err := b.AddRow(r); err != nil {
			return nil, rows, err
		}
	}
	ip, err := b.Build()
	return ip, rows, err
}

var shownValue = regexp.MustCompile(`("(?:[^"\\]|\\.)*") \((\d+)\)`)

// comments: the comment of a column counts its values.
func comments(c *kit.C) {
	vals := []string{"b", "a", "", "10", "9", `q"(2)`, "B"}
	max := c.Pick(2, 3)
	counts := make([]int, len(vals))
	var rec func(i int)
	rec = func(i int) {
		if i < len(vals) {
			for counts[i] = 0; counts[i] <= max && !c.Stop(); counts[i]++ {
				rec(i + 1)
			}
			return
		}
		var col []string
		unique := 0
		type vc struct {
			v string
			n int
		}
		var want []vc
		for k, n := range counts {
			for j := 0; j < n; j++ {
				col = append(col, vals[k])
			}
			if n > 0 {
				unique++
				want = append(want, vc{vals[k], n})
			}
		}
		if len(col) == 0 {
			return
		}
		sort.Slice(want, func(a, b int) bool {
			return want[a].n > want[b].n || want[a].n == want[b].n && want[a].v < want[b].v
		})
		if len(want) > 5 {
			want = want[:5]
		}
		c.CaseF(func() string { return fmt.Sprintf("comment for %q", col) }, func(t *kit.T) {
			if unique < 2 {
				t.Trivial()
			}
			for order := 0; order < 2; order++ {
				b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "Rec", PackageName: "pk.g", TimestampLocation: time.UTC})
				b.AddRow([]string{"x", "h"})
				for k := range col {
					v := col[k]
					if order == 1 {
						v = col[len(col)-1-k]
					}
					if err := b.AddRow([]string{"other", v}); err != nil {
						t.Failf("%v", err)
						return
					}
				}
				ip, err := b.Build()
				if err != nil {
					t.Failf("%v", err)
					return
				}
				got := ip.Mapping().ColumnToFieldMappings[1].Comment
				found := shownValue.FindAllStringSubmatch(got, -1)
				if len(found) != len(want) {
					t.Failf("comment %q shows %d values, want %v", got, len(found), want)
					return
				}
				for k, f := range found {
					if v, err := strconv.Unquote(f[1]); err != nil || v != want[k].v || f[2] != fmt.Sprint(want[k].n) {
						t.Failf("comment %q, value %d: %s, want %v", got, k+1, f[0], want[k])
					}
				}
				head := strings.SplitN(got, `"`, 2)[0]
				var nums []string
				for _, w := range strings.FieldsFunc(head, func(r rune) bool { return r < '0' || r > '9' }) {
					nums = append(nums, w)
				}
				if len(nums) < 2 || nums[0] != fmt.Sprint(unique) || nums[1] != fmt.Sprint(len(col)) {
					t.Failf("comment %q, want %d values in %d rows", got, unique, len(col))
				}
			}
			t.Outcome("comment")
		})
	}
	rec(0)
}

func header(c *kit.C, hdr []string, ks []int, loc *time.Location) {
	c.CaseF(func() string { return fmt.Sprintf("header %q kinds %v zone %v", hdr, ks, loc) }, func(t *kit.T) {
		ip, _, err := build(hdr, ks, loc)
		if err != nil {
			t.Failf("refused: %v", err)
			return
		}
		t.States(1)
		t.Traces(1)
		if len(hdr) < 2 {
			t.Trivial()
		}
		m := ip.Mapping()
		if m.PackageName != "pk.g" || m.MessageName != "Rec" || m.GetGoOptions().GetGoPackageName() != "conv" || m.GetGoOptions().GetProtoImport() != "x/pb" || len(m.ExtraFieldDefinitions) != 0 {
			t.Failf("names: %v", m)
		}
		if len(m.ColumnToFieldMappings) != len(hdr) {
			t.Failf("%d columns", len(m.ColumnToFieldMappings))
			return
		}
		used := map[string]bool{}
		renamed := 0
		for i, col := range m.ColumnToFieldMappings {
			if col.ColumnIndex != int32(i) || col.ColName != hdr[i] || col.ProtoTag != int32(i+1) || col.Ignored || col.ProtoType != kinds[ks[i]].typ {
				t.Failf("column %d (%q, %s): %v", i, hdr[i], kinds[ks[i]].typ, col)
			}
			plain := snake(hdr[i])
			if ident.MatchString(plain) && !used[strings.ReplaceAll(plain, "_", "")] {
				if col.ProtoName != plain {
					t.Failf("column %q became field %q, want %q", hdr[i], col.ProtoName, plain)
				}
			} else {
				renamed++
			}
			if !ident.MatchString(col.ProtoName) {
				t.Failf("column %q became field %q", hdr[i], col.ProtoName)
			}
			key := strings.ReplaceAll(col.ProtoName, "_", "")
			if used[key] {
				t.Failf("field name %q conflicts with an earlier one", col.ProtoName)
			}
			used[key] = true
		}
		t.Outcome(fmt.Sprintf("%d columns, %d renamed", len(hdr), renamed))
		// the text form
		tmpl := &pb.RecordProtoMapping{PackageName: "other", ExtraFieldDefinitions: []*pb.FieldDefinition{{ProtoName: "x"}}}
		want := proto.Clone(tmpl).(*pb.RecordProtoMapping)
		proto.Merge(want, m)
		got := &pb.RecordProtoMapping{}
		if err := proto.UnmarshalText(ip.FormattedMapping(tmpl), got); err != nil || !proto.Equal(got, want) {
			t.Failf("text form: %v, %v, want %v", err, got, want)
		}
		if tmpl.PackageName != "other" || len(tmpl.ColumnToFieldMappings) != 0 || !proto.Equal(ip.Mapping(), m) {
			t.Failf("the template or the result was changed")
		}
		// code
		code, goCode, err := csvtoproto.GenerateCode(m, true, true)
		if err != nil {
			t.Failf("GenerateCode: %v", err)
			return
		}
		for name, src := range map[string]string{"generated": code, "direct": ip.Code()} {
			lines := map[string]int{}
			for _, l := range strings.Split(src, "\n") {
				l = strings.TrimSpace(l)
				if lines[l]++; lines[l] == 2 && (strings.HasPrefix(l, "import ") || strings.HasPrefix(l, "syntax") || strings.HasPrefix(l, "package ")) {
					t.Failf("%s .proto: the line %s is there twice", name, l) // which protoc refuses
				}
			}
			fd, err := parseProto(src)
			if err != nil {
				t.Failf("%s .proto: %v\n%s", name, err, src)
				continue
			}
			if fd.GetPackage() != "pk.g" || len(fd.GetMessageTypes()) != 1 || fd.GetMessageTypes()[0].GetName() != "Rec" || len(fd.GetMessageTypes()[0].GetFields()) != len(hdr) {
				t.Failf("%s .proto: %v", name, fd)
				continue
			}
			for i, f := range fd.GetMessageTypes()[0].GetFields() {
				col := m.ColumnToFieldMappings[i]
				if f.GetName() != col.ProtoName || f.GetNumber() != col.ProtoTag || typeOf(f) != col.ProtoType {
					t.Failf("%s .proto: field %d is %v", name, i, f)
				}
			}
		}
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", goCode, 0); err != nil {
			t.Failf("Go code: %v", err)
		}
	})
}

func run(c *kit.C) {
	comments(c)
	ny, err := time.LoadLocation("America/New_York")
	if err != nil {
		panic(err)
	}
	names := []string{"a", "A", "a b", "aB", "é", "", "1x", "x1", "x_1", "column_1", "_", "HTTPServer", "A1b", "a_b"}
	pool := append([]string(nil), names...)
	for _, s := range []string{"AlphaBet", "BBFriendOfMine_1", "d__u_de", "XTimeUTC", " lead", "trail ", "a(b)", "a-b.c/d", "ID", "userID", "string", "message", "proto", "time", "Reset", "back`tick", "q\"q", "a\nb", "2", "99 bottles", "日本", "x日y", "$", "ABC_DEFGhi", "a1B2", "__a__B__", "column_2", "a_2", "a_b_2", "x12", "x_1_2", "aBC", "ABc", "0", "0x", "3", "4b", "5", "6", "7_", "8", "9", "1.5", "2021-01", "a\n", "\na", "a b\n\n", "a\t", "a\r", "\ufeffa"} {
		pool = append(pool, s)
	}
	c.Parallel(len(pool), func(i int) {
		p := pool[i]
		for k := range kinds {
			header(c, []string{p}, []int{k}, nil)
			for j, q := range pool {
				header(c, []string{p, q}, []int{k, (i + j) % len(kinds)}, ny)
			}
		}
	})
	n := c.Pick(3, 4)
	c.Parallel(len(names), func(i int) {
		kit.StringsN(names, n-1, func(p []string) bool {
			hdr := append([]string{names[i]}, p...)
			ks := make([]int, n)
			for k := range ks {
				ks[k] = (i + k*2) % len(kinds)
			}
			header(c, hdr, ks, time.UTC)
			return !c.Stop()
		})
	})
	wide(c, names, pool)
	options(c)
	endToEnd(c, ny)
}

// wide: headers of many columns, with names that repeat.
func wide(c *kit.C, names, pool []string) {
	widths := []int{8, 9, 10, 11, 12, 16, 17, 33, 65}
	if c.Thorough() {
		widths = append(widths, 100, 129, 257, 1000)
	}
	for _, n := range widths {
		for k := 0; k < len(names); k++ {
			for step := 0; step < 4; step++ {
				hdr, ks := make([]string, n), make([]int, n)
				for i := range hdr {
					switch step {
					case 0: // one name all over
						hdr[i] = names[k]
					case 1: // few names in turn
						hdr[i] = names[(i*(k+1))%len(names)]
					case 2: // many
						hdr[i] = pool[(i*(2*k+1)+k)%len(pool)]
					case 3: // one name, and what its copies could be called
						hdr[i] = names[k]
						if i%2 == k%2 {
							hdr[i] = fmt.Sprintf("%s_%d", names[k], i)
						}
					}
					ks[i] = (i + k) % len(kinds)
				}
				header(c, hdr, ks, nil)
			}
		}
	}
}

// options: the names asked for are those of the mapping.
func options(c *kit.C) {
	for _, pkg := range []string{"", "p", "a.b.c"} {
		for _, msg := range []string{"", "M", "Other_1"} {
			for _, goPkg := range []string{"", "conv"} {
				for _, imp := range []string{"", "x/pb"} {
					c.Case(fmt.Sprintf("options %q %q %q %q", pkg, msg, goPkg, imp), func(t *kit.T) {
						ip, err := csvinfer.InferProto("a,b\n1,x\n", &recordinfer.Options{MessageName: msg, PackageName: pkg, GoPackageName: goPkg, GoProtoImport: imp})
						if err != nil {
							t.Failf("%v", err)
							return
						}
						m := ip.Mapping()
						if m.PackageName != pkg || m.MessageName != msg || m.GetGoOptions().GetGoPackageName() != goPkg || m.GetGoOptions().GetProtoImport() != imp {
							t.Failf("got %v", m)
						}
						if goPkg+imp == "" && m.GoOptions != nil {
							t.Failf("Go options out of nothing: %v", m.GoOptions)
						}
						t.Outcome("options")
					})
				}
			}
		}
	}
}

// endToEnd carries samples through the whole pipeline.
func endToEnd(c *kit.C, ny *time.Location) {
	hdrs := [][]string{{"id", "User Name", "x1"}, {"HTTPServer", "a`b", "é"}, {"proto", "string", "1x"}, {"", "column_1", "_"}, {"a", "A", "get a"}, {"time", "err", "r"}, {"XTimeUTC", "d__u_de", "BBFriendOfMine_1"}, {"Reset", "Descriptor", "a_1"}}
	var cases []convrun.Case
	var samples [][][]string
	for h, hdr := range hdrs {
		kit.Seqs(len(kinds), 3, func(ks []int) bool {
			if !c.Thorough() && (ks[0]*7+ks[1]*3+ks[2]+h)%6 != 0 {
				return true
			}
			var rows [][]string
			c.Do(fmt.Sprintf("infer %q %v", hdr, ks), func(t *kit.T) {
				ks := append([]int(nil), ks...)
				_, rows, _ = build(hdr, ks, ny)
				i := len(cases)
				ip, err := csvinfer.InferProto(convrun.Text(rows...), &recordinfer.Options{MessageName: "Rec", PackageName: fmt.Sprintf("gen.m%d", i), GoPackageName: "conv", GoProtoImport: fmt.Sprintf("gen/m%d/pb", i), TimestampLocation: ny})
				if err != nil {
					t.Failf("%v", err)
					rows = nil
					return
				}
				cases = append(cases, convrun.Case{Key: fmt.Sprintf("%q %v", hdr, ks), M: ip.Mapping()})
				samples = append(samples, rows)
			})
			return true
		})
	}
	c.Part("pipelines", int64(len(cases)))
	r := convrun.Build(c, cases)
	if r == nil {
		return
	}
	var reqs []convrun.Req
	for i, rows := range samples {
		reqs = append(reqs,
			convrun.Req{M: i, Text: convrun.Text(rows...), Clean: true},
			convrun.Req{M: i, Text: convrun.Text(rows[0], rows[2], rows[1]), Clean: true},
			convrun.Req{M: i, Text: convrun.Text(rows[0], rows[1], rows[1], rows[2]), Clean: true})
	}
	r.Check(c, reqs)
}
