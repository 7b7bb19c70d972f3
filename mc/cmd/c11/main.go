// C11: type inference is sound (every sample value can be read as the inferred type) and most specific.
package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/google/xtoproto/csvinfer"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/recordinfer"
	"verif/mc/kit"
	"verif/mc/numref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C11", Level: "model_checking",
		Rule:        "every column of 1 to n sample values over an alphabet with a value for each supported time layout, near misses of each, integers and floats at and past their limits, blanks, text and numbers of up to a thousand digits; every order of them; every table of two columns over a smaller alphabet; samples of hundreds and thousands of rows with one odd value at a place; row lengths that differ; under three time zones; inferred from rows and from CSV text. Non-trivial: the column has two different values or a table two columns",
		Assumptions: []string{"Go's time.ParseInLocation decides whether a text fits a layout"},
	}, run)
}

var layouts = []string{
	"2006-01-02 15:04:05", "2006-01-02 03:04:05 PM", "1/2/2006 3:04:05 PM",
	time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z,
	time.RFC3339, time.RFC3339Nano, time.Kitchen, time.Stamp, time.StampMilli, time.StampMicro, time.StampNano,
	"2006-1-2", "2006/1/2", "20060102",
}

func fits(layout, v string, loc *time.Location) bool {
	if loc == nil {
		loc = time.UTC
	}
	_, err := time.ParseInLocation(layout, v, loc)
	return err == nil
}

func isInt(v string) bool { _, ok := numref.Int(v, 64, true); return ok }

func isFloat(v string) (ok, known bool) {
	_, ok, known = numref.Float(v, 32)
	return
}

// judge says what is wrong with inferring col for the values, "" if nothing.
func judge(col *pb.ColumnToFieldMapping, vals []string, loc *time.Location) (class, bad string) {
	all := func(f func(string) bool) bool {
		for _, v := range vals {
			if !f(v) {
				return false
			}
		}
		return true
	}
	var common []string
	for _, l := range layouts {
		if all(func(v string) bool { return fits(l, v, loc) }) {
			common = append(common, l)
		}
	}
	zone := ""
	if loc != nil {
		zone = loc.String()
	}
	floats, known := true, true
	for _, v := range vals {
		ok, k := isFloat(v)
		floats = floats && (ok || !k)
		known = known && k
	}
	known = known || !floats
	imports := strings.Join(col.ProtoImports, ";")
	switch {
	case len(common) > 0:
		if col.ProtoType != "google.protobuf.Timestamp" {
			return "time", fmt.Sprintf("type %s, want a timestamp (%q fits all)", col.ProtoType, common)
		}
		got := col.GetTimeFormat().GetGoLayout()
		if got != common[0] {
			return "time", fmt.Sprintf("layout %q; the first of those that fit all values, %q, is another", got, common)
		}
		if col.GetTimeFormat().GetTimeZoneName() != zone {
			return "time", fmt.Sprintf("zone %q, want %q", col.GetTimeFormat().GetTimeZoneName(), zone)
		}
		if imports != "google/protobuf/timestamp.proto" {
			return "time", "imports " + imports
		}
		return "time", ""
	case !known:
		return "unknown", ""
	}
	want := "string"
	if all(isInt) {
		want = "int64"
	} else if floats {
		want = "float"
	}
	if col.ProtoType != want {
		return want, fmt.Sprintf("type %s, want %s", col.ProtoType, want)
	}
	if col.ParsingInfo != nil || imports != "" {
		return want, fmt.Sprintf("parsing info %v, imports %q", col.ParsingInfo, imports)
	}
	return want, ""
}

func infer(rows [][]string, loc *time.Location) (*pb.RecordProtoMapping, error) {
	b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", PackageName: "p", TimestampLocation: loc})
	// One buffer for all rows, as a reader that reuses its record has.
	var buf []string
	for _, r := range rows {
		buf = append(buf[:0], r...)
		if err := b.AddRow(buf); err != nil {
			return nil, fmt.Errorf("AddRow: %v", err)
		}
	}
	for i := range buf {
		buf[i] = "used again"
	}
	ip, err := b.Build()
	if err != nil {
		return nil, err
	}
	return ip.Mapping(), nil
}

func inferCSV(rows [][]string, loc *time.Location) (*pb.RecordProtoMapping, error) {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.WriteAll(rows)
	ip, err := csvinfer.InferProto(b.String(), &recordinfer.Options{MessageName: "M", PackageName: "p", TimestampLocation: loc})
	if err != nil {
		return nil, err
	}
	return ip.Mapping(), nil
}

// inferPlain infers from a CSV text without quotes; ok is false if there is none.
func inferPlain(rows [][]string, loc *time.Location) (m *pb.RecordProtoMapping, ok bool, err error) {
	text := ""
	for _, r := range rows {
		line := strings.Join(r, ",")
		if line == "" || strings.ContainsAny(strings.Join(r, ""), ",\"\r\n") {
			return nil, false, nil
		}
		text += line + "\n"
	}
	ip, err := csvinfer.InferProto(text, &recordinfer.Options{MessageName: "M", PackageName: "p", TimestampLocation: loc})
	if err != nil {
		return nil, true, err
	}
	return ip.Mapping(), true, nil
}

func column(rows [][]string, i int) (out []string) {
	for _, r := range rows[1:] {
		out = append(out, r[i])
	}
	return
}

func table(c *kit.C, rows [][]string, loc *time.Location) {
	c.CaseF(func() string { return fmt.Sprintf("rows %q zone %v", rows, loc) }, func(t *kit.T) {
		m, err := infer(rows, loc)
		if err != nil {
			t.Failf("refused: %v", err)
			return
		}
		t.States(1)
		t.Traces(1)
		n := len(rows[0])
		if len(m.ColumnToFieldMappings) != n {
			t.Failf("%d columns, want %d", len(m.ColumnToFieldMappings), n)
			return
		}
		varied := n > 1
		var classes []string
		for i, col := range m.ColumnToFieldMappings {
			vals := column(rows, i)
			for _, v := range vals {
				varied = varied || v != vals[0]
			}
			if col.ColName != rows[0][i] {
				t.Failf("column %d is called %q", i, col.ColName)
			}
			class, bad := judge(col, vals, loc)
			if bad != "" {
				t.Failf("column %d %q: %s", i, vals, bad)
			}
			classes = append(classes, class)
		}
		if !varied {
			t.Trivial()
		}
		t.Outcome(strings.Join(classes, ","))
		if again, err := infer(rows, loc); err != nil || !proto.Equal(again, m) {
			t.Failf("not deterministic")
		}
		// from CSV text
		blank := false
		for _, r := range rows {
			blank = blank || len(r) == 1 && r[0] == ""
		}
		if !blank {
			if m2, err := inferCSV(rows, loc); err != nil || !proto.Equal(m2, m) {
				t.Failf("from CSV text: %v, %v; from rows %v", m2, err, m)
			}
		}
		if m2, ok, err := inferPlain(rows, loc); ok && (err != nil || !proto.Equal(m2, m)) {
			t.Failf("from CSV text without quotes: %v, %v; from rows %v", m2, err, m)
		}
		// the order of the rows does not matter
		if len(rows) > 2 {
			rev := [][]string{rows[0]}
			for i := len(rows) - 1; i > 0; i-- {
				rev = append(rev, rows[i])
			}
			if m2, err := infer(rev, loc); err != nil || !proto.Equal(m2, m) {
				t.Failf("with the rows reversed: %v", m2)
			}
		}
	})
}

func run(c *kit.C) {
	ny, err := time.LoadLocation("America/New_York")
	if err != nil {
		panic(err)
	}
	ref := time.Date(2021, 11, 3, 14, 5, 6, 123456789, time.UTC)
	early := time.Date(1987, 1, 22, 9, 59, 0, 120000000, ny)
	var alpha []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			alpha = append(alpha, s)
		}
	}
	for _, s := range []string{"1", "", "abc", "1.5", "-9223372036854775808", "9223372036854775808", "3.5e38", "-0", "+7", "1e3", " 1", "1,000", "0x1F", "NaN", "20210230"} {
		add(s)
	}
	for _, l := range layouts {
		add(ref.Format(l))
	}
	small := append([]string(nil), alpha...)
	for _, l := range layouts {
		s := early.Format(l)
		add(s)
		add(s + " ")
		add(strings.Replace(s, "22", "32", 1))
		add(strings.Replace(s, ":59", ":60", 1))
	}
	for _, s := range []string{"9223372036854775807", "-9223372036854775809", "3.4028234e38", "1.", ".5", "--1", "1 2", "true", "99999999", "00000101", "2021-13-01", "13/1/2021 1:00:00 AM", "1/13/2021 1:00:00 AM", "2021-11-03T14:05:06+05:30", "2021-11-03 14:05:06.5", "inf", "-Infinity", "0x1f", "0b11", "0o17", "1_000", "017", "0x1p-2", "1_0.5", "#1", " 2021-11-03", "'1", "1;2", "\ufeff1", "١"} {
		add(s)
	}
	locs := []*time.Location{nil, time.UTC, ny}
	c.Part("values", int64(len(alpha)))
	c.Parallel(len(alpha), func(i int) {
		for _, loc := range locs {
			table(c, [][]string{{"h"}, {alpha[i]}}, loc)
			for j := range alpha {
				table(c, [][]string{{"h"}, {alpha[i]}, {alpha[j]}}, loc)
			}
		}
	})
	hard := numref.Hard()
	c.Parallel(len(hard), func(i int) {
		for _, with := range []string{"", "1", "1.5", "x"} {
			rows := [][]string{{"h"}, {hard[i]}}
			if with != "" {
				rows = append(rows, []string{with})
			}
			table(c, rows, nil)
		}
	})
	// three or more values
	n := c.Pick(3, 4)
	c.Parallel(len(small), func(i int) {
		kit.StringsN(small, 2, func(p []string) bool {
			vals := append([]string{small[i]}, p...)
			rows := [][]string{{"h"}}
			for _, v := range vals {
				rows = append(rows, []string{v})
			}
			table(c, rows, ny)
			if n > 3 {
				for _, v := range small {
					table(c, append(rows[:len(rows):len(rows)], []string{v}), ny)
				}
			}
			return !c.Stop()
		})
	})
	// one odd value at every place of a longer column
	for _, base := range small {
		for _, odd := range small {
			for at := 0; at < 7; at++ {
				rows := [][]string{{"h"}}
				for k := 0; k < 7; k++ {
					if k == at {
						rows = append(rows, []string{odd})
					} else {
						rows = append(rows, []string{base})
					}
				}
				table(c, rows, time.UTC)
			}
		}
	}
	// headers of every shape of the first character, read from text
	for _, h := range []string{"h", " h", "h ", "#h", ";h", "'h", "\th", "\ufeffh", "1", "", "h\"h", "é"} {
		for _, h2 := range []string{"g", " g", "#g", "h", ""} {
			table(c, [][]string{{h, h2}, {"1", "x"}, {" 1", "#2"}}, nil)
			table(c, [][]string{{h2, h}, {"#1", "2"}, {"1", "3"}}, nil)
		}
	}
	// long samples with one odd value, at every place for the shorter
	bases := []string{"1", "1.5", "x", "2021-11-3", "20211103", "2021-11-03 14:05:06", "3:04PM"}
	long := []int{40, 130}
	far := []int{600, 1100, 2500, 5000}
	if c.Thorough() {
		long, far = []int{40, 130, 400}, append(far, 20000, 70000)
	}
	type sample struct{ n, at int }
	var samples []sample
	for _, n := range long {
		for at := 0; at < n; at++ {
			samples = append(samples, sample{n, at})
		}
	}
	for _, n := range far {
		for _, at := range []int{0, 1, 15, 99, 100, 101, 499, 500, 511, 512, n/2 - 1, n / 2, n - 2, n - 1} {
			if at < n {
				samples = append(samples, sample{n, at})
			}
		}
	}
	c.Part("long samples", int64(len(samples)))
	c.Parallel(len(samples), func(k int) {
		q := samples[k]
		for b, base := range bases {
			for o, odd := range bases {
				if o == b || q.n > 1000 && (o+b+k)%3 != 0 {
					continue
				}
				c.CaseF(func() string { return fmt.Sprintf("%d rows of %q with %q at %d", q.n, base, odd, q.at) }, func(t *kit.T) {
					rows := make([][]string, q.n+1)
					rows[0] = []string{"h", "g"}
					for i := 1; i <= q.n; i++ {
						rows[i] = []string{base, "1"}
					}
					rows[q.at+1] = []string{odd, "1"}
					m, err := inferCSV(rows, nil)
					if err != nil {
						t.Failf("refused: %v", err)
						return
					}
					t.States(1)
					class, bad := judge(m.ColumnToFieldMappings[0], []string{base, odd}, nil)
					if bad != "" {
						t.Failf("%s", bad)
					}
					if m.ColumnToFieldMappings[1].ProtoType != "int64" {
						t.Failf("the other column is %v", m.ColumnToFieldMappings[1])
					}
					t.Outcome("long " + class)
				})
			}
		}
	})
	// tables of two and three columns
	tiny := []string{"1", "1.5", "x", "", "2021-11-3", "2021-11-03 14:05:06", "20211103", "3:04PM"}
	c.Parallel(len(tiny), func(i int) {
		kit.StringsN(tiny, 3, func(p []string) bool {
			table(c, [][]string{{"a", "b"}, {tiny[i], p[0]}, {p[1], p[2]}}, time.UTC)
			return !c.Stop()
		})
		kit.StringsN(tiny[:5], c.Pick(4, 5), func(p []string) bool {
			rows := [][]string{{"a", "b", "c"}, {tiny[i], p[0], p[1]}, {p[2], p[3], p[0]}}
			if len(p) > 4 {
				rows[2][2] = p[4]
			}
			table(c, rows, ny)
			return !c.Stop()
		})
	})
	// shapes
	kit.Seqs(4, 3, func(l []int) bool {
		for n := 0; n <= 3; n++ {
			lens := append([]int(nil), l[:n]...)
			c.CaseF(func() string { return fmt.Sprintf("row lengths %v", lens) }, func(t *kit.T) {
				b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", PackageName: "p"})
				kept := 0
				for i, k := range lens {
					row := []string{"1", "2", "3"}[:k]
					err := b.AddRow(row)
					if want := i == 0 || k == lens[0]; (err == nil) != want {
						t.Failf("row %d: %v", i, err)
					} else if want {
						kept++
					}
				}
				ip, err := b.Build()
				want := kept >= 2 && lens[0] > 0
				if (err == nil) != want {
					t.Failf("build: %v, want success=%v", err, want)
				}
				if want && err == nil {
					if got := len(ip.Mapping().ColumnToFieldMappings); got != lens[0] {
						t.Failf("%d columns", got)
					}
				}
				t.Outcome(fmt.Sprintf("shape accepted=%v", want))
				// as CSV text
				text := ""
				ragged := false
				for _, k := range lens {
					text += strings.Join([]string{"1", "2", "3"}[:k], ",") + "\n"
					ragged = ragged || k != lens[0]
				}
				if !ragged {
					_, err := csvinfer.InferProto(text, &recordinfer.Options{})
					if (err == nil) != want {
						t.Failf("CSV: %v", err)
					}
				}
			})
		}
		return true
	})
	for _, bad := range []string{"a,b\n1\n", "a\n1,2\n", "a\n\"x\n", "a,b\n1,2\n3\n", "a\nx\"y\n", "a\n", "", "\n\n"} {
		c.Case(fmt.Sprintf("bad CSV %q", bad), func(t *kit.T) {
			if _, err := csvinfer.InferProto(bad, &recordinfer.Options{}); err == nil {
				t.Failf("accepted")
			}
			t.Outcome("refused CSV")
		})
	}
}
