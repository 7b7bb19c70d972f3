// C03: CSV rows decode exactly: for every header order, extra columns and cell values.
package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/google/xtoproto/csvcoder"
	"verif/mc/csvref"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C03", Level: "model_checking",
		Rule: "every header over the column alphabet up to the length bound (required columns in every order and position, extra and missing ones) for each of 9 row types, times every sequence of rows over the cell alphabet up to the bound, written as CSV text in two styles (minimal; every cell quoted, CR LF, record buffer reused), read through csv.Reader and FileParser with Read and ReadAll, and each row also through ParseRow; names one edit away from each required column in its place and beside it at every place; files of hundreds of columns and thousands of rows; every pair of row types that must be taken or refused; compared with an independent reference decoder. Non-trivial: the header has every required column and at least one row follows",
	}, run)
}

func clip(h []string) []string {
	if len(h) > 20 {
		return append(append([]string(nil), h[:20]...), fmt.Sprintf("... %d in all", len(h)))
	}
	return h
}

func clip2(r [][]string) [][]string {
	var out [][]string
	for i, x := range r {
		if i == 5 {
			return append(out, []string{fmt.Sprintf("... %d rows in all", len(r))})
		}
		out = append(out, clip(x))
	}
	return out
}

// sample cells that every kind accepts, by kind.
var fit = map[string][]string{
	"string": {"x", "", "a\"b,c\nd"}, "int64": {"7", "-129", "300"}, "int8": {"7", "-128", "0"}, "int32": {"7", "-129", "300"},
	"uint8": {"7", "255", "0"}, "bool": {"tRuE", "0", "off"}, "float": {"1.5", "7", "300"}, "celsius": {"21C", "-3C", "0C"}, "place": {"x", "", "q"},
}

// header is a fitting header of the type, each column once.
func header(proto interface{}) (h, kinds []string) {
	for _, f := range csvref.Spec[csvref.TypeName(proto)] {
		if csvref.Index(h, f.Col) < 0 {
			h, kinds = append(h, f.Col), append(kinds, f.Kind)
		}
	}
	return
}

// near lists names that look like a column's name and are others.
func near(s string) []string {
	out := []string{" " + s, s + " ", "\t" + s, s + "\n", "\ufeff" + s, s + "s", s + "\x00", s + s + "2", s + ",", "\"" + s + "\"", s + "_", "Ａ" + s, s + ".1", s + "\u0301"}
	for _, v := range []string{strings.ToUpper(s), strings.ToLower(s), strings.Title(s)} {
		if v != s {
			out = append(out, v)
		}
	}
	if len(s) > 1 {
		out = append(out, s[1:], s[:len(s)-1], strings.ReplaceAll(s, " ", "_"), strings.ReplaceAll(s, " ", ""), strings.ReplaceAll(s, " ", "  "))
	}
	return out
}

func more(c *kit.C) {
	for pi, proto := range csvref.Types {
		h, kinds := header(proto)
		row := make([]string, len(h))
		for i, k := range kinds {
			row[i] = fit[k][0]
		}
		n := int64(0)
		for j, col := range h {
			for _, v := range near(col) {
				if csvref.Index(h, v) >= 0 {
					continue
				}
				// in place of the column: missing
				hh := append([]string(nil), h...)
				hh[j] = v
				one(c, proto, hh, nil)
				// beside it, at every place: no effect
				for at := 0; at <= len(h); at++ {
					hh := append(append(append([]string(nil), h[:at]...), v), h[at:]...)
					rr := append(append(append([]string(nil), row[:at]...), "other"), row[at:]...)
					one(c, proto, hh, [][]string{rr, rr})
					n++
				}
			}
		}
		c.Part("near-miss headers "+csvref.TypeName(proto), n)
		// wide files: the columns far apart in a crowd, in both directions
		for _, gap := range []int{1, 63, 300} {
			for dir := 0; dir < 2; dir++ {
				var hh []string
				rows := make([][]string, 3)
				for x := range h {
					k := x
					if dir == 1 {
						k = len(h) - 1 - x
					}
					for g := 0; g < gap; g++ {
						hh = append(hh, fmt.Sprintf("%s~%d", h[k], g))
						for r := range rows {
							rows[r] = append(rows[r], "other")
						}
					}
					hh = append(hh, h[k])
					for r := range rows {
						rows[r] = append(rows[r], fit[kinds[k]][r])
					}
				}
				if len(hh) > 0 {
					one(c, proto, hh, rows)
				}
			}
		}
		// long files: the cells of every row tell its number where they can
		var rows [][]string
		long := c.Pick(5000, 100000)
		if pi < 2 && !c.Thorough() {
			long = 70000
		}
		for r := 0; r < long; r++ {
			x := make([]string, len(h), len(h)+1)
			for i, k := range kinds {
				x[i] = fit[k][r%3]
				switch k {
				case "string", "place", "int64", "int32":
					x[i] = fmt.Sprint(r)
				case "celsius":
					x[i] = fmt.Sprintf("%dC", r)
				}
			}
			rows = append(rows, append(x, "z"))
		}
		one(c, proto, append(append([]string(nil), h...), "last"), rows)
	}
	types(c)
}

type (
	inner    struct{ Q string }
	Exported struct{ Q string }
	// ByRow reads rows itself.
	ByRow struct {
		Seen string
		err  error
	}
)

// ParseCSVRow is called by ParseRow.
func (b *ByRow) ParseCSVRow(r *csvcoder.Row) error {
	b.Seen = fmt.Sprintf("%q %q %d %q", r.Strings(), r.Header().ColumnNames(), r.Number().Offset(), r.Path())
	return b.err
}

// types: which row types are taken, before and after refused ones.
func types(c *kit.C) {
	type cand struct {
		proto interface{}
		ok    bool
		h     []string
		row   []string
	}
	cands := []cand{
		{&struct{ A chan int }{}, false, nil, nil},
		{&struct{ A *int }{}, false, nil, nil},
		{&struct{ A []string }{}, false, nil, nil},
		{&struct{ A struct{ B string } }{}, false, nil, nil},
		{&struct{ Exported }{}, false, nil, nil},
		{&struct{ A interface{} }{}, false, nil, nil},
		{&struct {
			A string
			B func()
		}{}, false, nil, nil},
		{struct{ A string }{}, false, nil, nil},
		{new(int), false, nil, nil},
		{map[string]string{}, false, nil, nil},
		{"", false, nil, nil},
		{&struct {
			A chan int `csv-skip:""`
			B string
		}{}, true, []string{"B"}, []string{"x"}},
		{&struct {
			A chan int `csv-skip:"false"`
			B string   `csv:"b"`
		}{}, true, []string{"b"}, []string{"x"}},
		{&struct {
			inner
			B string
		}{}, true, []string{"B"}, []string{"x"}},
		{&struct {
			c chan int `csv:"B"`
			B string
		}{}, true, []string{"B"}, []string{"x"}},
		{&struct {
			_ int
			B string
		}{}, true, []string{"B"}, []string{"x"}},
		{&struct{}{}, true, []string{"B"}, []string{"x"}},
	}
	try := func(t *kit.T, x cand) {
		ty := reflect.TypeOf(x.proto)
		err := csvcoder.SafeRegisterRowStruct(ty)
		if (err == nil) != x.ok {
			t.Failf("registering %v: %v, want taken=%v", ty, err, x.ok)
			return
		}
		panicked := func() (p interface{}) {
			defer func() { p = recover() }()
			csvcoder.RegisterRowStruct(ty)
			return
		}()
		if (panicked == nil) != x.ok {
			t.Failf("RegisterRowStruct(%v) panicked with %v, want taken=%v", ty, panicked, x.ok)
		}
		h, row := x.h, x.row
		if !x.ok {
			h, row = []string{"A", "B", "Q"}, []string{"1", "2", "3"}
		}
		fp, err := csvcoder.NewFileParser(reader(1, h, [][]string{row}), "f", x.proto)
		if (err == nil) != x.ok {
			t.Failf("NewFileParser for %v: %v, want taken=%v", ty, err, x.ok)
			return
		}
		if !x.ok {
			if ty.Kind() == reflect.Ptr {
				if err := csvcoder.ParseRow(csvcoder.NewRow(row, csvcoder.NewHeader(h), 1, "f"), reflect.New(ty.Elem()).Interface()); err == nil {
					t.Failf("ParseRow into %v succeeds, want an error", ty)
				}
			}
			t.Outcome("refused")
			return
		}
		v, err := fp.Read()
		if err != nil {
			t.Failf("%v: %v", ty, err)
			return
		}
		rv := reflect.ValueOf(v).Elem()
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).Name == "B" {
				if rv.Field(i).String() != "x" {
					t.Failf("%v: B = %q, want x", ty, rv.Field(i))
				}
			} else if !rv.Field(i).IsZero() {
				t.Failf("%v: field %s is set", ty, rv.Type().Field(i).Name)
			}
		}
		t.Outcome("taken")
	}
	for i, x := range cands {
		for j, y := range cands {
			x, y := x, y
			c.Case(fmt.Sprintf("row types %v then %v (%d, %d)", reflect.TypeOf(x.proto), reflect.TypeOf(y.proto), i, j), func(t *kit.T) {
				done := make(chan bool)
				go func() {
					defer close(done)
					try(t, x)
					try(t, y)
					try(t, x)
				}()
				select {
				case <-done:
				case <-time.After(time.Minute):
					t.Failf("deadlock: no answer in a minute")
					t.Definite()
				}
			})
			if c.Stop() {
				return
			}
		}
	}
	for _, fail := range []error{nil, fmt.Errorf("own %s", "trouble")} {
		fail := fail
		c.Case(fmt.Sprintf("a destination that parses rows itself, error %v", fail), func(t *kit.T) {
			row := csvcoder.NewRow([]string{"1", "2"}, csvcoder.NewHeader([]string{"x", "y"}), 4, "p")
			for i := 0; i < 3; i++ {
				b := &ByRow{err: fail}
				err := csvcoder.ParseRow(row, b)
				want := fmt.Sprintf("%q %q %d %q", []string{"1", "2"}, []string{"x", "y"}, 4, "p")
				if b.Seen != want {
					t.Failf("ParseCSVRow was told %s, want %s", b.Seen, want)
				}
				if !errors.Is(err, fail) || (err == nil) != (fail == nil) {
					t.Failf("error %v, want %v", err, fail)
				}
				if now := fmt.Sprintf("%q %q %d %q", row.Strings(), row.Header().ColumnNames(), row.Number().Offset(), row.Path()); now != want {
					t.Failf("ParseRow left the row as %s, it was %s", now, want)
				}
			}
		})
	}
}

func run(c *kit.C) {
	more(c)
	cols := []string{"A", "Bee", "C", "T", "bee", "a b", "", "X"}
	cells := []string{"x", "7", "-129", "300", "tRuE", "0", "21C", "", " 7", "1.5", "y z", "a\"b,c\nd"}
	maxHdr := c.Pick(4, 5)
	for _, proto := range csvref.Types {
		proto := proto
		var hdrs [][]string
		kit.Strings(cols, maxHdr, func(h []string) bool {
			if len(h) == 0 {
				return true
			}
			seen := map[string]int{}
			for _, x := range h {
				seen[x]++
			}
			for _, f := range csvref.Spec[csvref.TypeName(proto)] {
				if seen[f.Col] > 1 {
					return true // which of two equal columns is meant is not promised
				}
			}
			hdrs = append(hdrs, append([]string(nil), h...))
			return true
		})
		c.Part("headers "+csvref.TypeName(proto), int64(len(hdrs)))
		c.Parallel(len(hdrs), func(i int) {
			h := hdrs[i]
			if len(csvref.Missing(proto, h)) > 0 {
				one(c, proto, h, nil)
				return
			}
			// one row: every combination of cells in the required columns, fixed elsewhere
			var req []int
			for j, col := range h {
				for _, f := range csvref.Spec[csvref.TypeName(proto)] {
					if f.Col == col {
						req = append(req, j)
						break
					}
				}
			}
			alpha := cells
			if len(h) > 3 && !c.Thorough() {
				alpha = cells[:8]
			}
			var good [][]string
			kit.StringsN(alpha, len(req), func(v []string) bool {
				row := make([]string, len(h))
				for k := range row {
					row[k] = []string{"extra", "", "7", "a\"b,\nc"}[k%4]
				}
				for k, j := range req {
					row[j] = v[k]
				}
				one(c, proto, h, [][]string{row})
				if _, ok, _, _ := csvref.Row(proto, h, row); ok && len(good) < 3 {
					good = append(good, row)
				}
				return !c.Stop()
			})
			// several rows: sequences of good rows
			for n := 2; n <= 3; n++ {
				if len(good) == 0 {
					break
				}
				kit.Seqs(len(good), n, func(idx []int) bool {
					var rows [][]string
					for _, k := range idx {
						rows = append(rows, good[k])
					}
					one(c, proto, h, rows)
					return true
				})
			}
		})
	}
}

// quoted writes records with every cell in quotes, CR LF between lines and none at the end.
func quoted(rows [][]string) []byte {
	var lines []string
	for _, r := range rows {
		var cells []string
		for _, v := range r {
			cells = append(cells, `"`+strings.ReplaceAll(v, `"`, `""`)+`"`)
		}
		lines = append(lines, strings.Join(cells, ","))
	}
	return []byte(strings.Join(lines, "\r\n"))
}

// reader gives a record reader over the rows in one of the two styles.
func reader(style int, h []string, rows [][]string) csvcoder.RowReader {
	all := append([][]string{h}, rows...)
	if style == 1 {
		rd := csv.NewReader(bytes.NewReader(quoted(all)))
		rd.FieldsPerRecord = -1
		rd.ReuseRecord = true
		return rd
	}
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	w.WriteAll(all)
	rd := csv.NewReader(bytes.NewReader(buf.Bytes()))
	rd.FieldsPerRecord = -1
	return rd
}

func one(c *kit.C, proto interface{}, h []string, rows [][]string) {
	for style := 0; style < 2; style++ {
		styled(c, style, proto, h, rows)
	}
}

func styled(c *kit.C, style int, proto interface{}, h []string, rows [][]string) {
	name := csvref.TypeName(proto)
	c.CaseF(func() string {
		return fmt.Sprintf("%s header=%q rows=%q style %d", name, clip(h), clip2(rows), style)
	}, func(t *kit.T) {
		if len(rows) == 0 {
			t.Trivial()
		}
		rd := reader(style, h, rows)
		if style == 0 && len(h) == 1 && h[0] == "" {
			// a single empty column is an empty line to encoding/csv
			t.Trivial()
			return
		}
		fp, err := csvcoder.NewFileParser(rd, "f.csv", proto)
		missing := csvref.Missing(proto, h)
		if len(missing) > 0 {
			t.Outcome("refused: missing columns")
			if err == nil {
				t.Failf("header accepted though columns %v are missing", missing)
				return
			}
			for m := range missing {
				if !strings.Contains(err.Error(), fmt.Sprintf("%q", m)) {
					t.Failf("error %q does not name missing column %q", err, m)
				}
			}
			return
		}
		if err != nil {
			t.Failf("header refused: %v", err)
			return
		}
		t.States(1)
		var vals []interface{}
		var wants []map[string]interface{}
		allGood := true
		num := 0
		for i, r := range rows {
			if style == 0 && len(r) == 1 && r[0] == "" {
				continue // an empty line, skipped by encoding/csv
			}
			want, ok, known, _ := csvref.Row(proto, h, r)
			if !known {
				t.Trivial()
				return
			}
			got, err := fp.Read()
			t.Transitions(1)
			num++
			if p, is := want["P"].(csvref.Place); is {
				p.Where = csvref.Where("f.csv", num, h, r)
				want["P"] = p
			}
			direct := reflect.New(reflect.TypeOf(proto).Elem()).Interface()
			row := csvcoder.NewRow(r, csvcoder.NewHeader(h), csvcoder.RowNumber(num), "f.csv")
			derr := csvcoder.ParseRow(row, direct)
			// a row can be read again
			if fmt.Sprintf("%q %q", row.Strings(), row.Header().ColumnNames()) != fmt.Sprintf("%q %q", r, h) || int(row.Number().Offset()) != num || row.Path() != "f.csv" {
				t.Failf("after ParseRow %q the row holds %q of %q", r, row.Strings(), row.Header().ColumnNames())
			}
			direct2 := reflect.New(reflect.TypeOf(proto).Elem()).Interface()
			derr2 := csvcoder.ParseRow(row, direct2)
			if (derr == nil) != (derr2 == nil) || derr == nil && !reflect.DeepEqual(direct, direct2) {
				t.Failf("ParseRow %q gave %+v (%v) and then %+v (%v)", r, direct, derr, direct2, derr2)
			}
			if (derr == nil) != ok {
				t.Failf("ParseRow %q: err=%v, want ok=%v", r, derr, ok)
				return
			}
			if !ok {
				allGood = false
				if err == nil {
					t.Failf("row %d %q accepted as %+v, must be refused", i, r, got)
				}
				if err == io.EOF {
					t.Failf("row %d %q: end of file reported instead of an error", i, r)
				}
				t.Outcome("refused: bad cell")
				continue
			}
			if err != nil {
				t.Failf("row %d %q refused: %v", i, r, err)
				return
			}
			if reflect.TypeOf(got) != reflect.TypeOf(proto) {
				t.Failf("row %d decoded as %T, want %T", i, got, proto)
				return
			}
			if s := csvref.Compare(got, want); s != "" {
				t.Failf("row %d %q: %s", i, r, s)
			}
			if s := csvref.Compare(direct, want); s != "" {
				t.Failf("ParseRow %q: %s", r, s)
			}
			vals = append(vals, got)
			wants = append(wants, want)
			t.Outcome("decoded")
			// rows decoded before stay as they were
			for k := range vals[:len(vals)-1] {
				if len(vals) < 10 && vals[k] == got {
					t.Failf("rows %d and %d share one value", k, i)
				}
			}
		}
		if _, err := fp.Read(); err != io.EOF {
			t.Failf("after the last row: err=%v, want EOF", err)
		}
		for k := range vals {
			if s := csvref.Compare(vals[k], wants[k]); s != "" {
				t.Failf("row %d after the whole file was read: %s", k, s)
			}
		}
		// all at once
		fp, err = csvcoder.NewFileParser(reader(style, h, rows), "f.csv", proto)
		if err != nil {
			t.Failf("header refused the second time: %v", err)
			return
		}
		n := 0
		err = fp.ReadAll(func(v interface{}) error {
			if n < len(wants) && allGood {
				if s := csvref.Compare(v, wants[n]); s != "" {
					t.Failf("ReadAll row %d: %s", n, s)
				}
			}
			n++
			return nil
		})
		if allGood && (err != nil || n != len(wants)) {
			t.Failf("ReadAll gave %d rows and error %v, want %d rows", n, err, len(wants))
		}
		t.Traces(1)
		// the prototype is only a type
		if !reflect.ValueOf(proto).Elem().IsZero() {
			t.Failf("the prototype value was written to: %+v", proto)
		}
	})
}
