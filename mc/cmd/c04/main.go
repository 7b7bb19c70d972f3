// C04: decoding errors are located exactly and do not disturb the rows around them (all fault sequences).
package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/google/xtoproto/csvcoder"
	"verif/mc/csvref"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C04", Level: "fault_enumeration", Procs: 8,
		Rule: "every sequence, up to the length bound, of record-source events (good row, row with a bad cell in each column, short row, over-long row, empty row, source error with and without a record) after a header event, read to the end with Read (going on after errors) and with ReadAll under every failing-callback position; and files of hundreds and thousands of rows with each event at every place of a list, once and again and again; non-trivial: the sequence has at least one fault followed or preceded by another row",
	}, run)
}

type ev struct {
	name string
	row  []string
	err  error
}

type src struct {
	evs   []ev
	pos   int
	extra int
	reuse bool // one buffer for all records
	buf   []string
}

func (s *src) Read() ([]string, error) {
	if s.pos >= len(s.evs) {
		s.extra++
		return nil, io.EOF
	}
	e := s.evs[s.pos]
	s.pos++
	if s.reuse {
		for i := range s.buf {
			s.buf[i] = "gone"
		}
		s.buf = append(s.buf[:0], e.row...)
		return s.buf, e.err
	}
	return append([]string(nil), e.row...), e.err
}

var errSource = errors.New("source broke")

// errCut is an error of the source that mentions the end of the file without being it.
var errCut = fmt.Errorf("%w: cut off: %w", errSource, io.EOF)

var errCB = errors.New("callback says stop")

func run(c *kit.C) {
	type setup struct {
		proto  interface{}
		header []string
		evs    []ev
	}
	setups := []setup{
		{&csvref.Two{}, []string{"Bee", "X", "A"}, []ev{
			{"good", []string{"5", "e", "v"}, nil},
			{"good2", []string{"-6", "", "%d %s"}, nil},
			{"bad", []string{"5x%v", "e", "v"}, nil},
			{"short0", []string{"8", "e"}, nil},
			{"empty", []string{}, nil},
			{"long", []string{"9", "e", "w", "more"}, nil},
			{"err", nil, errSource},
			{"err+row", []string{"7", "e"}, errSource},
			{"cut", nil, errCut},
		}},
		{&csvref.Placed{}, []string{"T", "C"}, []ev{
			{"good", []string{"t", "on"}, nil},
			{"blank", []string{"", ""}, nil},
			{"one", []string{""}, nil},
			{"cut", nil, errCut},
		}},
		{&csvref.Shared{}, []string{"A", "C", "Bee"}, []ev{
			{"good", []string{"a", "yes", "5"}, nil},
			{"good2", []string{"b", "off", "2147483647"}, nil},
			{"range", []string{"a", "yes", "2147483648"}, nil},
			{"badbool", []string{"a", "maybe", "5"}, nil},
			{"two bad", []string{"a", "maybe", "zz"}, nil},
			{"short", []string{"a", "no"}, nil},
			{"err", nil, errSource},
		}},
		{&csvref.Own{}, []string{"A", "T", "Bee"}, []ev{
			{"good", []string{"255", "20C", "1.5"}, nil},
			{"badT", []string{"255", "20F", "1.5"}, nil},
			{"badF", []string{"255", "20C", "x"}, nil},
			{"badU", []string{"256", "20C", "7"}, nil},
			{"negU", []string{"-1", "20C", "7"}, nil},
			{"err", nil, errSource},
		}},
	}
	for _, s := range setups {
		csvcoder.RegisterRowStruct(reflect.TypeOf(s.proto))
	}
	positions(c)
	for si, s := range setups {
		far(c, si, s.proto, s.header, s.evs)
		for _, path := range []string{"dir/f.csv", "", "odd %s:1.csv"} {
			depth := c.Pick(4, 6)
			if path != "dir/f.csv" {
				depth = 2
			}
			// faults of the header itself
			for _, h := range []ev{{"eof", nil, io.EOF}, {"err", nil, errSource}, {"cut", nil, errCut}, {"missing", s.header[:1], nil}} {
				c.Case(fmt.Sprintf("setup %d path %q header fault %s", si, path, h.name), func(t *kit.T) {
					evs := []ev{h}
					if h.name == "eof" {
						evs = nil
					}
					fp, err := csvcoder.NewFileParser(&src{evs: evs}, path, s.proto)
					if err == nil || fp != nil {
						t.Failf("parser made although the header cannot be used: err=%v", err)
						return
					}
					if h.name == "err" && !errors.Is(err, errSource) {
						t.Failf("error %v does not carry the source's error", err)
					}
					t.Outcome("header refused")
				})
			}
			for n := 0; n <= depth; n++ {
				ok := kit.Seqs(len(s.evs), n, func(idx []int) bool {
					var evs []ev
					var names []string
					evs = append(evs, ev{"header", s.header, nil})
					faults := 0
					for _, k := range idx {
						evs = append(evs, s.evs[k])
						names = append(names, s.evs[k].name)
					}
					key := fmt.Sprintf("setup %d path %q rows %v", si, path, names)
					c.Case(key, func(t *kit.T) {
						readEach(t, s.proto, s.header, path, evs, &faults)
						if faults == 0 || n < 2 {
							t.Trivial()
						}
						t.Outcome(fmt.Sprintf("%d faults", faults))
					})
					for cb := 0; cb <= n; cb++ {
						if n > 3 && !c.Thorough() {
							break
						}
						for _, cbErr := range []error{errCB, io.EOF} {
							c.CaseF(func() string { return fmt.Sprintf("%s, ReadAll, callback fails at %d with %v", key, cb, cbErr) }, func(t *kit.T) {
								readAll(t, s.proto, s.header, path, evs, cb, cbErr)
							})
						}
					}
					return !c.Stop()
				})
				if !ok {
					return
				}
			}
		}
	}
}

// far: long files with faults at, before and after places far from the start.
func far(c *kit.C, si int, proto interface{}, header []string, kinds []ev) {
	var good []ev
	for _, e := range kinds {
		if strings.HasPrefix(e.name, "good") || e.name == "blank" {
			good = append(good, e)
		}
	}
	type place struct{ n, at int }
	var places []place
	long := 0
	if si == 0 || c.Thorough() {
		long = 70000
	}
	for _, n := range []int{9, 100, 1100, c.Pick(0, 5000), long} {
		for _, at := range []int{0, 8, 9, 98, 99, 127, 255, 256, 511, 512, 998, 999, 1000, 1023, 1024, 2047, 4095, 4096, 65535, 65536} {
			if at < n && (n < 70000 || at < 10 || at > 50000 || c.Thorough()) {
				places = append(places, place{n, at})
			}
		}
	}
	c.Parallel(len(places), func(i int) {
		n, at := places[i].n, places[i].at
		for _, k := range kinds {
			for every := 0; every < 2 && !c.Stop(); every++ { // once, and in every row from there on
				c.CaseF(func() string { return fmt.Sprintf("setup %d: %d rows, %s at %d, %d", si, n, k.name, at, every) }, func(t *kit.T) {
					evs := []ev{{"header", header, nil}}
					for i := 0; i < n; i++ {
						if i == at || i > at && every > 0 {
							evs = append(evs, k)
						} else {
							evs = append(evs, good[i%len(good)])
						}
					}
					faults := 0
					readEach(t, proto, header, "dir/f.csv", evs, &faults)
					readAll(t, proto, header, "dir/f.csv", evs, at+1, errCB)
					t.Outcome("far")
				})
			}
		}
	})
}

// setWhere completes what a decoder that looks at its row must see.
func setWhere(want map[string]interface{}, path string, num int, header, row []string) {
	if p, ok := want["P"].(csvref.Place); ok {
		p.Where = csvref.Where(path, num, header, row)
		want["P"] = p
	}
}

// positions: how a row's place is shown.
func positions(c *kit.C) {
	for _, path := range []string{"", "f.csv", "dir/odd %s:1.csv", " "} {
		for _, n := range []csvcoder.RowNumber{csvcoder.InvalidRow, 0, 1, 8, 9, 10, 99, 1<<31 - 1} {
			c.Case(fmt.Sprintf("position of row %d of %q", n, path), func(t *kit.T) {
				want := fmt.Sprint(int(n) + 1)
				if n == csvcoder.InvalidRow {
					want = "<unknown row number>"
				}
				if path != "" {
					want = path + ":" + want
				}
				r := csvcoder.NewRow([]string{"zz"}, csvcoder.NewHeader([]string{"Bee"}), n, path)
				if got := r.PositionString(); got != want {
					t.Failf("position %q, want %q", got, want)
				}
				err := csvcoder.ParseRow(r, &csvref.Two{})
				if err == nil || !strings.HasPrefix(err.Error(), want+": ") {
					t.Failf("error %v, want one at %q", err, want)
				}
			})
		}
	}
}

func readEach(t *kit.T, proto interface{}, header []string, path string, evs []ev, faults *int) {
	*faults = 0
	reuse := len(evs)%2 == 0
	t.Transitions(len(evs))
	fp, err := csvcoder.NewFileParser(&src{evs: evs, reuse: reuse}, path, proto)
	if err != nil {
		t.Failf("header refused: %v", err)
		return
	}
	type row struct {
		got  interface{}
		want map[string]interface{}
	}
	var kept []row
	defer func() {
		for i, r := range kept {
			if s := csvref.Compare(r.got, r.want); s != "" {
				t.Failf("good row %d changed when later rows were read: %s", i, s)
			}
		}
	}()
	for i, e := range evs[1:] {
		got, err := fp.Read()
		if err == io.EOF {
			t.Failf("row %d (%s): end of file", i, e.name)
			return
		}
		ord := i + 2
		where := fmt.Sprintf("%d", ord)
		if path != "" {
			where = path + ":" + where
		}
		if e.err != nil {
			*faults++
			if !errors.Is(err, errSource) {
				t.Failf("row %d (%s): error %v does not carry the source's error", i, e.name, err)
				continue
			}
			if !strings.HasPrefix(err.Error(), where+": ") {
				t.Failf("row %d (%s): error %q is not located at %q", i, e.name, err, where)
			}
			continue
		}
		want, ok, _, bad := csvref.Row(proto, header, e.row)
		setWhere(want, path, ord-1, header, e.row)
		if err == nil && ok {
			if s := csvref.Compare(got, want); s != "" {
				t.Failf("row %d (%s): %s", i, e.name, s)
			}
			kept = append(kept, row{got, want})
			continue
		}
		again := reflect.New(reflect.TypeOf(proto).Elem()).Interface()
		direct := csvcoder.ParseRow(csvcoder.NewRow(e.row, csvcoder.NewHeader(header), csvcoder.RowNumber(ord-1), path), again)
		if !ok {
			*faults++
			if err == nil {
				t.Failf("row %d (%s) accepted", i, e.name)
				continue
			}
			for _, er := range []error{err, direct} {
				if er == nil {
					t.Failf("row %d (%s) accepted by ParseRow", i, e.name)
					continue
				}
				if !strings.HasPrefix(er.Error(), where+": ") {
					t.Failf("row %d (%s): error %q is not located at %q", i, e.name, er, where)
				}
				if !strings.Contains(er.Error(), bad) {
					t.Failf("row %d (%s): error %q does not show %q", i, e.name, er, bad)
				}
			}
			continue
		}
		t.Failf("row %d (%s) refused: %v", i, e.name, err)
	}
	for k := 0; k < 2; k++ {
		if v, err := fp.Read(); err != io.EOF || v != nil {
			t.Failf("after the last row: %v, %v; want EOF", v, err)
		}
	}
}

func readAll(t *kit.T, proto interface{}, header []string, path string, evs []ev, failAt int, cbErr error) {
	s := &src{evs: evs, reuse: len(evs)%3 == 0}
	fp, err := csvcoder.NewFileParser(s, path, proto)
	if err != nil {
		t.Failf("header refused: %v", err)
		return
	}
	// what must happen
	wantErr := "none"
	var want []map[string]interface{}
	read := 1
	for _, e := range evs[1:] {
		read++
		if e.err != nil {
			wantErr = "source"
			break
		}
		f, ok, _, _ := csvref.Row(proto, header, e.row)
		setWhere(f, path, read-1, header, e.row)
		if !ok {
			wantErr = "row"
			break
		}
		want = append(want, f)
		if len(want)-1 == failAt {
			wantErr = "callback"
			break
		}
	}
	n := 0
	err = fp.ReadAll(func(v interface{}) error {
		if n >= len(want) {
			t.Failf("callback called %d times, want %d", n+1, len(want))
			return nil
		}
		if d := csvref.Compare(v, want[n]); d != "" {
			t.Failf("callback %d: %s", n, d)
		}
		n++
		if n-1 == failAt {
			return cbErr
		}
		return nil
	})
	if n != len(want) {
		t.Failf("callback called %d times, want %d", n, len(want))
	}
	if s.pos != read {
		t.Failf("%d records taken from the source, want %d", s.pos, read)
	}
	switch wantErr {
	case "none":
		if err != nil {
			t.Failf("ReadAll: %v", err)
		}
	case "source":
		if !errors.Is(err, errSource) {
			t.Failf("ReadAll error %v does not carry the source's error", err)
		}
	case "callback":
		if !errors.Is(err, cbErr) {
			t.Failf("ReadAll error %v is not the callback's", err)
		}
	case "row":
		if err == nil || err == io.EOF || errors.Is(err, cbErr) {
			t.Failf("ReadAll error %v, want the row's error", err)
		} else if where := fmt.Sprintf("%d: ", read); !strings.HasPrefix(strings.TrimPrefix(err.Error(), path+":"), where) {
			t.Failf("ReadAll error %q is not located at row %d", err, read)
		}
	}
	t.Outcome("ReadAll ended by " + wantErr)
}
