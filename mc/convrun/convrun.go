// Package convrun compiles the converters the current generator makes for a list of mappings and runs them on CSV texts.
package convrun

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"go/format"
	"io"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"verif/mc/kit"
	"verif/mc/numref"
	"verif/mc/timeref"
)

// Case is a mapping and its key in case names.
type Case struct {
	Key string
	M   *pb.RecordProtoMapping
}

// Req asks the compiled program to convert a text with converter M.
type Req struct {
	M    int
	Text string
	// Clean says that every row must be read without an error.
	Clean bool
}

// Res is what it did: the outcome of opening, and of each Read until the end.
type Res struct {
	Open  string
	Reads []Read
	All   []Read // by ReadAll: its records, then its error
	Same  string // difference between Read, ReadMessage and hooks, "" if none
	Panic string
}

// Read is the outcome of one read.
type Read struct {
	Err    string
	Fields map[string]string
	// of a reference: the place an error must tell, and the texts of which it must show one
	place string
	shows []string
}

// outOfRange is the value of a cell that can be read but not be put in a message.
const outOfRange = "out of range"

// Cell is what a cell means for a column: its value, and whether it is one.
func Cell(c *pb.ColumnToFieldMapping, s string) (val string, ok, known bool) {
	switch c.ProtoType {
	case "int32", "int64":
		bits := 32
		if c.ProtoType == "int64" {
			bits = 64
		}
		n, ok := numref.Int(s, bits, true)
		if !ok {
			return "", false, true
		}
		return n.String(), true, true
	case "float", "double":
		bits := 32
		if c.ProtoType == "double" {
			bits = 64
		}
		f, ok, known := numref.Float(s, bits)
		return fmt.Sprint(f), ok, known
	case "string":
		return s, true, true
	case "google.protobuf.Timestamp":
		in, ok, known := timeref.Parse(c.GetTimeFormat().GetGoLayout(), s, c.GetTimeFormat().GetTimeZoneName())
		if ok && (in.Sec < timeref.Days(1, 1, 1)*86400 || in.Sec >= timeref.Days(10000, 1, 1)*86400) {
			return outOfRange, false, true
		}
		return fmt.Sprintf("%d.%09d", in.Sec, in.Nano), ok, known
	case "google.protobuf.Duration":
		d, ok := numref.Duration(s + c.GetDurationFormat().GetGoUnitSuffix())
		if !ok {
			return "", false, true
		}
		sec, ns := new(big.Int).QuoRem(d, big.NewInt(1e9), new(big.Int))
		return fmt.Sprintf("%v/%v", sec, ns), true, true
	}
	return "", false, false
}

// Reference is what converting a text must give.
func Reference(m *pb.RecordProtoMapping, text string) (open bool, reads []Read, known bool) {
	r := csv.NewReader(strings.NewReader(text))
	hdr, err := r.Read()
	if err != nil {
		return false, nil, true
	}
	idx := map[string]int{}
	for i, h := range hdr {
		if _, dup := idx[h]; dup {
			return false, nil, false
		}
		idx[h] = i
	}
	for _, c := range m.ColumnToFieldMappings {
		if _, ok := idx[c.ColName]; !ok && !c.Ignored {
			return false, nil, true
		}
	}
	for {
		row, err := r.Read()
		if err == io.EOF {
			return true, reads, true
		}
		rd := Read{Fields: map[string]string{}}
		ordinal := len(reads) + 2
		if err != nil {
			rd.Err = "error"
			rd.place = fmt.Sprintf(":%d: ", ordinal)
		}
		if err == nil {
			for _, c := range m.ColumnToFieldMappings {
				if c.Ignored {
					continue
				}
				v, ok, known := Cell(c, row[idx[c.ColName]])
				if !known {
					return false, nil, false
				}
				if !ok {
					rd.Err = "error"
				}
				if !ok && v != outOfRange {
					rd.place = fmt.Sprintf(":%d: ", ordinal)
					rd.shows = append(rd.shows, row[idx[c.ColName]])
				}
				rd.Fields[c.ProtoName] = v
			}
		}
		reads = append(reads, rd)
	}
}

// Text is the CSV text of the rows.
func Text(rows ...[]string) string {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.WriteAll(rows)
	return b.String()
}

// Live lists the columns that are not ignored.
func Live(m *pb.RecordProtoMapping) (out []*pb.ColumnToFieldMapping) {
	for _, c := range m.ColumnToFieldMappings {
		if !c.Ignored {
			out = append(out, c)
		}
	}
	return
}

func sh(dir string, args ...string) (string, error) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Runner holds the compiled converters.
type Runner struct {
	cases   []Case
	good    map[int]bool
	scratch string
}

// Build generates and compiles the converters; the Go package of case i is gen/m<i>/pb. It is nil if nothing runs.
func Build(c *kit.C, ms []Case) *Runner {
	scratch := os.Getenv("VERIF_SCRATCH")
	gen := filepath.Join(scratch, "gen")
	must(os.MkdirAll(gen, 0o755))
	mod, err := ioutil.ReadFile("mc/go.mod")
	must(err)
	must(ioutil.WriteFile(gen+"/go.mod", bytes.Replace(mod, []byte("module verif/mc"), []byte("module gen"), 1), 0o644))
	sum, err := ioutil.ReadFile("mc/go.sum")
	must(err)
	must(ioutil.WriteFile(gen+"/go.sum", sum, 0o644))
	ok := make([]bool, len(ms))
	c.Parallel(len(ms), func(i int) {
		m := ms[i].M
		dir := fmt.Sprintf("%s/m%d", gen, i)
		generate := func(t *kit.T) {
			t.States(1)
			p, g, err := csvtoproto.GenerateCode(m, true, true)
			if err != nil {
				t.Failf("refused: %v", err)
				return
			}
			if _, g2, _ := csvtoproto.GenerateCode(m, false, true); g2 != g {
				t.Failf("generating only the Go code gives other code")
			}
			if f, err := format.Source([]byte(g)); err != nil || string(f) != g {
				t.Failf("the Go code is not formatted (%v)", err)
			}
			must(os.MkdirAll(dir+"/pb", 0o755))
			must(os.MkdirAll(dir+"/conv", 0o755))
			must(ioutil.WriteFile(dir+"/pb/m.proto", []byte(p), 0o644))
			must(ioutil.WriteFile(dir+"/conv/conv.go", []byte(g), 0o644))
			rel := fmt.Sprintf("m%d/pb/m.proto", i)
			if out, err := sh(gen, "protoc", "-I.", "--plugin=protoc-gen-go="+scratch+"/protoc-gen-go", "--go_out=paths=source_relative,M"+rel+"="+m.GoOptions.ProtoImport+":.", rel); err != nil {
				t.Failf("protoc: %s\n%s", out, p)
				return
			}
			t.Outcome("generated")
		}
		ok[i] = c.Do("generate "+ms[i].Key, generate)
	})
	build := []string{"go", "build", "-overlay", scratch + "/overlay.json"}
	// compile them all; then name those that do not
	good := map[int]bool{}
	for i := range ms {
		good[i] = ok[i]
	}
	if out, err := sh(gen, append(build, "./...")...); err != nil {
		var culprits []int
		for i := range ms {
			if strings.Contains(out, fmt.Sprintf("gen/m%d/", i)) || strings.Contains(out, fmt.Sprintf("m%d/", i)) {
				culprits = append(culprits, i)
			}
		}
		if len(culprits) == 0 {
			panic("go build: " + out)
		}
		for _, i := range culprits {
			i := i
			c.Case("compile "+ms[i].Key, func(t *kit.T) {
				out, err := sh(gen, append(build, fmt.Sprintf("./m%d/...", i))...)
				if err != nil {
					good[i] = false
					code, _ := ioutil.ReadFile(fmt.Sprintf("%s/m%d/conv/conv.go", gen, i))
					_ = code
					t.Failf("the generated code does not compile: %s", out)
				}
			})
		}
	}
	var src bytes.Buffer
	src.WriteString("package main\n\nimport (\n")
	for i := range ms {
		if good[i] {
			fmt.Fprintf(&src, "\tc%d \"gen/m%d/conv\"\n\tp%d %q\n", i, i, i, ms[i].M.GoOptions.ProtoImport)
		}
	}
	src.WriteString(driverImports + ")\n")
	for i := range ms {
		if good[i] {
			fmt.Fprintf(&src, driverOne, i, goName(ms[i].M.MessageName))
		}
	}
	src.WriteString(driverMain)
	must(os.MkdirAll(gen+"/driver", 0o755))
	must(ioutil.WriteFile(gen+"/driver/main.go", src.Bytes(), 0o644))
	if out, err := sh(gen, append(build, "-o", scratch+"/driver", "./driver")...); err != nil {
		c.Case("compile the converters together", func(t *kit.T) { t.Failf("%.3000s", out) })
		return nil
	}
	return &Runner{ms, good, scratch}
}

// Check runs the converters on the requests and compares the outcomes with the reference.
func (rn *Runner) Check(c *kit.C, all []Req) {
	ms, scratch := rn.cases, rn.scratch
	var reqs []Req
	type want struct {
		open  bool
		reads []Read
	}
	var wants []want
	for _, q := range all {
		if !rn.good[q.M] {
			continue
		}
		o, r, known := Reference(ms[q.M].M, q.Text)
		if known {
			reqs = append(reqs, q)
			wants = append(wants, want{o, r})
		}
	}
	b, _ := json.Marshal(reqs)
	must(ioutil.WriteFile(scratch+"/reqs", b, 0o644))
	// The results do not depend on the local time zone, so take one like no other.
	if out, err := sh(scratch, "env", "TZ=America/St_Johns", scratch+"/driver", scratch+"/reqs", scratch+"/ress"); err != nil {
		c.Case("run the converters", func(t *kit.T) { t.Failf("%.3000s", out) })
		return
	}
	b, err := ioutil.ReadFile(scratch + "/ress")
	must(err)
	var ress []Res
	must(json.Unmarshal(b, &ress))
	for k := range reqs {
		k := k
		c.CaseF(func() string { return fmt.Sprintf("%s: %q", ms[reqs[k].M].Key, reqs[k].Text) }, func(t *kit.T) {
			r, w := ress[k], wants[k]
			t.Traces(1)
			t.States(1)
			t.Transitions(len(w.reads))
			if len(w.reads) == 0 {
				t.Trivial()
			}
			if r.Panic != "" {
				t.Failf("panic: %s", r.Panic)
				return
			}
			if (r.Open == "") != w.open {
				t.Failf("opening: %q, want success=%v", r.Open, w.open)
				return
			}
			if !w.open {
				t.Outcome("not opened")
				return
			}
			if len(r.Reads) != len(w.reads) {
				t.Failf("%d reads, want %d: %v", len(r.Reads), len(w.reads), r.Reads)
				return
			}
			errs := 0
			for i := range w.reads {
				if (r.Reads[i].Err == "") != (w.reads[i].Err == "") {
					t.Failf("row %d: error %q, want error=%v", i+1, r.Reads[i].Err, w.reads[i].Err != "")
				}
				if w.reads[i].Err != "" {
					errs++
					if e := r.Reads[i].Err; e != "" && !strings.Contains(e, w.reads[i].place) {
						t.Failf("row %d: error %q does not tell the row as %q", i+1, e, w.reads[i].place)
					}
					shown := len(w.reads[i].shows) == 0
					for _, x := range w.reads[i].shows {
						q := fmt.Sprintf("%q", x)
						shown = shown || strings.Contains(r.Reads[i].Err, x) || strings.Contains(r.Reads[i].Err, q[1:len(q)-1])
					}
					if !shown && r.Reads[i].Err != "" {
						t.Failf("row %d: error %q shows none of the bad cells %q", i+1, r.Reads[i].Err, w.reads[i].shows)
					}
					continue
				}
				if fmt.Sprint(r.Reads[i].Fields) != fmt.Sprint(w.reads[i].Fields) {
					t.Failf("row %d: %v, want %v", i+1, r.Reads[i].Fields, w.reads[i].Fields)
				}
			}
			// ReadAll: the records before the first error, and that error
			stop := len(w.reads)
			for i := range w.reads {
				if w.reads[i].Err != "" {
					stop = i
					break
				}
			}
			if len(r.All) != stop+1 || (r.All[stop].Err == "") != (stop == len(w.reads)) {
				t.Failf("ReadAll gave %v, want %d records, error=%v", r.All, stop, stop < len(w.reads))
			} else {
				for i := 0; i < stop; i++ {
					if fmt.Sprint(r.All[i].Fields) != fmt.Sprint(w.reads[i].Fields) {
						t.Failf("ReadAll row %d: %v, want %v", i+1, r.All[i].Fields, w.reads[i].Fields)
					}
				}
			}
			if r.Same != "" {
				t.Failf("%s", r.Same)
			}
			if reqs[k].Clean && errs > 0 {
				t.Failf("%d rows of the sample cannot be read", errs)
			}
			t.Outcome(fmt.Sprintf("%d rows, %d errors", len(w.reads), errs))
		})
	}
}

// goName is protoc-gen-go's name of a message; the list is kept by hand so that it is independent.
func goName(m string) string {
	if g, ok := map[string]string{"my_msg": "MyMsg", "m": "M", "new": "New", "_1": "X1", "_x": "XX"}[m]; ok {
		return g
	}
	return m
}
