// C13: the service's Infer call reads exactly the one example it is given and answers with what inference finds in it.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/google/xtoproto/csvinfer"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/service"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C13", Level: "model_checking",
		Rule: "every request over a list of example inputs (content, path, neither, several), names, packages, import paths and time zones, under every outcome of the file reader (content, empty, each kind of error, data with an error), and every history of requests up to the length bound on one service, with the reader's file changing in between, long ones too, and examples of thousands of rows and hundreds of columns. Non-trivial: the request names exactly one input",
	}, run)
}

type ctxKey struct{}

type readRes struct {
	name string
	data string
	err  error
	code codes.Code
}

var errOdd = errors.New("odd %d failure %s")

type call struct {
	path string
	ctx  context.Context
}

type world struct {
	res    readRes
	calls  []call
	writes int
	srv    spb.XToProtoServiceServer
}

func newWorld() *world {
	w := &world{}
	w.srv = service.New("/default/ws", func(ctx context.Context, p string) ([]byte, error) {
		w.calls = append(w.calls, call{p, ctx})
		if w.res.data == "" && w.res.err != nil {
			return nil, w.res.err
		}
		return []byte(w.res.data), w.res.err
	}, func(ctx context.Context, p string, data []byte) error {
		w.writes++
		return nil
	})
	return w
}

type inp struct {
	name string
	f    []*spb.InputFile
	kind string // content, path, none, count
	arg  string
}

func content(s string) *spb.InputFile {
	return &spb.InputFile{Spec: &spb.InputFile_InputContent{InputContent: []byte(s)}}
}
func path(s string) *spb.InputFile {
	return &spb.InputFile{Spec: &spb.InputFile_InputPath{InputPath: s}}
}

var texts = []string{
	"a,b\n1,thing\n",
	"When,Who\n2020-01-02 03:04:05,x\n2020-07-02 03:04:05,\n",
	"x\n1\n2.5\n",
	"x\n\"a\nb\"\n",
	"h1,h2,h3\n,,\n1,2,3\n",
	"only,a,header\n",
	"a,b\n1\n",
	"a,b\n1,\"x\n",
	"a\n2020-01-02T03:04:05Z\n",
	"\n\n",
	"\xff,b\n\x00,2\n",
	"\ufeffa,b\r\n1,\"x\r\ny\"\r\n",
	"a , b\n 1,2 \n",
}

var zones = []string{"", "UTC", "America/New_York", "Asia/Kolkata", "Local", "No/Such", "America/New_York ", "../etc/passwd", "EST5EDT", " UTC", "UTC ", " ", "utc", "-", "Etc/GMT+12", "America/new_york"}

type reqSpec struct {
	in             inp
	msg, pkg       string
	gopkg, goproto string
	zone           string
}

func (r reqSpec) key() string {
	return fmt.Sprintf("in=%s msg=%q pkg=%q go=%q,%q zone=%q", r.in.name, r.msg, r.pkg, r.gopkg, r.goproto, r.zone)
}

func (r reqSpec) request() *spb.InferRequest {
	return &spb.InferRequest{ExampleInputs: r.in.f, InputFormat: spb.Format_CSV, MessageName: r.msg, PackageName: r.pkg, GoPackageName: r.gopkg, GoProtoImport: r.goproto, TimestampLocation: r.zone}
}

// expected gives the wanted answer; ok is false when an error with the given code is wanted.
func (r reqSpec) expected(rr readRes) (want *spb.InferResponse, reads int, ok bool, code codes.Code) {
	loc := time.UTC
	bad := false
	if r.zone != "" {
		l, err := time.LoadLocation(r.zone)
		if err != nil {
			bad = true
		}
		loc = l
	}
	if bad || r.in.kind == "none" || r.in.kind == "count" {
		return nil, 0, false, codes.InvalidArgument
	}
	text := r.in.arg
	if r.in.kind == "path" {
		reads = 1
		if rr.err != nil {
			return nil, reads, false, rr.code
		}
		text = rr.data
	}
	ip, err := csvinfer.InferProto(text, &recordinfer.Options{MessageName: r.msg, PackageName: r.pkg, GoPackageName: r.gopkg, GoProtoImport: r.goproto, TimestampLocation: loc})
	if err != nil {
		return nil, reads, false, codes.Unknown
	}
	return &spb.InferResponse{BestMappingCandidate: &spb.MappingSet{TopLevelMapping: ip.Mapping()}}, reads, true, codes.OK
}

func one(t *kit.T, w *world, r reqSpec, rr readRes, tag interface{}) {
	ctx := context.WithValue(context.Background(), ctxKey{}, tag)
	req := r.request()
	before := proto.Clone(req)
	w.res = rr
	w.calls, w.writes = nil, 0
	resp, err := w.srv.Infer(ctx, req)
	want, reads, ok, code := r.expected(rr)
	if !proto.Equal(before, req) {
		t.Failf("the request was changed")
	}
	if w.writes != 0 {
		t.Failf("Infer wrote a file")
	}
	if len(w.calls) != reads {
		t.Failf("reader called %d times, want %d", len(w.calls), reads)
	}
	for _, cl := range w.calls {
		if cl.path != r.in.arg {
			t.Failf("read %q, want %q", cl.path, r.in.arg)
		}
		if cl.ctx.Value(ctxKey{}) != tag {
			t.Failf("the reader got another context than the caller's")
		}
	}
	if ok {
		t.Outcome("inferred")
		if err != nil {
			t.Failf("refused: %v", err)
		} else if !proto.Equal(want, resp) {
			t.Failf("got %v\nwant %v", resp, want)
		}
		return
	}
	t.Outcome("refused " + code.String())
	if err == nil {
		t.Failf("accepted with %v, want an error %v", resp, code)
		return
	}
	if resp != nil && resp.BestMappingCandidate != nil {
		t.Failf("an error came with a mapping %v", resp)
	}
	if st, isSt := status.FromError(err); !isSt || st.Code() != code {
		t.Failf("error %v has code %v, want %v", err, st.Code(), code)
	}
	if rr.err != nil && reads == 1 {
		if !strings.Contains(err.Error(), rr.err.Error()) || !strings.Contains(err.Error(), r.in.arg) {
			t.Failf("error %q does not tell the path %q and cause %q", err, r.in.arg, rr.err)
		}
	}
}

func run(c *kit.C) {
	nonexist := &os.PathError{Op: "open", Path: "/in/file.csv", Err: syscall.ENOENT}
	perm := &os.PathError{Op: "open", Path: "/in/file.csv", Err: syscall.EACCES}
	var reads []readRes
	for i, s := range texts {
		reads = append(reads, readRes{fmt.Sprintf("text%d", i), s, nil, codes.OK})
	}
	reads = append(reads,
		readRes{"empty", "", nil, codes.OK},
		readRes{"not exist", "", nonexist, codes.NotFound},
		readRes{"ErrNotExist", "", os.ErrNotExist, codes.NotFound},
		readRes{"denied", "", perm, codes.PermissionDenied},
		readRes{"ErrPermission", "", os.ErrPermission, codes.PermissionDenied},
		readRes{"is a directory", "", &os.PathError{Op: "read", Path: "d", Err: syscall.EISDIR}, codes.Unknown},
		readRes{"odd", "", errOdd, codes.Unknown},
		readRes{"cancelled", "", context.Canceled, codes.Unknown},
		readRes{"partial data and error", texts[0], errOdd, codes.Unknown},
		readRes{"partial data and not exist", texts[0], nonexist, codes.NotFound},
	)
	var ins []inp
	for i, s := range texts {
		ins = append(ins, inp{fmt.Sprintf("content%d", i), []*spb.InputFile{content(s)}, "content", s})
	}
	for _, p := range []string{"/in/file.csv", "rel/in.csv", "a b%d.csv", "../up.csv", "x", "-", " "} {
		ins = append(ins, inp{"path " + p, []*spb.InputFile{path(p)}, "path", p})
	}
	ins = append(ins,
		inp{"none", nil, "count", ""},
		inp{"two contents", []*spb.InputFile{content(texts[0]), content(texts[1])}, "count", ""},
		inp{"content and path", []*spb.InputFile{content(texts[0]), path("/x")}, "count", ""},
		inp{"path and empty", []*spb.InputFile{path("/x"), {}}, "count", ""},
		inp{"three", []*spb.InputFile{path("/x"), path("/y"), path("/z")}, "count", ""},
		inp{"no spec", []*spb.InputFile{{}}, "none", ""},
		inp{"empty path", []*spb.InputFile{path("")}, "none", ""},
	)
	type names struct{ msg, pkg, gopkg, goproto string }
	nms := []names{{"", "", "", ""}, {"MyMsg", "my.pkg", "conv", "path/to/pb"}, {"A", "", "x_y", ""}, {"rec_1", "p", "", "q"}, {" My", "p ", " x", "q "}}
	for _, in := range ins {
		rs := reads
		if in.kind != "path" {
			rs = []readRes{{"must not be read", texts[1], nil, codes.OK}, {"must not be read, failing", "", nonexist, codes.NotFound}}
		}
		for _, n := range nms {
			for _, z := range zones {
				for _, rr := range rs {
					r := reqSpec{in, n.msg, n.pkg, n.gopkg, n.goproto, z}
					rr := rr
					c.CaseF(func() string { return r.key() + " reader=" + rr.name }, func(t *kit.T) {
						if in.kind == "none" || in.kind == "count" {
							t.Trivial()
						}
						one(t, newWorld(), r, rr, 1)
					})
				}
			}
		}
	}
	// Histories on one service: no answer depends on an earlier request.
	type step struct {
		r  reqSpec
		rr readRes
	}
	pth := inp{"path", []*spb.InputFile{path("/in/file.csv")}, "path", "/in/file.csv"}
	pth2 := inp{"path2", []*spb.InputFile{path("/in/other.csv")}, "path", "/in/other.csv"}
	n := nms[1]
	steps := []step{
		{reqSpec{pth, n.msg, n.pkg, n.gopkg, n.goproto, ""}, reads[0]},
		{reqSpec{pth, n.msg, n.pkg, n.gopkg, n.goproto, ""}, reads[1]},
		{reqSpec{pth, n.msg, n.pkg, n.gopkg, n.goproto, "America/New_York"}, reads[1]},
		{reqSpec{pth2, n.msg, n.pkg, n.gopkg, n.goproto, ""}, reads[2]},
		{reqSpec{pth, "Other", n.pkg, n.gopkg, n.goproto, ""}, reads[0]},
		{reqSpec{pth, n.msg, n.pkg, n.gopkg, n.goproto, ""}, readRes{"not exist", "", nonexist, codes.NotFound}},
		{reqSpec{pth, n.msg, n.pkg, n.gopkg, n.goproto, "No/Such"}, reads[0]},
		{reqSpec{ins[1], n.msg, n.pkg, n.gopkg, n.goproto, "Asia/Kolkata"}, reads[0]},
		{reqSpec{ins[1], n.msg, n.pkg, n.gopkg, n.goproto, ""}, reads[0]},
		{reqSpec{ins[6], "Other", n.pkg, n.gopkg, n.goproto, ""}, reads[0]},
	}
	depth := 5
	for d := 1; d <= depth; d++ {
		kit.Seqs(len(steps), d, func(idx []int) bool {
			idx = append([]int(nil), idx...)
			c.CaseF(func() string { return fmt.Sprintf("history %v", idx) }, func(t *kit.T) {
				w := newWorld()
				for i, k := range idx {
					one(t, w, steps[k].r, steps[k].rr, i)
				}
				t.Outcome(fmt.Sprintf("history of %d", len(idx)))
			})
			return !c.Stop()
		})
	}
	// long histories: every two steps in turn, and all of them round and round
	long := func(name string, at func(i int) step) {
		c.CaseF(func() string { return "long history " + name }, func(t *kit.T) {
			w := newWorld()
			for i := 0; i < c.Pick(40, 300); i++ {
				s := at(i)
				one(t, w, s.r, s.rr, i)
			}
		})
	}
	for a := range steps {
		for b := range steps {
			long(fmt.Sprint(a, b), func(i int) step { return steps[[]int{a, b}[i%2]] })
		}
		long(fmt.Sprint("from ", a), func(i int) step { return steps[(a+i)%len(steps)] })
		long(fmt.Sprint("rarely ", a), func(i int) step {
			if i%17 == 16 {
				return steps[a]
			}
			return steps[(a+1)%len(steps)]
		})
		if c.Stop() {
			return
		}
	}
	// large examples
	for _, rows := range []int{1, 99, 100, 101, 999, 1000, 1001, 4097, 9999, 10000, 10001, 20000} {
		for _, last := range []string{"1", "1.5", "x", ""} {
			for _, asPath := range []bool{false, true} {
				rows, last, asPath := rows, last, asPath
				c.CaseF(func() string { return fmt.Sprintf("%d rows and %q, by path: %v", rows, last, asPath) }, func(t *kit.T) {
					text := "a,b\n" + strings.Repeat("12,\"x\ny\"\n", rows) + last + ",z\n"
					in := inp{"large", []*spb.InputFile{content(text)}, "content", text}
					if asPath {
						in = inp{"large", []*spb.InputFile{path("/large")}, "path", "/large"}
					}
					one(t, newWorld(), reqSpec{in, "M", "p", "g", "i", ""}, readRes{"large", text, nil, codes.OK}, 0)
				})
			}
		}
	}
	for _, cols := range []int{10, 99, 100, 101, 255, 256, 257, 300, c.Pick(3000, 10000)} {
		for _, asPath := range []bool{false, true} {
			cols, asPath := cols, asPath
			c.CaseF(func() string { return fmt.Sprintf("%d columns, by path: %v", cols, asPath) }, func(t *kit.T) {
				var head, row []string
				for i := 0; i < cols; i++ {
					head = append(head, fmt.Sprint("c", i))
					row = append(row, []string{"1", "1.5", "x", ""}[i%4])
				}
				text := strings.Join(head, ",") + "\n" + strings.Join(row, ",") + "\n"
				in := inp{"wide", []*spb.InputFile{content(text)}, "content", text}
				if asPath {
					in = inp{"wide", []*spb.InputFile{path("/wide")}, "path", "/wide"}
				}
				one(t, newWorld(), reqSpec{in, "M", "p", "g", "i", ""}, readRes{"wide", text, nil, codes.OK}, 0)
			})
		}
	}
}
