// C14: the service's GenerateCode call writes exactly the requested files at the requested places and nothing else.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/golang/protobuf/proto"
	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	rpb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/service"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C14", Level: "fault_enumeration",
		Rule:  "every request over the lists of workspaces, directories, file names (given and default, relative and absolute), requested outputs, message names and mappings (valid, unusable, missing), with a failure of each kind at each file write; every history of requests up to the length bound on one service, long ones too; mappings of hundreds of columns; and the xtoproto command run as an unprivileged user over real directories (fresh, with older files to replace, with an obstacle at each place). Non-trivial: at least one file is requested",
		Procs: 6,
	}, run)
}

type ctxKey struct{}

type write struct {
	path string
	data string
}

type world struct {
	failAt int
	err    error
	writes []write
	reads  int
	badCtx bool
	tag    interface{}
	srv    spb.XToProtoServiceServer
}

func newWorld(def string) *world {
	w := &world{}
	w.srv = service.New(def, func(ctx context.Context, p string) ([]byte, error) {
		w.reads++
		return nil, errors.New("no reading")
	}, func(ctx context.Context, p string, data []byte) error {
		w.writes = append(w.writes, write{p, string(data)})
		if ctx.Value(ctxKey{}) != w.tag {
			w.badCtx = true
		}
		if len(w.writes) == w.failAt {
			return w.err
		}
		return nil
	})
	return w
}

func mapping(msg string) *rpb.RecordProtoMapping {
	return &rpb.RecordProtoMapping{
		GoOptions:   &rpb.GoOptions{GoPackageName: "conv", ProtoImport: "path/to/pb"},
		MessageName: msg, PackageName: "p",
		ColumnToFieldMappings: []*rpb.ColumnToFieldMapping{
			{ColName: "a", ProtoType: "int64", ProtoName: "a", ProtoTag: 1},
			{ColName: "b", ColumnIndex: 1, ProtoType: "string", ProtoName: "b", ProtoTag: 2},
		},
	}
}

var snakes = map[string]string{"": "untitled_record", "MyMessage": "my_message", "A": "a", "snake_name": "snake_name", "HTTPServer": "http_server"}

type place struct{ dir, name string }

type reqSpec struct {
	def, ws   string
	m         *rpb.RecordProtoMapping
	proto, gc *place
	upd       bool
}

func (r reqSpec) key() string {
	s := func(p *place) string {
		if p == nil {
			return "none"
		}
		return fmt.Sprintf("%q/%q", p.dir, p.name)
	}
	m := "nil"
	if r.m != nil {
		m = fmt.Sprintf("%q,%d columns", r.m.MessageName, len(r.m.ColumnToFieldMappings))
		for _, c := range r.m.ColumnToFieldMappings {
			m += "," + c.ProtoType
		}
		if r.m.GoOptions == nil {
			m += ",no go"
		}
	}
	return fmt.Sprintf("default=%q ws=%q mapping=%s proto=%s go=%s upd=%v", r.def, r.ws, m, s(r.proto), s(r.gc), r.upd)
}

func (r reqSpec) request() *spb.GenerateCodeRequest {
	q := &spb.GenerateCodeRequest{Mapping: r.m, WorkspacePath: r.ws}
	if r.proto != nil {
		q.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: r.proto.dir, ProtoFileName: r.proto.name, UpdateBuildRules: r.upd}
	}
	if r.gc != nil {
		q.Converter = &spb.GenerateCodeRequest_Converter{Directory: r.gc.dir, GoFileName: r.gc.name, UpdateBuildRules: r.upd}
	}
	return q
}

type out struct {
	full, rel, data string
}

type genKey struct {
	m    *rpb.RecordProtoMapping
	p, g bool
}

var genCache = map[genKey]struct {
	p, g string
	err  error
}{}

func defName(msg, given, ext, untitled string) string {
	if given != "" {
		return given
	}
	if msg == "" {
		return untitled
	}
	return snakes[msg] + ext
}

func (r reqSpec) expected() (p, g *out, ok bool) {
	if r.m == nil {
		return nil, nil, false
	}
	k := genKey{r.m, r.proto != nil, r.gc != nil}
	gen, have := genCache[k]
	if !have {
		gen.p, gen.g, gen.err = csvtoproto.GenerateCode(r.m, r.proto != nil, r.gc != nil)
		genCache[k] = gen
	}
	pc, gc, err := gen.p, gen.g, gen.err
	if err != nil {
		return nil, nil, false
	}
	ws := r.ws
	if ws == "" {
		ws = r.def
	}
	mk := func(pl *place, ext, untitled, code string) (*out, bool) {
		if pl == nil {
			return nil, true
		}
		if strings.HasPrefix(pl.dir, "/") || strings.HasPrefix(pl.name, "/") {
			return nil, false
		}
		n := defName(r.m.MessageName, pl.name, ext, untitled)
		return &out{path.Join(ws, pl.dir, n), path.Join(pl.dir, n), code}, true
	}
	p, ok1 := mk(r.proto, ".proto", "untitled_record.proto", pc)
	g, ok2 := mk(r.gc, ".go", "untitled_record_converter.go", gc)
	return p, g, ok1 && ok2
}

func one(t *kit.T, w *world, r reqSpec, failAt int, ferr error, code codes.Code, tag interface{}) {
	w.tag, w.failAt, w.err, w.writes, w.reads, w.badCtx = tag, failAt, ferr, nil, 0, false
	req := r.request()
	before := proto.Clone(req)
	resp, err := w.srv.GenerateCode(context.WithValue(context.Background(), ctxKey{}, tag), req)
	if !proto.Equal(before, req) {
		t.Failf("the request was changed to %v", req)
	}
	if w.reads != 0 {
		t.Failf("a file was read")
	}
	if w.badCtx {
		t.Failf("the writer got another context than the caller's")
	}
	p, g, ok := r.expected()
	if !ok {
		t.Outcome("refused")
		if err == nil || status.Code(err) != codes.InvalidArgument {
			t.Failf("got error %v, want InvalidArgument", err)
		}
		if len(w.writes) != 0 {
			t.Failf("a refused request wrote %q", w.writes[0].path)
		}
		if resp != nil && (resp.ProtoFile != nil || resp.ConverterGoFile != nil) {
			t.Failf("a refused request returned files")
		}
		return
	}
	want := map[string]string{}
	n := 0
	for _, o := range []*out{p, g} {
		if o != nil {
			want[o.full] = o.data
			n++
		}
	}
	fails := failAt > 0 && failAt <= n
	seen := map[string]bool{}
	for _, wr := range w.writes {
		d, known := want[wr.path]
		if !known {
			t.Failf("wrote %q, requested %v", wr.path, keys(want))
			continue
		}
		if d != wr.data {
			t.Failf("wrote to %q other contents than the generated code", wr.path)
		}
		if seen[wr.path] {
			t.Failf("wrote %q twice", wr.path)
		}
		seen[wr.path] = true
	}
	if fails {
		t.Outcome(fmt.Sprintf("write %d of %d fails", failAt, n))
		if len(w.writes) != failAt {
			t.Failf("%d writes, want %d: none after the failing one", len(w.writes), failAt)
		}
		if err == nil {
			t.Failf("a failed write was not reported")
			return
		}
		if status.Code(err) != code {
			t.Failf("error code %v, want %v: %v", status.Code(err), code, err)
		}
		if len(w.writes) >= failAt && (!strings.Contains(err.Error(), w.writes[failAt-1].path) || !strings.Contains(err.Error(), ferr.Error())) {
			t.Failf("error %q does not tell the path %q and cause %q", err, w.writes[failAt-1].path, ferr)
		}
		return
	}
	t.Outcome(fmt.Sprintf("%d files", n))
	if err != nil {
		t.Failf("refused: %v", err)
		return
	}
	if len(w.writes) != n {
		t.Failf("%d writes, want %d", len(w.writes), n)
	}
	wr := &spb.GenerateCodeResponse{}
	if p != nil {
		wr.ProtoFile = &spb.GenerateCodeResponse_File{WorkspaceRelativePath: p.rel, NewContents: []byte(p.data)}
	}
	if g != nil {
		wr.ConverterGoFile = &spb.GenerateCodeResponse_File{WorkspaceRelativePath: g.rel, NewContents: []byte(g.data)}
	}
	if !proto.Equal(wr, resp) {
		t.Failf("response %v\nwant %v", resp, wr)
	}
}

func keys(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func run(c *kit.C) {
	type fault struct {
		name string
		err  error
		code codes.Code
	}
	faults := []fault{
		{"not exist", &os.PathError{Op: "open", Path: "x", Err: syscall.ENOENT}, codes.NotFound},
		{"denied", &os.PathError{Op: "open", Path: "x", Err: syscall.EACCES}, codes.PermissionDenied},
		{"no space", &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, codes.Unknown},
		{"odd", errors.New("odd %s %d failure"), codes.Unknown},
	}
	dirs := []string{"", "gen", "a/b/", "./x", "/abs", "x/../y", "sp ace"}
	pnames := []string{"", "p.proto", "sub/p.proto", "noext", "/abs.proto"}
	gnames := []string{"", "g.go", "sub/g.go", "noext.x", "nogo", "/abs.go"}
	var ps, gs []*place
	ps, gs = append(ps, nil), append(gs, nil)
	for _, d := range dirs {
		for _, n := range pnames {
			ps = append(ps, &place{d, n})
		}
		for _, n := range gnames {
			gs = append(gs, &place{d, n})
		}
	}
	bad := mapping("MyMessage")
	bad.ColumnToFieldMappings[1].ProtoType = "no.such.Type"
	noGo := mapping("MyMessage")
	noGo.GoOptions = nil
	empty := mapping("MyMessage")
	empty.ColumnToFieldMappings = nil
	maps := []*rpb.RecordProtoMapping{mapping("MyMessage"), mapping(""), mapping("A"), mapping("snake_name"), mapping("HTTPServer"), bad, noGo, empty, nil}
	wss := []struct{ def, ws string }{{"/def/ws", ""}, {"/def/ws", "/w"}, {"", "rel/w/"}, {"rel/def", ""}, {"", ""}, {"/def/ws", "rel/w"}}
	for mi, m := range maps {
		for wi, ws := range wss {
			for pi, p := range ps {
				for gi, g := range gs {
					if !c.Thorough() && (mi > 1 || wi > 0) && (pi+gi)%4 != 0 && p != nil && g != nil {
						continue
					}
					for fi := -1; fi < 2*len(faults); fi++ {
						r := reqSpec{ws.def, ws.ws, m, p, g, fi%2 == 0}
						at, f := 0, fault{"none", nil, codes.OK}
						if fi >= 0 {
							at, f = fi/len(faults)+1, faults[fi%len(faults)]
							if _, _, ok := r.expected(); !ok || !c.Thorough() && ws != wss[0] && fi%3 != 0 {
								continue
							}
						}
						c.CaseF(func() string { return fmt.Sprintf("%s fail %d %s", r.key(), at, f.name) }, func(t *kit.T) {
							if p == nil && g == nil {
								t.Trivial()
							}
							one(t, newWorld(r.def), r, at, f.err, f.code, 1)
						})
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	type step struct {
		r  reqSpec
		at int
	}
	m0, m1 := maps[0], maps[2]
	steps := []step{
		{reqSpec{"/def", "", m0, &place{"a", "x.proto"}, &place{"a", "x.go"}, false}, 0},
		{reqSpec{"/def", "/w2", m0, &place{"a", "x.proto"}, nil, false}, 0},
		{reqSpec{"/def", "", m1, &place{"a", "x.proto"}, &place{"b", ""}, false}, 0},
		{reqSpec{"/def", "", m0, &place{"a", "x.proto"}, &place{"a", "x.go"}, false}, 1},
		{reqSpec{"/def", "", m0, &place{"a", "x.proto"}, &place{"a", "x.go"}, false}, 2},
		{reqSpec{"/def", "", m1, nil, &place{"", ""}, false}, 0},
		{reqSpec{"/def", "", m1, &place{"a", ""}, &place{"/a", ""}, false}, 0},
		{reqSpec{"/def", "", bad, &place{"a", ""}, &place{"a", ""}, false}, 0},
	}
	for d := 2; d <= 5; d++ {
		kit.Seqs(len(steps), d, func(idx []int) bool {
			idx = append([]int(nil), idx...)
			c.CaseF(func() string { return fmt.Sprintf("history %v", idx) }, func(t *kit.T) {
				w := newWorld("/def")
				for i, k := range idx {
					one(t, w, steps[k].r, steps[k].at, faults[1].err, faults[1].code, i)
				}
			})
			return !c.Stop()
		})
	}
	// long histories: every two steps in turn
	for a := range steps {
		for b := range steps {
			a, b := a, b
			c.CaseF(func() string { return fmt.Sprint("long history of ", a, " and ", b) }, func(t *kit.T) {
				w := newWorld("/def")
				for i := 0; i < c.Pick(40, 300); i++ {
					s := steps[a]
					if i%2 == 1 && a <= b || i%17 == 16 {
						s = steps[b]
					}
					one(t, w, s.r, s.at, faults[1].err, faults[1].code, i)
				}
			})
		}
		if c.Stop() {
			return
		}
	}
	// mappings of many columns and names of many letters
	for _, k := range []int{9, 63, 64, 65, 99, 100, 101, 255, 256, 257, 300} {
		m := mapping("MyMessage")
		m.ColumnToFieldMappings = nil
		for i := 0; i < k; i++ {
			m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, &rpb.ColumnToFieldMapping{ColName: fmt.Sprint("c", i), ColumnIndex: int32(i), ProtoType: []string{"int64", "string", "double"}[i%3], ProtoName: fmt.Sprint("c", i), ProtoTag: int32(i + 1)})
		}
		for _, pl := range []place{{"a", "x"}, {strings.Repeat("d/", k), "x"}, {strings.Repeat("d", k), strings.Repeat("n", k)}, {"a", ""}} {
			for _, at := range []int{0, 1, 2} {
				k, pl, at := k, pl, at
				c.CaseF(func() string { return fmt.Sprintf("%d columns to %.20q of %d, failing at %d", k, pl, len(pl.dir), at) }, func(t *kit.T) {
					p, g := pl, pl
					if pl.name != "" {
						p.name += ".proto"
						g.name += ".go"
					}
					one(t, newWorld("/def"), reqSpec{"/def", "", m, &p, &g, false}, at, faults[1].err, faults[1].code, 1)
				})
			}
		}
	}
	command(c)
}

const nobody = 65534

type cmdRun struct {
	bin, dir string
	cred     bool
}

// exec runs the command as an unprivileged user that owns nothing but dir.
func (r *cmdRun) exec(args ...string) (int, string) {
	cmd := exec.Command(r.bin, args...)
	cmd.Dir = r.dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + r.dir, "TMPDIR=" + r.dir, "TZ=UTC"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
	o, err := cmd.CombinedOutput()
	if err == nil {
		return 0, string(o)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), string(o)
	}
	return -1, err.Error()
}

func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, _ := ioutil.ReadFile(p)
		rel, _ := filepath.Rel(root, p)
		m[rel] = string(b)
		return nil
	})
	return m
}

// command runs cmd/xtoproto on real directories below the scratch directory.
func command(c *kit.C) {
	base := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprint("cli", os.Getpid()))
	must(os.MkdirAll(base, 0755))
	must(os.Chmod(os.Getenv("VERIF_SCRATCH"), 0711))
	bin := filepath.Join(base, "xtoproto")
	b := exec.Command("go", "build", "-overlay", filepath.Join(os.Getenv("VERIF_SCRATCH"), "overlay.json"), "-o", bin, "./cmd/xtoproto")
	b.Dir = "/repo"
	if o, err := b.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "building cmd/xtoproto: %v\n%s", err, o)
		os.Exit(2)
	}
	must(os.Chmod(bin, 0755))
	if rc, o := (&cmdRun{bin: "/bin/true", dir: base}).exec(); rc != 0 {
		c.Truncate("the command could not be run as an unprivileged user: " + o)
		return
	}
	texts := []string{"a,b\n1,thing\n2,\n", "When,Size,\xc3\xa9t\xc3\xa9\n2020-01-02 03:04:05,1.5,x\n", "x\n1,2\n", ""}
	pre := []string{"fresh", "older files", "obstacle at dir", "obstacle at .proto", "obstacle at .go", "read-only workspace"}
	n := 0
	world := func() (string, *cmdRun) {
		n++
		d := filepath.Join(base, fmt.Sprint("d", n))
		must(os.MkdirAll(filepath.Join(d, "ws"), 0755))
		must(os.Chown(d, nobody, nobody))
		must(os.Chown(filepath.Join(d, "ws"), nobody, nobody))
		return d, &cmdRun{bin: bin, dir: d}
	}
	chownAll := func(d string) {
		must(filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			return os.Chown(p, nobody, nobody)
		}))
	}
	arrange := func(d, how string, protoP, goP string) {
		ws := filepath.Join(d, "ws")
		mk := func(p, s string) {
			must(os.MkdirAll(filepath.Dir(filepath.Join(ws, p)), 0755))
			must(ioutil.WriteFile(filepath.Join(ws, p), []byte(s), 0644))
		}
		dirAt := func(p string) { must(os.MkdirAll(filepath.Join(ws, p), 0755)) }
		switch how {
		case "older files":
			mk(goP, strings.Repeat("// old\n", 5000))
			if protoP != "" {
				mk(protoP, strings.Repeat("// old\n", 5000))
			}
			mk(filepath.Join(filepath.Dir(goP), "keep.txt"), "keep")
		case "obstacle at dir":
			mk(filepath.Dir(goP), "a file")
		case "obstacle at .proto":
			if protoP != "" {
				dirAt(protoP)
			}
		case "obstacle at .go":
			dirAt(goP)
		}
		chownAll(d)
		if how == "read-only workspace" {
			must(os.Chmod(ws, 0555))
		}
	}
	verify := func(t *kit.T, d string, rc int, o string, had map[string]string, ok bool, want map[string]string, maybe string) {
		got := tree(d)
		if (rc == 0) != ok || rc != 0 && rc != 1 {
			t.Failf("exit code %d, want success=%v\n%s", rc, ok, tail(o))
		}
		for p, s := range had {
			if _, w := want[p]; w {
				continue
			}
			if p == maybe {
				continue
			}
			if g, is := got[p]; !is || g != s {
				t.Failf("file %q changed or gone", p)
			}
		}
		for p, s := range got {
			if w, is := want[p]; is {
				if w != s {
					t.Failf("file %q holds %q, want %q", p, tail(s), tail(w))
				}
			} else if _, is := had[p]; !is && p != maybe {
				t.Failf("unexpected file %q", p)
			}
		}
		for p := range want {
			if _, is := got[p]; !is {
				t.Failf("file %q was not written", p)
			}
		}
	}
	const gp, gg = "generated/example.proto", "generated/exampleconv.go"
	for ti, text := range texts {
		for _, how := range pre {
			for _, wsArg := range []string{"ws", "abs", "ws/new/deep"} {
				if wsArg == "ws/new/deep" && how != "fresh" && how != "read-only workspace" {
					continue
				}
				key := fmt.Sprintf("command csv text%d %s ws=%s", ti, how, wsArg)
				text, how, wsArg := text, how, wsArg
				c.Case(key, func(t *kit.T) {
					d, r := world()
					defer os.RemoveAll(d)
					must(ioutil.WriteFile(filepath.Join(d, "in.csv"), []byte(text), 0644))
					arrange(d, how, gp, gg)
					had := tree(d)
					ws := wsArg
					prefix := wsArg
					if wsArg == "abs" {
						ws, prefix = filepath.Join(d, "ws"), "ws"
					}
					rc, o := r.exec("-csv", filepath.Join(d, "in.csv"), "-default_workspace", ws)
					want := map[string]string{}
					ok := how == "fresh" || how == "older files"
					ip, err := csvinfer.InferProto(text, &recordinfer.Options{MessageName: "MyMessage", PackageName: "mypackage", GoPackageName: "example", GoProtoImport: "not/sure"})
					if err != nil {
						ok = false
						t.Outcome("command: sample refused")
					} else {
						pc, gc, err := csvtoproto.GenerateCode(ip.Mapping(), true, true)
						if err != nil {
							t.Failf("generation: %v", err)
							return
						}
						if ok || how == "obstacle at .go" {
							want[prefix+"/"+gp] = pc
						}
						if ok {
							want[prefix+"/"+gg] = gc
						}
						t.Outcome(fmt.Sprintf("command csv success=%v", ok))
					}
					must(os.Chmod(filepath.Join(d, "ws"), 0755))
					maybe := ""
					if !ok && err == nil && how == "obstacle at .proto" {
						maybe = prefix + "/" + gg // whichever file is written first
					}
					verify(t, d, rc, o, had, ok, want, maybe)
					if ok { // doing it again gives the same files
						rc, o := r.exec("-csv", filepath.Join(d, "in.csv"), "-default_workspace", ws)
						verify(t, d, rc, o, had, ok, want, maybe)
					}
				})
			}
		}
	}
	c.Case("command csv missing", func(t *kit.T) {
		d, r := world()
		defer os.RemoveAll(d)
		rc, o := r.exec("-csv", filepath.Join(d, "none.csv"), "-default_workspace", "ws")
		verify(t, d, rc, o, map[string]string{}, false, nil, "")
	})
	// The build-rule mode: a request file and a JSON description of the output.
	for _, how := range []string{"fresh", "older files", "obstacle at dir", "obstacle at .go", "read-only workspace"} {
		for _, short := range []string{"pkg/conv.go", "conv.go", "a/b/c/conv.go"} {
			for _, withProto := range []bool{false, true} {
				for _, req := range []string{"good", "missing", "garbled", "bad json", "bad mapping"} {
					if how == "obstacle at dir" && short == "conv.go" {
						continue
					}
					key := fmt.Sprintf("command json %s %s proto=%v %s", how, short, withProto, req)
					how, short, withProto, req := how, short, withProto, req
					c.Case(key, func(t *kit.T) {
						d, r := world()
						defer os.RemoveAll(d)
						q := &spb.GenerateCodeRequest{Mapping: mapping("MyMessage"), WorkspacePath: "/should/be/replaced",
							Converter: &spb.GenerateCodeRequest_Converter{Directory: "should/be", GoFileName: "replaced.go"}}
						if req == "bad mapping" {
							q.Mapping.ColumnToFieldMappings[0].ProtoType = "nope.Nope"
						}
						pp := ""
						if withProto {
							pp = "protos/x.proto"
							q.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: "protos", ProtoFileName: "x.proto"}
						}
						txt, err := prototext.Marshal(q)
						must(err)
						if req == "garbled" {
							txt = append(txt, []byte(" nonsense: {")...)
						}
						if req != "missing" {
							must(ioutil.WriteFile(filepath.Join(d, "req.pbtxt"), txt, 0644))
						}
						arrange(d, how, pp, short)
						had := tree(d)
						js, _ := json.Marshal(map[string]interface{}{"partial_request_path": filepath.Join(d, "req.pbtxt"),
							"converter_go_output": map[string]string{"short_path": short, "path": filepath.Join(d, "ws", short), "root": filepath.Join(d, "ws")}})
						if req == "bad json" {
							js = bytes.TrimSuffix(js, []byte("}"))
						}
						rc, o := r.exec("-codegen_request_json", string(js))
						ok := req == "good" && (how == "fresh" || how == "older files")
						want := map[string]string{}
						pc, gc, err := csvtoproto.GenerateCode(mapping("MyMessage"), withProto, true)
						must(err)
						maybe := ""
						if ok {
							want["ws/"+short] = gc
						}
						if withProto && ok {
							want["ws/"+pp] = pc
						}
						if withProto && !ok && req == "good" && (how == "obstacle at .go" || how == "obstacle at dir") {
							maybe = "ws/" + pp
						}
						must(os.Chmod(filepath.Join(d, "ws"), 0755))
						t.Outcome(fmt.Sprintf("command json success=%v", ok))
						verify(t, d, rc, o, had, ok, want, maybe)
						if ok {
							rc, o := r.exec("-codegen_request_json", string(js))
							verify(t, d, rc, o, had, ok, want, maybe)
						}
					})
				}
			}
		}
	}
}

func tail(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
