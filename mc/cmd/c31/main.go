// C31: the xtoproto command writes exactly the files its service answers with, and fails visibly otherwise.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	pb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/service"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C31", Level: "model_checking",
		Rule: "runs of the built command in directories of their own: on every CSV text up to a number of pieces, and on long and wide ones; on every combination of the state of the CSV file, the workspace and each output file (absent, present, a directory in the way, a file in the way, a full device) and ways to name them; in bazel mode on every combination of request file, JSON text, output path and workspace. The exit status, the files and the printed answers are compared with those of the service asked directly in memory. Non-trivial: the command succeeds",
	}, run)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// memory is the file system of the reference.
type memory struct {
	read  func(path string) ([]byte, error)
	bad   map[string]bool // paths that cannot be written
	wrote map[string]string
}

var errDisk = errors.New("cannot")

func (m *memory) service(ws string) spb.XToProtoServiceServer {
	return service.New(ws, func(_ context.Context, p string) ([]byte, error) { return m.read(p) },
		func(_ context.Context, p string, b []byte) error {
			for x := range m.bad {
				if p == x || strings.HasPrefix(p, x+"/") {
					return errDisk
				}
			}
			m.wrote[p] = string(b)
			return nil
		})
}

// sections splits what the command prints at the headlines of the answers.
func sections(out string) map[string]string {
	res := map[string]string{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "InferResponse:") || strings.HasPrefix(l, "GenerateCodeRequest:") || strings.HasPrefix(l, "GenerateCodeResponse:") {
			cur = strings.TrimSuffix(l, ":")
			res[cur] = ""
		} else {
			res[cur] += l + "\n"
		}
	}
	return res
}

func printed(t *kit.T, out, name string, want proto.Message) {
	text, ok := sections(out)[name]
	got := want.ProtoReflect().New().Interface()
	if !ok {
		t.Failf("no %s is printed:\n%s", name, out)
	} else if err := prototext.Unmarshal([]byte(text), got); err != nil {
		t.Failf("the printed %s: %v\n%s", name, err, text)
	} else if !proto.Equal(got, want) {
		t.Failf("the printed %s is\n%s\ninstead of\n%s", name, prototext.Format(got), prototext.Format(want))
	}
}

type tree map[string]string

// files lists the regular files under dir.
func files(dir string) tree {
	out := tree{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			must(err)
			out[p] = string(b)
		}
		return nil
	})
	return out
}

func diff(t *kit.T, got, want tree) {
	var all []string
	for p := range got {
		all = append(all, p)
	}
	for p := range want {
		if _, ok := got[p]; !ok {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	for _, p := range all {
		g, gok := got[p]
		w, wok := want[p]
		if gok != wok {
			t.Failf("file %s exists: %v, but should: %v", p, gok, wok)
		} else if g != w {
			t.Failf("file %s holds\n%s\ninstead of\n%s", p, g, w)
		}
	}
}

type harness struct {
	c        *kit.C
	bin, top string
	mu       sync.Mutex
	n        int
}

func (h *harness) dir() string {
	h.mu.Lock()
	h.n++
	d := filepath.Join(h.top, fmt.Sprint("r", h.n), "sub")
	h.mu.Unlock()
	must(os.MkdirAll(d, 0755))
	return d
}

func (h *harness) exec(t *kit.T, cwd string, args ...string) (stdout, stderr string, ok bool) {
	cmd := exec.Command(h.bin, args...)
	cmd.Dir = cwd
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	t.Transitions(1)
	if x, is := err.(*exec.ExitError); is && x.ExitCode() == -1 {
		t.Failf("the command was killed: %v", err)
	} else if err != nil && !is {
		panic(err)
	}
	if strings.Contains(e.String(), "goroutine ") {
		t.Failf("the command crashed:\n%s", e.String())
	}
	return o.String(), e.String(), err == nil
}

// judge compares exit, messages and files with what the reference says.
func judge(t *kit.T, want error, ok bool, stdout, stderr string, got, wantFiles tree) bool {
	diff(t, got, wantFiles)
	if want != nil {
		t.Trivial()
		t.Outcome("fails: " + strings.SplitN(want.Error(), "\"", 2)[0])
		if ok {
			t.Failf("exit 0, but: %v\n%s", want, stdout)
		}
		if strings.TrimSpace(stderr) == "" {
			t.Failf("fails without a message")
		}
		return false
	}
	t.Outcome(fmt.Sprint("ok, files: ", len(wantFiles)))
	if !ok {
		t.Failf("fails: %s", stderr)
	}
	if stderr != "" && ok {
		t.Failf("complains: %s", stderr)
	}
	return ok
}

var states = []string{"absent", "present", "directory", "full"}

// place puts something at the path; it says whether the path can be written then.
func place(p, state string) bool {
	if state != "absent" {
		must(os.MkdirAll(filepath.Dir(p), 0755))
	}
	switch state {
	case "present":
		must(os.WriteFile(p, []byte(strings.Repeat("old content\n", 5000)), 0600))
	case "directory":
		must(os.MkdirAll(filepath.Join(p, "inside"), 0755))
		return false
	case "full":
		must(os.Symlink("/dev/full", p))
		return false
	}
	return true
}

func (h *harness) csv(t *kit.T, content, csvState, wsKind, genState, protoState, goState string) {
	d := h.dir()
	defer os.RemoveAll(filepath.Dir(d))
	csv := filepath.Join(d, "in put.csv")
	csvArg := csv
	mem := &memory{bad: map[string]bool{}, wrote: map[string]string{}}
	mem.read = func(p string) ([]byte, error) {
		if p != csvArg {
			return nil, fmt.Errorf("another file is read: %s", p)
		}
		return []byte(content), nil
	}
	noRead := func() { mem.read = func(string) ([]byte, error) { return nil, errDisk } }
	switch csvState {
	case "file":
		must(os.WriteFile(csv, []byte(content), 0600))
	case "relative":
		must(os.WriteFile(csv, []byte(content), 0600))
		csvArg = "in put.csv"
	case "directory":
		must(os.Mkdir(csv, 0755))
		noRead()
	case "absent":
		noRead()
	case "none":
		csvArg = ""
	case "one letter":
		csvArg = "c"
		must(os.WriteFile(filepath.Join(d, csvArg), []byte(content), 0600))
	case "link":
		must(os.WriteFile(filepath.Join(d, "real"), []byte(content), 0600))
		must(os.Symlink("real", csv))
	}
	ws := filepath.Join(d, "ws")
	wsArg := ws
	switch wsKind {
	case "made":
		must(os.Mkdir(ws, 0755))
	case "deep":
		ws = filepath.Join(d, "a", "b", "ws")
		wsArg = ws
	case "relative":
		wsArg = "ws"
	case "unclean":
		wsArg = d + "//x/../ws/"
	case "file":
		must(os.WriteFile(ws, nil, 0600))
		mem.bad[ws] = true
	}
	gen := filepath.Join(ws, "generated")
	if wsKind != "file" {
		if genState == "file" {
			must(os.MkdirAll(ws, 0755))
			must(os.WriteFile(gen, []byte("in the way"), 0600))
			mem.bad[gen] = true
		} else {
			for f, s := range map[string]string{"example.proto": protoState, "exampleconv.go": goState} {
				if p := filepath.Join(gen, f); !place(p, s) {
					mem.bad[p] = true
				}
			}
		}
	}
	want := files(d)
	svc := mem.service(ws)
	ctx := context.Background()
	r1, err := svc.Infer(ctx, &spb.InferRequest{
		GoPackageName: "example", GoProtoImport: "not/sure", InputFormat: spb.Format_CSV, MessageName: "MyMessage", PackageName: "mypackage",
		ExampleInputs: []*spb.InputFile{{Spec: &spb.InputFile_InputPath{InputPath: csvArg}}},
	})
	var req *spb.GenerateCodeRequest
	var r2 *spb.GenerateCodeResponse
	if err == nil {
		req = &spb.GenerateCodeRequest{
			Mapping:         r1.GetBestMappingCandidate().GetTopLevelMapping(),
			ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{Directory: "generated", ProtoFileName: "example.proto", UpdateBuildRules: true},
			Converter:       &spb.GenerateCodeRequest_Converter{Directory: "generated", GoFileName: "exampleconv.go", UpdateBuildRules: true},
		}
		r2, err = svc.GenerateCode(ctx, req)
	}
	for p, s := range mem.wrote {
		want[p] = s
	}
	args := []string{"-default_workspace", wsArg}
	if csvState != "none" {
		args = append(args, "-csv", csvArg)
	}
	stdout, stderr, ok := h.exec(t, d, args...)
	if judge(t, err, ok, stdout, stderr, files(d), want) {
		printed(t, stdout, "InferResponse", r1)
		printed(t, stdout, "GenerateCodeRequest", req)
		printed(t, stdout, "GenerateCodeResponse", r2)
	}
}

func (h *harness) bazel(t *kit.T, reqName, reqText, jsonKind, short, root, outState string) {
	d := h.dir()
	defer os.RemoveAll(filepath.Dir(d))
	reqPath := filepath.Join(d, "request.pbtxt")
	var want error
	switch reqName {
	case "absent":
		want = errDisk
	case "directory":
		must(os.Mkdir(reqPath, 0755))
		want = errDisk
	default:
		must(os.WriteFile(reqPath, []byte(reqText), 0600))
	}
	ws := filepath.Join(d, "out")
	switch root {
	case "default":
		ws = filepath.Join(d, "default")
	case "relative":
		ws = "out"
	}
	type path struct {
		ShortPath string `json:"short_path"`
		Path      string `json:"path"`
		Root      string `json:"root"`
	}
	rootArg := ws
	if root == "default" {
		rootArg = ""
	}
	obj := map[string]interface{}{"partial_request_path": reqPath, "converter_go_output": path{short, "elsewhere/" + short, rootArg}}
	switch jsonKind {
	case "extra":
		obj["more"] = []int{1}
	case "no path":
		delete(obj, "partial_request_path")
		want = errDisk
	case "number":
		obj["partial_request_path"] = 7
		want = errDisk
	case "string output":
		obj["converter_go_output"] = "x.go"
		want = errDisk
	}
	b, err := json.Marshal(obj)
	must(err)
	j := string(b)
	switch jsonKind {
	case "broken":
		j = j[:len(j)-1]
		want = errDisk
	case "garbage after":
		j += "x"
		want = errDisk
	case "blanks":
		j = " \n" + j + "\t\n"
	}
	mem := &memory{bad: map[string]bool{}, wrote: map[string]string{}}
	abs := filepath.Join(d, "out", short)
	if root == "default" {
		abs = filepath.Join(d, "default", short)
	}
	if !filepath.IsAbs(short) && !place(abs, outState) {
		mem.bad[filepath.Join(ws, short)] = true
	}
	before := files(d)
	var resp *spb.GenerateCodeResponse
	if want == nil {
		req := &spb.GenerateCodeRequest{}
		if want = prototext.Unmarshal([]byte(reqText), req); want == nil {
			req.Converter = &spb.GenerateCodeRequest_Converter{Directory: filepath.Dir(short), GoFileName: filepath.Base(short)}
			req.WorkspacePath = rootArg
			resp, want = mem.service(filepath.Join(d, "default")).GenerateCode(context.Background(), req)
		}
	}
	for p, s := range mem.wrote {
		if !filepath.IsAbs(p) {
			p = filepath.Join(d, p)
		}
		before[p] = s
	}
	args := []string{"-default_workspace", filepath.Join(d, "default"), "-codegen_request_json", j}
	if len(short)%2 == 0 {
		args = append(args, "-csv", "not.there")
	}
	stdout, stderr, ok := h.exec(t, d, args...)
	if judge(t, want, ok, stdout, stderr, files(d), before) {
		printed(t, stdout, "GenerateCodeResponse", resp)
		if len(before) < 2 {
			t.Failf("harness: nothing written")
		}
	}
}

func run(c *kit.C) {
	scratch := os.Getenv("VERIF_SCRATCH")
	top, err := os.MkdirTemp(scratch, "cli")
	must(err)
	h := &harness{c: c, top: top, bin: filepath.Join(top, "xtoproto")}
	build := exec.Command("go", "build", "-overlay", filepath.Join(scratch, "overlay.json"), "-o", h.bin, "./cmd/xtoproto")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintln(os.Stderr, string(out))
		os.Exit(2)
	}
	type job struct {
		key string
		f   func(t *kit.T)
	}
	var jobs []job
	flush := func(part string) {
		c.Parallel(len(jobs), func(i int) { c.Case(jobs[i].key, jobs[i].f) })
		c.Part(part, int64(len(jobs)))
		jobs = nil
	}

	// files in every state
	sample := "id,name,price\n1,\"a b\",2.5\n2,c,3\n"
	for _, cs := range []string{"file", "relative", "directory", "absent", "none", "link", "one letter"} {
		for _, wk := range []string{"absent", "made", "deep", "relative", "unclean", "file"} {
			for _, gs := range []string{"", "file"} {
				for _, ps := range states {
					for _, g := range states {
						if (wk == "file" || gs == "file") && (ps != "absent" || g != "absent") {
							continue
						}
						cs, wk, gs, ps, g := cs, wk, gs, ps, g
						jobs = append(jobs, job{fmt.Sprintf("csv %s, workspace %s, generated %s, proto %s, go %s", cs, wk, gs, ps, g), func(t *kit.T) { h.csv(t, sample, cs, wk, gs, ps, g) }})
					}
				}
			}
		}
	}
	flush("states of the files, from CSV")

	// contents
	kit.Strings([]string{"a", "1", ",", "\n", "\"", "b c", "2020-01-02", "-0.5", "é", "\r\n"}, c.Pick(3, 4), func(parts []string) bool {
		s := strings.Join(parts, "")
		jobs = append(jobs, job{fmt.Sprintf("csv %q", s), func(t *kit.T) { h.csv(t, s, "file", "absent", "", "absent", "absent") }})
		return true
	})
	cells := []string{"1", "1.5", "x", "2020-01-02", "2020-01-02 03:04:05"}
	kit.Seqs(len(cells), 4, func(idx []int) bool {
		s := fmt.Sprintf("id,some name\n%s,%s\n%s,%s\n", cells[idx[0]], cells[idx[1]], cells[idx[2]], cells[idx[3]])
		jobs = append(jobs, job{fmt.Sprintf("csv %q", s), func(t *kit.T) { h.csv(t, s, "file", "absent", "", "present", "present") }})
		return true
	})
	// much in it
	for _, n := range []int{100, 101, 127, 128, 257, 1000} {
		for k, s := range []string{
			"id\n" + strings.Repeat("5\n", n),
			"id,n\n" + strings.Repeat("5,x\n", n) + "6,y\n",
			"id\n" + strings.Repeat("5\n", n) + "1.5\n",
			"id\n" + strings.Repeat("5\n", n) + "1,2\n",
			"id" + strings.Repeat(",col", n) + "\n1" + strings.Repeat(",2", n) + "\n",
			"id\n" + strings.Repeat("é😀", n*30) + "\n",
			"id\n\"" + strings.Repeat("line\n", n) + "\"\n",
			strings.Repeat("name ", n) + "\n1\n",
		} {
			for _, st := range []string{"absent", "present"} {
				s, st := s, st
				jobs = append(jobs, job{fmt.Sprintf("csv with much in it: %d of kind %d, files %s", n, k, st), func(t *kit.T) { h.csv(t, s, "file", "absent", "", st, st) }})
			}
		}
	}
	flush("contents of the CSV file")

	// bazel mode
	m := &pb.RecordProtoMapping{PackageName: "p.q", MessageName: "Msg", GoOptions: &pb.GoOptions{GoPackageName: "gp", ProtoImport: "some/where"},
		ColumnToFieldMappings: []*pb.ColumnToFieldMapping{{ColName: "id", ProtoName: "id", ProtoType: "int32", ProtoTag: 1}, {ColName: "n", ColumnIndex: 1, ProtoName: "n", ProtoType: "string", ProtoTag: 2}}}
	text := func(f func(r *spb.GenerateCodeRequest)) string {
		r := &spb.GenerateCodeRequest{Mapping: proto.Clone(m).(*pb.RecordProtoMapping)}
		f(r)
		return prototext.Format(r)
	}
	reqs := []struct{ name, text string }{
		{"plain", text(func(*spb.GenerateCodeRequest) {})},
		{"with proto", text(func(r *spb.GenerateCodeRequest) {
			r.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: "pd", ProtoFileName: "x.proto", UpdateBuildRules: true}
		})},
		{"with default proto", text(func(r *spb.GenerateCodeRequest) { r.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{} })},
		{"with converter and workspace", text(func(r *spb.GenerateCodeRequest) {
			r.WorkspacePath = "wrong"
			r.Converter = &spb.GenerateCodeRequest_Converter{Directory: "wrong", GoFileName: "wrong.go", UpdateBuildRules: true}
		})},
		{"with bad type", text(func(r *spb.GenerateCodeRequest) { r.Mapping.ColumnToFieldMappings[0].ProtoType = "no.such" })},
		{"with duplicate", text(func(r *spb.GenerateCodeRequest) { r.Mapping.ColumnToFieldMappings[1].ProtoName = "id" })},
		{"empty", ""}, {"comment", "# nothing\n"}, {"broken", "mapping {"}, {"unknown field", "maping {}"}, {"unknown field too", text(func(*spb.GenerateCodeRequest) {}) + "\nno_such: 1"}, {"unknown field inside", text(func(*spb.GenerateCodeRequest) {}) + "\nmapping { no_such { } }"},
		{"field twice", text(func(*spb.GenerateCodeRequest) {}) + "\nworkspace_path: 'a' workspace_path: 'b'"}, {"mapping twice", text(func(*spb.GenerateCodeRequest) {}) + "\nmapping { }"}, {"absent", ""}, {"directory", ""},
		{"many columns", text(func(r *spb.GenerateCodeRequest) {
			for i := 0; i < 200; i++ {
				r.Mapping.ColumnToFieldMappings = append(r.Mapping.ColumnToFieldMappings, &pb.ColumnToFieldMapping{ColName: fmt.Sprintf("column %d", i), ColumnIndex: int32(i + 2), ProtoName: fmt.Sprintf("column_%d", i), ProtoType: "double", ProtoTag: int32(i + 3), Comment: strings.Repeat("many words ", i)})
			}
		})},
		{"comment and text", "# c\n" + text(func(*spb.GenerateCodeRequest) {})},
	}
	for _, r := range reqs {
		for _, jk := range []string{"", "extra", "blanks", "no path", "number", "string output", "broken", "garbage after"} {
			for _, short := range []string{"x.go", "a/x.go", "a/b/c/x.go", "/abs/x.go", "a b/ü.go", "./x.go"} {
				for _, root := range []string{"absolute", "default", "relative"} {
					for _, os := range states {
						if jk != "" && (os != "absent" || root != "absolute") {
							continue
						}
						r, jk, short, root, os := r, jk, short, root, os
						jobs = append(jobs, job{fmt.Sprintf("bazel request %s, json %s, output %s in %s, %s", r.name, jk, short, root, os), func(t *kit.T) { h.bazel(t, r.name, r.text, jk, short, root, os) }})
					}
				}
			}
		}
	}
	flush("bazel mode")
}
