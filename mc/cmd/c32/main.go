// C32: the playground shows what the service answers to the requests in its boxes, whatever was typed before.
package main

import (
	"bufio"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/service"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"verif/mc/kit"
)

//go:embed driver.js
var driver []byte

func main() {
	kit.Main(kit.Options{
		ID: "C32", Level: "model_checking",
		Rule:        "every sequence of up to a number of inputs into the three boxes of the page, each over a list of texts (good, broken, empty, beyond ASCII), and every place at which the program becomes ready or inputs follow one another at once; all texts in turn on one page in several orders; large texts. The page's own scripts run over a small stand-in of a document, with the real program compiled to WebAssembly behind them; boxes, code, names and errors shown are compared with a model that asks the service in memory. Non-trivial: code is shown",
		Assumptions: []string{"the stand-in of the document behaves as a browser's for the few functions the page uses", "the WebAssembly support file is that of the Go toolchain in use, not the copy in third_party"},
	}, run)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// A node is a running page driver.
type node struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *strings.Builder
}

func start(dir string) *node {
	n := &node{err: &strings.Builder{}}
	n.cmd = exec.Command("node", filepath.Join(dir, "driver.js"), filepath.Join(dir, "wasm_exec.js"), filepath.Join(dir, "playground.wasm"), "/repo/playground/index.html")
	n.cmd.Stderr = n.err
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL} // do not outlive the check
	var err error
	n.in, err = n.cmd.StdinPipe()
	must(err)
	o, err := n.cmd.StdoutPipe()
	must(err)
	n.out = bufio.NewReaderSize(o, 1<<20)
	must(n.cmd.Start())
	return n
}

func (n *node) stop() {
	n.in.Close()
	n.cmd.Process.Kill()
	n.cmd.Wait()
}

type step struct {
	Do    string `json:"do"`
	ID    string `json:"id,omitempty"`
	Value string `json:"value"`
	Quick bool   `json:"quick,omitempty"` // the next step follows at once
}

func (s step) String() string {
	x := s.Do
	if s.Do == "input" {
		x = fmt.Sprintf("%s=%q", s.ID, s.Value)
	}
	if s.Quick {
		x += "+"
	}
	return x
}

type call struct {
	Args   []interface{} `json:"args"`
	Answer string        `json:"answer"`
}

type state struct {
	Infer     string `json:"infer"`
	Gen       string `json:"gen"`
	CSV       string `json:"csv"`
	Error     string `json:"error"`
	Proto     string `json:"proto"`
	ProtoName string `json:"protoName"`
	Go        string `json:"go"`
	GoName    string `json:"goName"`
	Calls     []call `json:"calls"`
}

type result struct {
	States []state `json:"states"`
	Ran    bool    `json:"ran"`
	Crash  string  `json:"crash"`
}

const (
	inferBox = "infer-request"
	genBox   = "gen-request"
	csvBox   = "csv"
)

// plain makes texts of errors comparable: some libraries vary their blanks between builds on purpose.
// Why a time zone cannot be found differs between systems.
func plain(s string) string {
	if strings.Contains(s, "invalid timestamp_location value") {
		s = s[:strings.LastIndex(s, "\":")+1]
	}
	return strings.Join(strings.Fields(strings.ReplaceAll(s, "\u00a0", " ")), " ")
}

func set(dst *string, s string) {
	if s != "" {
		*dst = s
	}
}

// answer is what the service says to the texts in the boxes.
type answer struct {
	err   string
	infer *spb.InferResponse
	code  *spb.GenerateCodeResponse
	req1  *spb.InferRequest
	req2  *spb.GenerateCodeRequest
}

func ask(infer, gen, csv string) (a answer) {
	svc := service.New("/tmp/example-workspace",
		func(context.Context, string) ([]byte, error) { return nil, fmt.Errorf("no files here") },
		func(context.Context, string, []byte) error { return nil })
	u1, u2 := &spb.InferRequest{}, &spb.GenerateCodeRequest{}
	if err := prototext.Unmarshal([]byte(infer), u1); err != nil {
		a.err = err.Error()
		return
	}
	if err := prototext.Unmarshal([]byte(gen), u2); err != nil {
		a.err = err.Error()
		return
	}
	a.req1 = &spb.InferRequest{GoPackageName: "example", GoProtoImport: "generated/example_go_proto", InputFormat: spb.Format_CSV, MessageName: "ExampleRecord", PackageName: "mycompany.mypackage"}
	set(&a.req1.GoPackageName, u1.GoPackageName)
	set(&a.req1.GoProtoImport, u1.GoProtoImport)
	set(&a.req1.MessageName, u1.MessageName)
	set(&a.req1.PackageName, u1.PackageName)
	set(&a.req1.TimestampLocation, u1.TimestampLocation)
	if u1.InputFormat != 0 {
		a.req1.InputFormat = u1.InputFormat
	}
	a.req2 = &spb.GenerateCodeRequest{
		WorkspacePath:   u2.WorkspacePath,
		ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{Directory: "generated", ProtoFileName: "example.proto", UpdateBuildRules: true},
		Converter:       &spb.GenerateCodeRequest_Converter{Directory: "generated/go", GoFileName: "exampleconv.go", UpdateBuildRules: true},
	}
	set(&a.req2.ProtoDefinition.Directory, u2.GetProtoDefinition().GetDirectory())
	set(&a.req2.ProtoDefinition.ProtoFileName, u2.GetProtoDefinition().GetProtoFileName())
	set(&a.req2.Converter.Directory, u2.GetConverter().GetDirectory())
	set(&a.req2.Converter.GoFileName, u2.GetConverter().GetGoFileName())
	full := proto.Clone(a.req1).(*spb.InferRequest)
	full.ExampleInputs = []*spb.InputFile{{Spec: &spb.InputFile_InputContent{InputContent: []byte(csv)}}}
	var err error
	if a.infer, err = svc.Infer(context.Background(), full); err != nil {
		a.err = err.Error()
		return
	}
	a.req2.Mapping = a.infer.GetBestMappingCandidate().GetTopLevelMapping()
	if a.code, err = svc.GenerateCode(context.Background(), a.req2); err != nil {
		a.err = err.Error()
	}
	return
}

func asJSON(v interface{}) (out interface{}) {
	b, err := json.Marshal(v)
	must(err)
	must(json.Unmarshal(b, &out))
	return
}

// model is the page as it should be.
type model struct {
	state
	loaded, served, pending bool
}

func (m *model) step(s step) {
	switch s.Do {
	case "load":
		m.loaded, m.pending = true, true
	case "serve":
		m.served = true
	case "input":
		v := strings.ReplaceAll(strings.ReplaceAll(s.Value, "\r\n", "\n"), "\r", "\n")
		switch s.ID {
		case inferBox:
			m.Infer = v
		case genBox:
			m.Gen = v
		case csvBox:
			m.CSV = v
		}
		m.pending = m.pending || m.loaded
	}
}

// settle updates the model and compares it with the page, of which calls are all calls since the last time.
func (m *model) settle(t *kit.T, got *state, calls []call) {
	var a answer
	asked := m.served && m.pending
	infer, gen := m.Infer, m.Gen
	if asked {
		m.pending = false
		a = ask(infer, gen, m.CSV)
		m.Error = a.err
		if a.err == "" {
			m.Proto, m.ProtoName = string(a.code.ProtoFile.NewContents), a.code.ProtoFile.WorkspaceRelativePath
			m.Go, m.GoName = string(a.code.ConverterGoFile.NewContents), a.code.ConverterGoFile.WorkspaceRelativePath
			if infer == "" {
				m.Infer = got.Infer
				filled := &spb.InferRequest{}
				if err := prototext.Unmarshal([]byte(got.Infer), filled); err != nil || !proto.Equal(filled, a.req1) {
					t.Failf("empty infer request filled with %q (%v), want %v", got.Infer, err, a.req1)
				}
			}
			if gen == "" {
				m.Gen = got.Gen
				filled := &spb.GenerateCodeRequest{}
				if err := prototext.Unmarshal([]byte(got.Gen), filled); err != nil || !proto.Equal(filled, a.req2) {
					t.Failf("empty codegen request filled with %q (%v), want %v", got.Gen, err, a.req2)
				}
			}
		}
	}
	for _, f := range []struct{ name, got, want string }{
		{"infer request", got.Infer, m.Infer}, {"codegen request", got.Gen, m.Gen}, {"csv", got.CSV, m.CSV}, {"error", plain(got.Error), plain(m.Error)},
		{"proto code", got.Proto, m.Proto}, {"proto name", got.ProtoName, m.ProtoName}, {"go code", got.Go, m.Go}, {"go name", got.GoName, m.GoName},
	} {
		if f.got != f.want {
			t.Failf("%s: shown %q\nwant %q", f.name, f.got, f.want)
		}
	}
	if !asked {
		if len(calls) > 0 {
			t.Failf("the program is asked without need: %v", calls)
		}
		return
	}
	if len(calls) == 0 {
		t.Failf("the program is not asked")
		return
	}
	c := calls[len(calls)-1]
	type response struct {
		Error string      `json:"error"`
		Infer interface{} `json:"infer_response"`
		Code  interface{} `json:"codegen_response"`
	}
	var r response
	if err := json.Unmarshal([]byte(c.Answer), &r); err != nil {
		t.Failf("answer is no JSON: %v: %s", err, c.Answer)
		return
	}
	if plain(r.Error) != plain(a.err) {
		t.Failf("answers error %q, want %q", r.Error, a.err)
	}
	if want := asJSON(a.infer); !reflect.DeepEqual(r.Infer, want) {
		t.Failf("answers infer response %v, want %v", r.Infer, want)
	}
	if want := asJSON(a.code); !reflect.DeepEqual(r.Code, want) {
		t.Failf("answers codegen response %v, want %v", r.Code, want)
	}
}

const initialCSV = "project_name,lines_of_code,url,last_modified\n\"xtoproto\",3000,\"https://github.com/google/xtoproto\",2020-10-04\n\"bazel\",3000,\"https://bazel.build\",2020-2-26\n"

type harness struct {
	dir   string
	nodes chan *node
}

func (h *harness) history(t *kit.T, steps []step) {
	n := <-h.nodes
	if n == nil {
		n = start(h.dir)
	}
	defer func() { h.nodes <- n }()
	b, err := json.Marshal(steps)
	must(err)
	var r result
	_, err = n.in.Write(append(b, '\n'))
	var line string
	if err == nil {
		line, err = n.out.ReadString('\n')
	}
	if err != nil {
		r.Crash = "the page died: " + err.Error()
	} else {
		must(json.Unmarshal([]byte(line), &r))
	}
	if r.Crash != "" {
		n.stop()
		t.Failf("%s\n%.2000s", r.Crash, n.err.String())
		n = nil
		return
	}
	if !r.Ran {
		t.Failf("the page does not run the program")
	}
	m := &model{}
	m.CSV = initialCSV
	var calls []call
	out := []string{}
	for i, s := range steps {
		m.step(s)
		calls = append(calls, r.States[i].Calls...)
		if s.Quick {
			continue
		}
		m.settle(t, &r.States[i], calls)
		calls = nil
		if t.Failed() {
			t.Failf("in step %d", i)
			return
		}
		switch {
		case m.Error != "":
			out = append(out, strings.SplitN(plain(m.Error), "\"", 2)[0])
		case m.Proto != "":
			out = append(out, "code")
		default:
			out = append(out, "nothing")
		}
	}
	t.Transitions(len(steps))
	t.Traces(1)
	if m.Proto == "" {
		t.Trivial()
	}
	t.Outcome(out[len(out)-1])
	t.Sample(fmt.Sprint(steps))
}

func run(c *kit.C) {
	scratch := os.Getenv("VERIF_SCRATCH")
	dir, err := os.MkdirTemp(scratch, "playground")
	must(err)
	must(os.WriteFile(filepath.Join(dir, "driver.js"), driver, 0600))
	build := exec.Command("go", "build", "-overlay", filepath.Join(scratch, "overlay.json"), "-o", filepath.Join(dir, "playground.wasm"), "./playground")
	build.Dir = "/repo"
	build.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0")
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintln(os.Stderr, string(out))
		os.Exit(2)
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	w, err := os.ReadFile(filepath.Join(strings.TrimSpace(string(root)), "lib/wasm/wasm_exec.js"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "wasm_exec.js"), w, 0600))
	h := &harness{dir, make(chan *node, 8)}
	for i := 0; i < 8; i++ {
		h.nodes <- nil
	}
	defer func() {
		for i := 0; i < 8; i++ {
			if n := <-h.nodes; n != nil {
				n.stop()
			}
		}
	}()

	var jobs [][]step
	flush := func(part string) {
		c.Parallel(len(jobs), func(i int) {
			steps := append([]step{}, jobs[i]...)
			c.Case(fmt.Sprintf("%v", steps), func(t *kit.T) { h.history(t, steps) })
		})
		c.Part(part, int64(len(jobs)))
		jobs = nil
	}
	load, serve := step{Do: "load"}, step{Do: "serve"}
	in := func(id string, vs ...string) (out []step) {
		for _, v := range vs {
			out = append(out, step{Do: "input", ID: id, Value: v})
		}
		return
	}
	csvs := []string{"", "a\n", "a,b\n1,2\n", "a,b\n1\n", "größe,名\nüß,\"é\n😀\"\n", "when\n2020-01-02\n", "when\r\n2020-01-02 03:04:05\r\n", "x\n1.5\n2\n", "a,a\n1,2\n", "\"a\n", "a b,</script>\n1,<b>\n", "ok\ntrue\nfalse\n"}
	infers := []string{"", "  \n", `message_name: "Other"`, `message_name: ""`, `package_name: "a.b" go_package_name: "p"`, `go_proto_import: "x/y"`, `timestamp_location: "Nowhere/Else"`, `timestamp_location: "UTC"`,
		`example_inputs { input_path: "/etc/passwd" }`, `input_format: CSV # comment`, `nothing`, `unknown_field: 1`, `message_name: "a" message_name: "b"`, `message_name: "Größe"`, `input_format: UNSPECIFIED_FORMAT`,
		`message_name: "All" package_name: "of.them" go_package_name: "gpn" go_proto_import: "i/m" timestamp_location: "UTC" input_format: CSV`}
	gens := []string{"", `workspace_path: "/elsewhere"`, `converter { go_file_name: "a.go" }`, `proto_definition { directory: "d" }`, `proto_definition { directory: "/abs" }`, `converter { directory: "/abs" }`,
		`converter { update_build_rules: false }`, `proto_definition {}`, `mapping { message_name: "Mine" }`, `converter {`, `converter: "größe"`, `converter { directory: "../up" go_file_name: "größe.go" }`, `proto_definition { proto_file_name: "x/y.proto" }`,
		`workspace_path: "w" proto_definition { directory: "d" proto_file_name: "e.proto" } converter { directory: "f/g" go_file_name: "h.go" }`}
	all := append(append(in(csvBox, csvs...), in(inferBox, infers...)...), in(genBox, gens...)...)

	// histories of inputs
	for k := 0; k <= c.Pick(2, 3); k++ {
		texts := all
		if k == 3 {
			texts = append(append(in(csvBox, csvs[:9]...), in(inferBox, infers[0], infers[2], infers[6], infers[8], infers[10], infers[13])...), in(genBox, gens[:6]...)...)
		}
		kit.Seqs(len(texts), k, func(idx []int) bool {
			h := []step{load, serve}
			for _, i := range idx {
				h = append(h, texts[i])
			}
			jobs = append(jobs, h)
			return true
		})
	}
	flush("histories of inputs")

	// every combination of the three boxes
	kit.Product([]int{len(csvs), len(infers), len(gens)}, func(x []int) bool {
		if x[0] == 0 && !c.Thorough() {
			return true
		}
		a, b, d := in(csvBox, csvs[x[0]])[0], in(inferBox, infers[x[1]])[0], in(genBox, gens[x[2]])[0]
		a.Quick, b.Quick = true, true
		jobs = append(jobs, []step{load, serve, a, b, d, in(csvBox, "z\n9\n")[0]})
		return true
	})
	flush("every combination of texts in the boxes")

	// schedules: the program becomes ready at any time, and inputs come before the answer to those before them
	some := append(append(in(csvBox, csvs[2], csvs[4], csvs[3]), in(inferBox, "", infers[2], infers[10])...), in(genBox, "", gens[2], gens[4])...)
	for k := 0; k <= c.Pick(2, 3); k++ {
		if k == 3 {
			some = append(append(in(csvBox, csvs[2], csvs[3]), in(inferBox, "", infers[2])...), in(genBox, "", gens[4])...)
		}
		kit.Seqs(len(some), k, func(idx []int) bool {
			events := []step{load}
			for _, i := range idx {
				events = append(events, some[i])
			}
			for at := 0; at <= len(events); at++ {
				h := append(append(append([]step{}, events[:at]...), serve), events[at:]...)
				for mask := 0; mask < 1<<(len(h)-1); mask++ {
					g := append([]step{}, h...)
					for i := range g {
						g[i].Quick = mask>>i&1 == 1
					}
					jobs = append(jobs, g)
				}
			}
			return true
		})
	}
	flush("schedules of the program and the inputs")

	// long histories on one page: all texts in turn, from each on and in several orders
	strides := []int{1, 5, 11}
	if c.Thorough() {
		strides = []int{1, 2, 5, 7, 11, 13, 17, 19}
	}
	for _, stride := range strides {
		for from := range all {
			for len(all)%stride == 0 && stride > 1 {
				stride++
			}
			h := []step{load, serve}
			for i := range all {
				h = append(h, all[(from+i*stride)%len(all)])
			}
			jobs = append(jobs, h)
		}
	}
	// much text
	rows := func(cols, n int, cell string) string {
		var b strings.Builder
		for i := 0; i < cols; i++ {
			fmt.Fprintf(&b, ",c%d", i)
		}
		out := b.String()[1:] + "\n"
		for i := 0; i < n; i++ {
			out += strings.Repeat(","+cell, cols)[1:] + "\n"
		}
		return out
	}
	for _, big := range []string{rows(1, 1000, "7"), rows(3, 300, "1.5"), rows(120, 2, "x"), rows(300, 1, "1"), rows(1, 1, strings.Repeat("long ", 14000)), rows(2, 2, "é😀"), "c\n" + strings.Repeat("1\n", 200) + "x\n"} {
		for _, next := range all {
			jobs = append(jobs, []step{load, serve, in(csvBox, big)[0], next, in(csvBox, csvs[2])[0]})
		}
	}
	flush("long histories, much text")
}
