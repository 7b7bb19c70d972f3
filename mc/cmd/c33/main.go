// C33: the program that collects generated Go files copies exactly those below the import path.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"

	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C33", Level: "model_checking",
		Rule: "runs of the built program, each with a tree or a manifest of runfiles of its own: every path made of a prefix, an import path and a rest; every set of up to a number of such files; every combination of the state of a source, the state of its place and the way the output directory is named; many files, one of which cannot be copied. The files below the scratch directory before and after the run are compared with those the import path asks for. Non-trivial: something has to be copied",
	}, run)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

const defaultImport = "github.com/google/xtoproto/proto"

type source struct {
	path  string // short path
	text  string
	state string // "", dangling
}

type world struct {
	sources  []source
	imp      string // the import path; "" leaves the flag out
	manifest bool
	out      string // how the output directory is named
	places   map[string]string
	must     bool // also when something fails, everything else is copied
}

type harness struct {
	c        *kit.C
	bin, top string
	logs     string // where the program logs to
	n        atomic.Int64
}

func tree(dir string) map[string]string {
	res := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			must(err)
			res[p] = string(b)
		}
		return nil
	})
	return res
}

// rest is where a file with the short path belongs below the output directory, or "".
func rest(short, imp string) string {
	elems, want := strings.Split(short, "/"), strings.Split(imp, "/")
	for i := 0; i+len(want) < len(elems); i++ {
		if strings.Join(elems[i:i+len(want)], "/") == imp {
			if !strings.HasSuffix(short, ".go") {
				return ""
			}
			return strings.Join(elems[i+len(want):], "/")
		}
	}
	return ""
}

func (h *harness) run(t *kit.T, w world) {
	top := filepath.Join(h.top, fmt.Sprint("r", h.n.Add(1)))
	defer os.RemoveAll(top)
	cwd := filepath.Join(top, "cwd")
	rf := filepath.Join(top, "files")
	must(os.MkdirAll(cwd, 0755))
	must(os.MkdirAll(rf, 0755))
	manifest := ""
	for i, s := range w.sources {
		p := filepath.Join(rf, s.path)
		if w.manifest {
			p = filepath.Join(rf, fmt.Sprint("f", i))
			manifest += "work/" + s.path + " " + p + "\n"
		}
		must(os.MkdirAll(filepath.Dir(p), 0755))
		if s.state == "dangling" {
			must(os.Symlink("/nonexistent/file", p))
		} else if s.state == "link" {
			real := filepath.Join(top, fmt.Sprint("real", i))
			must(os.WriteFile(real, []byte(s.text), 0400))
			must(os.Symlink(real, p))
		} else {
			must(os.WriteFile(p, []byte(s.text), 0400))
		}
	}
	env := []string{"HOME=" + top, "TMPDIR=" + h.logs, "TEST_WORKSPACE=work", "PATH=/nonexistent"}
	if w.manifest {
		m := filepath.Join(top, "MANIFEST")
		must(os.WriteFile(m, []byte(manifest), 0400))
		must(os.Mkdir(filepath.Join(top, "none"), 0755))
		env = append(env, "RUNFILES_MANIFEST_FILE="+m, "RUNFILES_DIR="+filepath.Join(top, "none"))
	} else {
		env = append(env, "RUNFILES_DIR="+rf)
	}
	out, arg := filepath.Join(top, "out"), ""
	switch w.out {
	case "absolute":
		arg = out
	case "deep":
		out = filepath.Join(top, "a", "b", "out")
		arg = out
	case "relative":
		out = filepath.Join(cwd, "o", "p")
		arg = "o/p"
	case "unclean":
		arg = top + "//cwd/../out/"
	case "none":
		out = cwd
	case "dot":
		out = cwd
		arg = "."
	}
	imp := w.imp
	args := []string{"-output_dir", arg}
	if imp == "" {
		imp = defaultImport
	} else {
		args = append(args, "-import_path", imp)
	}
	if w.out == "none" {
		args = args[2:]
	}
	bad := map[string]bool{}
	for p, state := range w.places {
		p = filepath.Join(out, p)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		switch state {
		case "longer":
			must(os.WriteFile(p, []byte(strings.Repeat("old content\n", 5000)), 0600))
		case "shorter":
			must(os.WriteFile(p, []byte("x"), 0600))
		case "other":
			must(os.WriteFile(p+".other", []byte("stays"), 0600))
		case "directory":
			must(os.MkdirAll(filepath.Join(p, "inside"), 0755))
			bad[p] = true
		case "full":
			must(os.Symlink("/dev/full", p))
			bad[p] = true
		case "parent":
			must(os.Remove(filepath.Dir(p)))
			must(os.WriteFile(filepath.Dir(p), []byte("in the way"), 0600))
			bad[p] = true
		}
	}
	want := tree(top)
	fails, copies := "", 0
	may := map[string]bool{}
	for _, s := range w.sources {
		r := rest(s.path, imp)
		if r == "" {
			continue
		}
		p := filepath.Join(out, r)
		switch {
		case s.state == "dangling":
			fails = "cannot read " + s.path
		case bad[p]:
			fails = "cannot write " + p
		default:
			want[p] = s.text
			may[p] = true
			copies++
		}
	}
	cmd := exec.Command(h.bin, args...)
	cmd.Dir, cmd.Env = cwd, env
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	t.Transitions(1)
	if x, is := err.(*exec.ExitError); err != nil && !is {
		panic(err)
	} else if is && x.ExitCode() == -1 {
		t.Failf("the program was killed: %v", err)
	}
	if strings.Contains(e.String(), "goroutine ") {
		t.Failf("the program crashed:\n%s", e.String())
	}
	got := tree(top)
	var all []string
	for p := range got {
		all = append(all, p)
	}
	for p := range want {
		if _, ok := got[p]; !ok {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	for _, p := range all {
		g, gok := got[p]
		x, wok := want[p]
		if fails != "" && may[p] && !gok {
			continue // The program may stop early.
		}
		if gok != wok {
			t.Failf("file %s exists: %v, but should: %v", p, gok, wok)
		} else if g != x && !(fails != "" && may[p] && w.places[strings.TrimPrefix(p, out+"/")] != "") {
			t.Failf("file %s holds %d bytes %.200q instead of %d bytes %.200q", p, len(g), g, len(x), x)
		}
	}
	if fails != "" {
		t.Outcome("fails")
		if err == nil {
			t.Failf("exit 0, but: %s", fails)
		}
		if strings.TrimSpace(e.String()) == "" {
			t.Failf("fails without a message")
		}
		return
	}
	t.Outcome(fmt.Sprint("copies: ", copies))
	if copies == 0 {
		t.Trivial()
	}
	if err != nil {
		t.Failf("fails: %s", e.String())
	}
}

func every() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}

func run(c *kit.C) {
	scratch := os.Getenv("VERIF_SCRATCH")
	h := &harness{c: c, bin: filepath.Join(scratch, "generate"), top: filepath.Join(scratch, "runs"), logs: filepath.Join(scratch, "logs")}
	must(os.MkdirAll(h.top, 0755))
	must(os.MkdirAll(h.logs, 0755))
	build := exec.Command("go", "build", "-overlay", filepath.Join(scratch, "overlay.json"), "-o", h.bin, "./releasing/generate_pb_go_files")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintln(os.Stderr, string(out))
		os.Exit(2)
	}
	type job struct {
		key string
		w   world
	}
	var jobs []job
	flush := func(part string) {
		c.Parallel(len(jobs), func(i int) { c.Case(jobs[i].key, func(t *kit.T) { h.run(t, jobs[i].w) }) })
		c.Part(part, int64(len(jobs)))
		jobs = nil
	}

	imports := []string{"", "p", "p/q", "example.com/a-b/c_d", "github.com/google/xtoproto", "p.q"}
	rests := []string{"a.pb.go", "a.go", "d/a.pb.go", "d/e/f/a.pb.go", "a.pb.go.txt", "a.proto", "go", "ago", "a.pb.gox", "d.go.d/a.pb.go", "d.go.d/a.txt", "A_1-b+c.pb.go", ".a.go", "a.GO", "a.pb.cc", "a_test.go", "é.go"}
	prefixes := []string{"", "x/", "proto/d/linux_amd64_stripped/d_go_proto%/", "external/", "x/y/z/", "pp/", "github.com/", ".hidden/"}
	type runfile struct {
		imp, path string
		manifest  bool
	}
	seen := map[runfile]bool{}
	for _, imp := range imports {
		full := imp
		if imp == "" {
			full = defaultImport
		}
		if !c.Thorough() {
			prefixes = []string{"", "proto/d/linux_amd64_stripped/d_go_proto%/", "x/y/z/", "pp/"}
			rests = []string{"a.pb.go", "d/e/f/a.pb.go", "a.pb.go.txt", "a.proto", "ago", "d.go.d/a.pb.go", "d.go.d/a.txt", "A_1-b+c.pb.go", "a_test.go"}
		}
		var middles []string
		for _, m := range []string{full, full + "2", strings.ToUpper(full), full + "/..x", filepath.Dir(full), full[:len(full)-1] + "~", strings.ReplaceAll(full, ".", "X"), ""} {
			middles = append(middles, m)
		}
		for _, pre := range prefixes {
			for _, mid := range middles {
				for _, r := range rests {
					for _, manifest := range []bool{false, true} {
						p := filepath.Clean(pre + mid + "/" + r)
						p = strings.TrimPrefix(p, "/")
						// Elsewhere than at the borders of elements, the import path need not be found.
						if strings.Contains(strings.ReplaceAll("/"+p, "/"+full+"/", "//"), full+"/") {
							continue
						}
						if f := (runfile{imp, p, manifest}); seen[f] {
							continue
						} else {
							seen[f] = true
						}
						if manifest && strings.HasPrefix(p, "external/") {
							continue // ListRunfiles takes it for another workspace.
						}
						w := world{imp: imp, manifest: manifest, out: "absolute", sources: []source{{path: p, text: "package x // " + p}}}
						jobs = append(jobs, job{fmt.Sprintf("-import_path %q, runfile %q, manifest %v", imp, p, manifest), w})
					}
				}
			}
		}
	}
	if !c.Thorough() {
		// Every file by itself, in a tree; the manifest only for two import paths.
		kept := jobs[:0]
		for _, j := range jobs {
			if j.w.imp == "" || j.w.imp == "p/q" || !j.w.manifest && strings.Contains(j.w.imp, ".") {
				kept = append(kept, j)
			}
		}
		jobs = kept
	}
	flush("single files")

	pool := []string{"p/a.go", "p/b.go", "p/d/a.go", "x/p/c.go", "y/p/d/b.go", "p/d/e.txt", "q/a.go", "p2/a.go", "a.go", "p/d/f/g/a.pb.go", "z/p/a_test.go", "o/p/o.go"}
	size := c.Pick(4, 5)
	var add func(from int, chosen []source)
	add = func(from int, chosen []source) {
		for _, manifest := range []bool{false, true} {
			for _, out := range []string{"absolute", "relative"} {
				var names []string
				for _, s := range chosen {
					names = append(names, s.path)
				}
				jobs = append(jobs, job{fmt.Sprintf("runfiles %q, manifest %v, output %s", names, manifest, out),
					world{imp: "p", manifest: manifest, out: out, sources: append([]source(nil), chosen...)}})
			}
		}
		if len(chosen) == size {
			return
		}
		for i := from; i < len(pool); i++ {
			add(i+1, append(chosen[:len(chosen):len(chosen)], source{path: pool[i], text: "contents of " + pool[i]}))
		}
	}
	add(0, nil)
	flush("sets of files")

	texts := map[string]string{"text": "package x\n", "empty": "", "bytes": every(), "newlines": "\r\n\r\n\n\x00", "large": strings.Repeat(every(), 8192)}
	outs := []string{"absolute", "deep", "relative", "unclean", "none", "dot"}
	for _, text := range []string{"text", "empty", "bytes", "newlines", "large"} {
		for _, state := range []string{"", "link", "dangling"} {
			for _, place := range []string{"absent", "longer", "shorter", "other", "directory", "full", "parent"} {
				for _, out := range outs {
					for _, manifest := range []bool{false, true} {
						if text == "empty" && place == "full" {
							continue // Whether nothing can be written there is not said.
						}
						if text == "large" && !c.Thorough() && (out != "absolute" || manifest) {
							continue
						}
						w := world{imp: "p", manifest: manifest, out: out,
							sources: []source{{"p/d/a.go", texts[text], state}, {"p/b.go", "other", ""}},
							places:  map[string]string{"d/a.go": place}}
						jobs = append(jobs, job{fmt.Sprintf("%s %s to %s, output %s, manifest %v", state, text, place, out, manifest), w})
					}
				}
			}
		}
	}
	flush("states")

	for _, n := range []int{10, 100, c.Pick(1100, 5000)} {
		for _, bad := range []int{-1, 0, n / 2, n - 1} {
			for _, manifest := range []bool{false, true} {
				for _, kind := range []string{"dangling", "directory"} {
					if bad < 0 && kind != "dangling" {
						continue
					}
					w := world{imp: "p", manifest: manifest, out: "absolute", places: map[string]string{}}
					for i := 0; i < n; i++ {
						s := source{path: fmt.Sprintf("x/p/d%d/f%03d.pb.go", i%7, i), text: strings.Repeat(fmt.Sprintf("line of file %d\n", i), i)}
						if i == bad && kind == "dangling" {
							s.state = kind
						} else if i == bad {
							w.places[fmt.Sprintf("d%d/f%03d.pb.go", i%7, i)] = kind
						}
						w.sources = append(w.sources, s)
					}
					jobs = append(jobs, job{fmt.Sprintf("%d files, number %d %s, manifest %v", n, bad, kind, manifest), w})
				}
			}
		}
	}
	flush("many files")
}
