// C34: the release program runs its steps in order and stops at the first that fails.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"

	"verif/mc/kit"
)

func main() {
	if len(os.Args) > 0 {
		switch name := filepath.Base(os.Args[0]); name {
		case "git", "bazel", "cp":
			standIn(name)
		}
	}
	kit.Main(kit.Options{
		ID: "C34", Level: "fault_enumeration",
		Rule: "runs of the built program in a workspace of its own, with recording stand-ins for git, bazel and cp (nothing else can be found) that make the files a scenario asks for: every scenario (flags, generated files, staged files) without a fault and with every single command failing in each way. The recorded commands, with their arguments and working directory, and the exit status are compared with the release procedure up to the fault. Non-trivial: the workspace is clean and there is a tag",
	}, run)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// plan tells the stand-ins what to do; it lies beside their log.
type plan struct {
	Fail      int    // number of the failing command, or -1
	How       string // exit1, exit128, killed, quiet
	Generated []string
	Staged    []string
}

type record struct {
	Args []string
	Cwd  string
}

func standIn(name string) {
	dir := os.Getenv("C34_DIR")
	var p plan
	b, err := os.ReadFile(filepath.Join(dir, "plan.json"))
	must(err)
	must(json.Unmarshal(b, &p))
	cwd, err := os.Getwd()
	must(err)
	log, err := os.OpenFile(filepath.Join(dir, "log"), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0600)
	must(err)
	old, err := os.ReadFile(filepath.Join(dir, "log"))
	must(err)
	line, err := json.Marshal(record{append([]string{name}, os.Args[1:]...), cwd})
	must(err)
	_, err = log.Write(append(line, '\n'))
	must(err)
	if bytes.Count(old, []byte("\n")) == p.Fail {
		switch p.How {
		case "exit1":
			os.Stderr.WriteString("failed: %s %d 100%\n")
			os.Exit(1)
		case "exit128":
			fmt.Println("fatal: something")
			os.Exit(128)
		case "killed":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
		}
		os.Exit(3)
	}
	if name == "bazel" && len(os.Args) > 2 {
		files, flag := p.Generated, "-output_dir"
		if strings.Contains(os.Args[2], "xtoproto_web") {
			files = p.Staged
		}
		for i, a := range os.Args {
			if strings.TrimLeft(a, "-") == strings.TrimLeft(flag, "-") && i+1 < len(os.Args) {
				for _, f := range files {
					f = filepath.Join(os.Args[i+1], f)
					must(os.MkdirAll(filepath.Dir(f), 0755))
					must(os.WriteFile(f, []byte("made"), 0600))
				}
			}
		}
	}
	if name == "git" {
		fmt.Println("output of git") // Ignored.
		fmt.Fprintln(os.Stderr, "note: on stderr")
	}
	os.Exit(0)
}

type scenario struct {
	tag, suffix, repo  string
	workspace, staging string
	present            []string // files in the workspace beforehand
	generated, staged  []string
}

type harness struct {
	bin, top string
	n        atomic.Int64
}

// expected is the release procedure; the commands of a group may come in any order.
func expected(s scenario, root, staging string) (steps [][]string) {
	add := func(args ...string) { steps = append(steps, args) }
	add("git", "diff-index", "--quiet", "HEAD")
	add("git", "checkout", "-b", "release"+s.suffix, "main")
	add("bazel", "run", "//releasing/generate_pb_go_files", "--", "-output_dir", filepath.Join(root, "proto"), "--alsologtostderr")
	seen := map[string]bool{}
	var pb []string
	for _, f := range s.present {
		if strings.HasPrefix(f, "proto/") && strings.HasSuffix(f, ".pb.go") && !seen[f] {
			seen[f] = true
			pb = append(pb, f)
		}
	}
	for _, f := range s.generated {
		f = "proto/" + f
		if strings.HasSuffix(f, ".pb.go") && !seen[f] {
			seen[f] = true
			pb = append(pb, f)
		}
	}
	sort.Strings(pb)
	for _, f := range pb {
		add("git", "add", "-f", f)
	}
	add("git", "commit", "-a", "-m", "add .pb.go files for release "+s.tag)
	add("git", "tag", s.tag)
	add("bazel", "run", "//cmd/xtoproto_web", "--", "--output_dir", staging)
	repo := s.repo
	if repo == "" {
		repo = "https://github.com/google/xtoproto.git"
	}
	add("git", "fetch", repo, "gh-pages:gh-pages-release"+s.suffix)
	add("git", "checkout", "gh-pages-release"+s.suffix)
	top := map[string]bool{}
	for _, f := range s.staged {
		top[strings.SplitN(f, "/", 2)[0]] = true
	}
	var names []string
	for n := range top {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add("cp", "-R", filepath.Join(staging, n), root+"/")
	}
	return steps
}

// run runs the program with the fault and returns how many commands there are without one.
func (h *harness) run(t *kit.T, s scenario, fail int, how string) int {
	// TempDir of the runs may be a link; the program's own view of the root counts.
	top := filepath.Join(h.top, fmt.Sprint("r", h.n.Add(1)))
	defer os.RemoveAll(top)
	cwd := filepath.Join(top, "start")
	ws := filepath.Join(top, "ws")
	bin := filepath.Join(top, "bin")
	ctl := filepath.Join(top, "ctl")
	for _, d := range []string{cwd, ws, bin, ctl} {
		must(os.MkdirAll(d, 0755))
	}
	self, err := os.Executable()
	must(err)
	for _, n := range []string{"git", "bazel", "cp"} {
		must(os.Symlink(self, filepath.Join(bin, n)))
	}
	root := ws
	var args []string
	refuse := ""
	switch s.workspace {
	case "flag":
		args = append(args, "-workspace", ws)
	case "relative":
		args = append(args, "-workspace", "../ws")
		root = "../ws"
	case "cwd":
		cwd = ws
	case "missing":
		args = append(args, "-workspace", filepath.Join(top, "nothing"))
		refuse = "no such workspace"
	case "file":
		must(os.WriteFile(filepath.Join(top, "file"), nil, 0600))
		args = append(args, "-workspace", filepath.Join(top, "file"))
		refuse = "the workspace is a file"
	case "gone":
		refuse = "the current directory is gone"
	}
	staging := filepath.Join(top, "staging")
	stagingFails := false
	switch s.staging {
	case "made":
		must(os.MkdirAll(staging, 0755))
	case "deep":
		staging = filepath.Join(top, "s", "t", "staging")
	case "file":
		must(os.WriteFile(staging, nil, 0600))
		stagingFails = true
	}
	args = append(args, "-staging", staging)
	if s.tag != "" {
		args = append(args, "-tag", s.tag)
	}
	if s.suffix != "" {
		args = append(args, "-branch_suffix", s.suffix)
	}
	if s.repo != "" {
		args = append(args, "-google_xproto_repository", s.repo)
	}
	for _, f := range s.present {
		f = filepath.Join(ws, f)
		must(os.MkdirAll(filepath.Dir(f), 0755))
		must(os.WriteFile(f, []byte("there"), 0600))
	}
	b, err := json.Marshal(plan{fail, how, s.generated, s.staged})
	must(err)
	must(os.WriteFile(filepath.Join(ctl, "plan.json"), b, 0600))

	cmd := exec.Command(h.bin, args...)
	cmd.Dir = cwd
	if s.workspace == "gone" {
		cmd = exec.Command("/bin/sh", append([]string{"-c", `/bin/rmdir "$PWD" && exec "$0" "$@"`, h.bin}, args...)...)
		cmd.Dir = cwd
	}
	cmd.Env = []string{"PATH=" + bin, "C34_DIR=" + ctl, "HOME=" + top, "TMPDIR=" + top}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	if x, is := err.(*exec.ExitError); err != nil && !is {
		panic(err)
	} else if is && x.ExitCode() == -1 {
		t.Failf("the program was killed: %v", err)
	}
	if strings.Contains(e.String(), "goroutine ") {
		t.Failf("the program crashed:\n%s", e.String())
	}

	all := expected(s, root, staging)
	want, clean := all, refuse == ""
	why := refuse
	if s.tag == "" {
		clean, why = false, "there is no tag"
	}
	switch {
	case !clean:
		want = nil
	case fail >= 0 && fail < len(all):
		want, clean, why = all[:fail+1], false, fmt.Sprintf("%q failed", all[fail])
	}
	if stagingFails {
		for i, w := range want {
			if w[0] == "bazel" && w[2] == "//cmd/xtoproto_web" {
				want, clean, why = want[:i], false, "the staging directory cannot be made"
			}
		}
	}
	raw, _ := os.ReadFile(filepath.Join(ctl, "log"))
	var got [][]string
	for _, l := range strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n") {
		if l == "" {
			continue
		}
		var r record
		must(json.Unmarshal([]byte(l), &r))
		got = append(got, r.Args)
		t.Transitions(1)
		abs, err := filepath.EvalSymlinks(ws)
		must(err)
		if r.Cwd != abs {
			t.Failf("%q is run in %s instead of the workspace %s", r.Args, r.Cwd, abs)
		}
	}
	if fail < 0 || !clean && len(want) == 0 || fail >= len(all) {
		got = canonical(got)
		want = canonical(want)
	} else {
		// Which of the additions or copies comes first is not said; the fault hits one of them.
		got, want = upTo(got, all, fail), upTo(want, all, fail)
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			t.Failf("%q is not run (%s; stderr %s)", want[i], why, e.String())
		case i >= len(want):
			t.Failf("%q is run although %s", got[i], why)
		case fmt.Sprint(len(got[i]), got[i]) != fmt.Sprint(len(want[i]), want[i]):
			t.Failf("command %d is %q instead of %q", i, got[i], want[i])
		default:
			continue
		}
		break
	}
	if clean {
		t.Outcome(fmt.Sprint("released with commands: ", len(want)))
		if err != nil {
			t.Failf("fails: %s", e.String())
		}
		for _, name := range []string{"release" + s.suffix, "gh-pages-release" + s.suffix, s.tag} {
			if !strings.Contains(o.String(), name) {
				t.Failf("does not tell about %s: %s", name, o.String())
			}
		}
	} else {
		t.Outcome("stops: " + strings.SplitN(why, "\"", 2)[0])
		if len(want) < 2 {
			t.Trivial()
		}
		if err == nil {
			t.Failf("exit 0, but: %s", why)
		}
		if strings.TrimSpace(e.String()) == "" {
			t.Failf("fails without a message, but: %s", why)
		}
	}
	return len(all)
}

func groupOf(a []string) string {
	switch {
	case len(a) > 1 && a[0] == "git" && a[1] == "add":
		return "add"
	case a[0] == "cp":
		return "cp"
	}
	return ""
}

// canonical sorts the commands of each group.
func canonical(cmds [][]string) [][]string {
	out := append([][]string(nil), cmds...)
	for i := 0; i < len(out); {
		j := i + 1
		if g := groupOf(out[i]); g != "" {
			for j < len(out) && groupOf(out[j]) == g {
				j++
			}
			sort.Slice(out[i:j], func(a, b int) bool { return strings.Join(out[i+a], "\x00") < strings.Join(out[i+b], "\x00") })
		}
		i = j
	}
	return out
}

// upTo replaces commands of the group of the failing command by the group's name if they belong to it.
func upTo(cmds, all [][]string, fail int) [][]string {
	g := groupOf(all[fail])
	cmds = canonical(cmds)
	if g == "" {
		return cmds
	}
	member := map[string]bool{}
	for _, a := range all {
		member[strings.Join(a, "\x00")] = true
	}
	for i, a := range cmds {
		if groupOf(a) == g && member[strings.Join(a, "\x00")] {
			member[strings.Join(a, "\x00")] = false // Not twice.
			cmds[i] = []string{g}
		}
	}
	return cmds
}

func run(c *kit.C) {
	scratch := os.Getenv("VERIF_SCRATCH")
	h := &harness{bin: filepath.Join(scratch, "release"), top: filepath.Join(scratch, "runs")}
	must(os.MkdirAll(h.top, 0755))
	build := exec.Command("go", "build", "-overlay", filepath.Join(scratch, "overlay.json"), "-o", h.bin, "./releasing/make_release")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintln(os.Stderr, string(out))
		os.Exit(2)
	}
	type job struct {
		s    scenario
		fail int
		how  string
	}
	var jobs []job
	flush := func(part string) {
		c.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			c.Case(fmt.Sprintf("%+v, command %d %s", j.s, j.fail, j.how), func(t *kit.T) { h.run(t, j.s, j.fail, j.how) })
		})
		c.Part(part, int64(len(jobs)))
		jobs = nil
	}
	gens := [][]string{nil, {"a.pb.go"}, {"a.pb.go", "d/b.pb.go", "d/e/c.pb.go"}, {"a.go", "b.pb.gox", "d/a.pb.go"}, {"a b.pb.go", "é.pb.go"}}
	stages := [][]string{nil, {"index.html"}, {"index.html", "d/a.js", "d/b.js", "playground.wasm", "d/e/f"}, {"a b", "-x", "[z]"}}
	presents := [][]string{nil, {"proto/old.pb.go", "proto/a.proto", "proto/d/BUILD.bazel"}, {"other/x.pb.go", "x.pb.go", "proto2/y.pb.go", "proto/a.pb.go"}, {"xproto/proto/z.pb.go", "proto/deep/er/still/w.pb.go", "proto/w.PB.go"}}
	full := scenario{tag: "v0.0.6", suffix: "v006c", workspace: "flag", staging: "made"}
	for _, tag := range []string{"", "v1", "v0.0.6-rc.1", "a tag"} {
		for _, suffix := range []string{"", "v006c", "-x y"} {
			for _, repo := range []string{"", "/some/where else"} {
				for _, wsp := range []string{"flag", "relative", "cwd", "missing", "file", "gone"} {
					for _, st := range []string{"made", "absent", "deep", "file"} {
						for k := range gens[:2] {
							jobs = append(jobs, job{scenario{tag, suffix, repo, wsp, st, presents[k], gens[k+1], stages[k+1]}, -1, ""})
						}
					}
				}
			}
		}
	}
	flush("flags")
	for _, p := range presents {
		for _, g := range gens {
			for _, st := range stages {
				s := full
				s.present, s.generated, s.staged = p, g, st
				jobs = append(jobs, job{s, -1, ""})
				for k := range expected(s, "", "") {
					for _, how := range []string{"exit1", "exit128", "killed", "quiet"}[:c.Pick(2, 4)] {
						jobs = append(jobs, job{s, k, how})
					}
				}
			}
		}
	}
	flush("faults")
	for _, wsp := range []string{"flag", "relative", "cwd"} {
		for _, st := range []string{"absent", "deep", "file"} {
			for _, how := range []string{"exit1", "killed", "quiet"} {
				s := scenario{tag: "v2", suffix: "s", workspace: wsp, staging: st, repo: "r", present: presents[1], generated: gens[2], staged: stages[2]}
				for k := range expected(s, "", "") {
					jobs = append(jobs, job{s, k, how})
				}
			}
		}
	}
	flush("faults elsewhere")
	for _, n := range []int{50, c.Pick(150, 400)} {
		s := full
		for i := 0; i < n; i++ {
			s.generated = append(s.generated, fmt.Sprintf("d%d/f%d.pb.go", i%7, i))
			s.staged = append(s.staged, fmt.Sprintf("s%d", i))
		}
		jobs = append(jobs, job{s, -1, ""})
		total := len(expected(s, "", ""))
		for _, k := range []int{3, n / 2, n + 2, n + 3, n + 4, n + 8, total - 1} {
			jobs = append(jobs, job{s, k, "exit1"})
		}
	}
	flush("many files")
}
