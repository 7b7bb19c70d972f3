//go:debug httpservecontentkeepheaders=1

// C30: the playground's web server gives exactly its static files, and nothing else of the disk.
package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C30", Level: "model_checking",
		Rule: "every request path up to a number of pieces (slashes, dots, escaped and backward ones, names of the files, of directories and of other files that exist beside them), with every method and conditional or range header for the names themselves, sent to the running server, whose answers are compared with those of the standard file server over exactly the six files; every set of files missing on the disk; every set of missing files and every state of the output directory when the files are written out instead. Non-trivial: the answer holds a file",
	}, run)
}

// web names the files as they are asked for, and where they come from.
var web = map[string]string{
	"playground.wasm":       "playground/playground.wasm",
	"index.html":            "playground/index.html",
	"playground.html":       "playground/index.html",
	"prism-theme-dark.css":  "playground/prism-theme-dark.css",
	"prism-theme-light.css": "playground/prism-theme-light.css",
	"wasm_exec.js":          "third_party/wasm_exec.js",
}

// contents holds what the files on the disk hold: those that are to be served and others beside them.
var contents = map[string]string{}

func init() {
	for _, p := range web {
		contents[p] = "content of " + p + "\n" + strings.Repeat(p+" <html>\n", 40)
	}
	contents["playground/playground.wasm"] = "\x00asm\x01\x00\x00\x00" + strings.Repeat("\xff\x00wasm", 5000)
	for _, p := range []string{"playground/secret.txt", "playground/index.html.bak", "third_party/secret.txt", "secret.txt", "README.md", "playground/sub/index.html", "../other/secret.txt", "../../secret.txt"} {
		contents[p] = "SECRET " + p
	}
}

var mtime = time.Unix(1600000000, 0)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type memFile struct {
	*bytes.Reader
	name string
	dir  bool
	size int64
}

func (f *memFile) Close() error                             { return nil }
func (f *memFile) Readdir(count int) ([]os.FileInfo, error) { return nil, fmt.Errorf("no listing") }
func (f *memFile) Stat() (os.FileInfo, error)               { return f, nil }
func (f *memFile) Name() string                             { return f.name }
func (f *memFile) Size() int64                              { return f.size }
func (f *memFile) Mode() os.FileMode {
	if f.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (f *memFile) ModTime() time.Time { return mtime }
func (f *memFile) IsDir() bool        { return f.dir }
func (f *memFile) Sys() interface{}   { return nil }

// six is a file system of exactly the six files.
type six struct{}

func (six) Open(name string) (http.File, error) {
	if name == "/" {
		return &memFile{bytes.NewReader(nil), "/", true, 0}, nil
	}
	p, ok := web[strings.TrimPrefix(name, "/")]
	if !ok {
		return nil, os.ErrNotExist
	}
	return &memFile{bytes.NewReader([]byte(contents[p])), filepath.Base(p), false, int64(len(contents[p]))}, nil
}

type answer struct {
	status int
	header string
	body   string
}

func ask(client *http.Client, base, method, target string, header []string) (answer, error) {
	req, err := http.NewRequest(method, base+"/", nil)
	if err != nil {
		return answer{}, err
	}
	req.URL.Opaque = target
	for i := 0; i+1 < len(header); i += 2 {
		req.Header.Set(header[i], header[i+1])
	}
	resp, err := client.Do(req)
	if err != nil {
		return answer{}, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return answer{}, err
	}
	resp.Header.Del("Date")
	hs := &bytes.Buffer{}
	resp.Header.Write(hs)
	return answer{resp.StatusCode, hs.String(), string(b)}, nil
}

type site struct {
	top, dir, bin string
}

func (s *site) path(p string) string { return filepath.Join(s.dir, p) }

func (s *site) put(p string) {
	must(os.MkdirAll(filepath.Dir(s.path(p)), 0755))
	must(os.WriteFile(s.path(p), []byte(contents[p]), 0644))
	must(os.Chtimes(s.path(p), mtime, mtime))
}

func (s *site) command(args ...string) *exec.Cmd {
	cmd := exec.Command(s.bin, args...)
	cmd.Dir = s.top
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "RUNFILES_DIR="+filepath.Dir(s.dir), "TEST_WORKSPACE="+filepath.Base(s.dir))
	return cmd
}

// listed makes the command find its files by a manifest that names those that are there.
func (s *site) listed(cmd *exec.Cmd, dir string) {
	text := ""
	for _, p := range web {
		if _, err := os.Stat(s.path(p)); err == nil {
			text += filepath.Base(s.dir) + "/" + p + " " + s.path(p) + "\n"
		}
	}
	must(os.WriteFile(filepath.Join(dir, "MANIFEST"), []byte(text), 0600))
	must(os.Mkdir(filepath.Join(dir, "none"), 0700))
	cmd.Env = append(cmd.Env, "RUNFILES_MANIFEST_FILE="+filepath.Join(dir, "MANIFEST"), "RUNFILES_DIR="+filepath.Join(dir, "none"))
}

func run(c *kit.C) {
	scratch := os.Getenv("VERIF_SCRATCH")
	top, err := os.MkdirTemp(scratch, "site")
	must(err)
	s := &site{top: filepath.Join(top, "cwd"), dir: filepath.Join(top, "web.runfiles", "ws"), bin: filepath.Join(top, "web")}
	must(os.MkdirAll(s.top, 0755))
	build := exec.Command("go", "build", "-overlay", filepath.Join(scratch, "overlay.json"), "-o", s.bin, "./cmd/xtoproto_web")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintln(os.Stderr, string(out))
		os.Exit(2)
	}
	for p := range contents {
		s.put(p)
	}

	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	addr := ln.Addr().String()
	busy := s.command("-addr", addr)
	c.Case("the address is taken", func(t *kit.T) {
		out, err := busy.CombinedOutput()
		if err == nil || !strings.Contains(string(out), "in use") {
			t.Failf("%v %s", err, out)
		}
	})
	ln.Close()
	cmd := s.command("-addr", addr)
	must(cmd.Start())
	defer func() { cmd.Process.Kill(); cmd.Wait() }()
	client := &http.Client{
		Timeout:       20 * time.Second,
		Transport:     &http.Transport{MaxIdleConnsPerHost: 16, DisableCompression: true},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
	base := "http://" + addr
	up := false
	for i := 0; i < 200 && !up; i++ {
		if r, err := client.Get(base + "/wasm_exec.js"); err == nil {
			r.Body.Close()
			up = true
		} else {
			time.Sleep(50 * time.Millisecond)
		}
	}
	if !up {
		c.Violation("the server starts", "the server does not answer at "+addr)
		return
	}
	refLn, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	ref := &http.Server{Handler: http.FileServer(six{})}
	go ref.Serve(refLn)
	defer ref.Close()
	refBase := "http://" + refLn.Addr().String()

	same := func(t *kit.T, method, target string, header []string) {
		got, err := ask(client, base, method, target, header)
		if err != nil {
			t.Failf("no answer: %v", err)
			return
		}
		want, err := ask(client, refBase, method, target, header)
		must(err)
		if strings.Contains(got.body, "SECRET") {
			t.Failf("the answer holds a file that is not to be served: %.80q", got.body)
		}
		if got.status != want.status || got.header != want.header || got.body != want.body {
			t.Failf("answer %d %.200q\n%s\ninstead of %d %.200q\n%s", got.status, got.body, got.header, want.status, want.body, want.header)
		}
		if want.status != 200 {
			t.Trivial()
		}
		t.Outcome(fmt.Sprint(want.status, " ", len(want.body)))
	}
	many := func(name string, targets []string, method string, header []string) {
		c.Parallel(len(targets), func(i int) {
			c.CaseF(func() string { return fmt.Sprintf("%s %s %q", method, targets[i], header) }, func(t *kit.T) { same(t, method, targets[i], header) })
		})
		c.Part(name, int64(len(targets)))
	}

	var names []string
	for n := range web {
		names = append(names, n)
	}
	sort.Strings(names)
	tokens := []string{"/", "..", ".", "%2e%2e", "%2F", "\\", "%5c", "playground", "third_party", "secret.txt", "index.html", "playground.wasm", "wasm_exec.js", "prism-theme-dark.css", "?x=../secret.txt", "%00", "sub", "%20", "ws"}
	var targets []string
	kit.Strings(tokens, c.Pick(4, 5), func(parts []string) bool {
		targets = append(targets, "/"+strings.Join(parts, ""))
		return true
	})
	many("request paths", targets, "GET", nil)
	targets = nil
	for _, n := range append(append([]string{}, names...), "", "secret.txt") {
		for i := 0; i <= len(n); i++ {
			for _, r := range []string{"", "/", ".", "%2f", "x", "X", "%70", "?", "%", "..", "//", "/.", "/..", ";", "&", "+", "*"} {
				targets = append(targets, "/"+n[:i]+r+n[i:])
				if i < len(n) {
					targets = append(targets, "/"+n[:i]+r+n[i+1:], "/"+n[:i]+fmt.Sprintf("%%%02X", n[i])+n[i+1:]+r, "/"+n[:i]+strings.ToUpper(n[i:]))
				}
			}
		}
	}
	var files []string
	for p := range contents {
		files = append(files, p)
	}
	sort.Strings(files)
	for _, p := range files {
		for _, d := range []string{"", "/", "/playground/", "/../", "/playground/../", "/web.runfiles/ws/", s.dir + "/", "//", "/..%2f", "/%2e%2e/"} {
			targets = append(targets, "/"+strings.TrimPrefix(d, "/")+p, "/"+strings.TrimPrefix(d, "/")+strings.ReplaceAll(p, "/", "%2f"), "/"+strings.TrimPrefix(d, "/")+filepath.Base(p))
		}
	}
	targets = append(targets, "/etc/passwd", "//etc/passwd", "/..//etc/passwd", "/proc/self/environ")
	var valid []string
	seen := map[string]bool{}
	for _, t := range targets {
		if _, err := http.NewRequest("GET", base+t, nil); err == nil && !seen[t] {
			seen[t] = true
			valid = append(valid, t)
		}
	}
	many("paths within an edit of the names, and paths of files", valid, "GET", nil)
	plain := []string{"/", "/none"}
	for _, n := range names {
		plain = append(plain, "/"+n)
	}
	for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"} {
		for _, h := range [][]string{nil, {"Range", "bytes=0-3"}, {"Range", "bytes=5-"}, {"Range", "bytes=-7"}, {"Range", "bytes=999999-"}, {"Range", "x"}, {"If-Modified-Since", mtime.UTC().Format(http.TimeFormat)}, {"If-Modified-Since", mtime.Add(-time.Hour).UTC().Format(http.TimeFormat)}, {"If-Unmodified-Since", mtime.Add(-time.Hour).UTC().Format(http.TimeFormat)}, {"Accept-Encoding", "gzip"}} {
			many("methods and headers", plain, m, h)
		}
	}

	// files missing on the disk while the server runs
	var srcs []string
	for p := range contents {
		if !strings.HasPrefix(contents[p], "SECRET") {
			srcs = append(srcs, p)
		}
	}
	sort.Strings(srcs)
	for mask := 1; mask < 1<<len(srcs); mask++ {
		missing := map[string]bool{}
		for i, p := range srcs {
			if mask>>i&1 != 0 {
				missing[p] = true
			}
		}
		for p := range missing {
			must(os.Remove(s.path(p)))
		}
		for _, target := range plain {
			c.Case(fmt.Sprintf("GET %s while missing %v", target, missing), func(t *kit.T) {
				p := web[strings.TrimPrefix(target, "/")]
				if target == "/" {
					p = web["index.html"]
				}
				if target == "/" && missing[web["playground.wasm"]] {
					t.Trivial()
					return // the directory's own times are those of this file's
				}
				if !missing[p] {
					same(t, "GET", target, nil)
					return
				}
				a, err := ask(client, base, "GET", target, nil)
				if err != nil {
					t.Failf("no answer: %v", err)
				} else if target == "/index.html" {
					// is redirected without a look at the file
				} else if a.status < 400 {
					t.Failf("answer %d %.200q for a missing file", a.status, a.body)
				}
				t.Trivial()
			})
		}
		for p := range missing {
			s.put(p)
		}
	}
	c.Part("sets of missing files", int64((1<<len(srcs)-1)*len(plain)))

	// writing the files out
	n := int64(0)
	for mask := 0; mask < 1<<len(srcs); mask++ {
		missing := map[string]bool{}
		for i, p := range srcs {
			if mask>>i&1 != 0 {
				missing[p] = true
			}
		}
		for p := range missing {
			must(os.Remove(s.path(p)))
		}
		for _, state := range []string{"empty", "absent", "a file", "full of others", "a directory in the way", "with a slash", "empty, files listed", "absent, files listed"} {
			n++
			c.Case(fmt.Sprintf("output to a directory that is %s, missing %v", state, missing), func(t *kit.T) {
				dst, err := os.MkdirTemp(top, "out")
				must(err)
				defer os.RemoveAll(dst)
				out := filepath.Join(dst, "o")
				want := map[string]string{}
				ok := len(missing) == 0
				switch state {
				case "absent", "absent, files listed":
					ok = false
				case "a file":
					ok = false
					must(os.WriteFile(out, nil, 0600))
				case "full of others":
					must(os.Mkdir(out, 0755))
					must(os.WriteFile(filepath.Join(out, "index.html"), bytes.Repeat([]byte("old"), 99999), 0600))
					must(os.WriteFile(filepath.Join(out, "mine"), []byte("m"), 0600))
					want["mine"] = "m"
				case "a directory in the way":
					ok = false
					must(os.MkdirAll(filepath.Join(out, "wasm_exec.js"), 0755))
				default:
					must(os.Mkdir(out, 0755))
				}
				arg := out
				if state == "with a slash" {
					arg += "/"
				}
				cmd := s.command("-output_dir", arg)
				if strings.HasSuffix(state, "listed") {
					s.listed(cmd, dst)
				}
				text, err := cmd.CombinedOutput()
				if ok != (err == nil) {
					t.Failf("exit %v although it should succeed: %v\n%s", err, ok, text)
					return
				}
				if !ok {
					if !strings.Contains(string(text), "fatal error") {
						t.Failf("no error is told: %s", text)
					}
					t.Trivial()
					return
				}
				for name, p := range web {
					want[name] = contents[p]
				}
				es, err := os.ReadDir(out)
				must(err)
				if len(es) != len(want) {
					t.Failf("%d files instead of %d", len(es), len(want))
				}
				for name, w := range want {
					if b, err := os.ReadFile(filepath.Join(out, name)); err != nil || string(b) != w {
						t.Failf("%s: %v %.80q instead of %.80q", name, err, b, w)
					}
				}
			})
		}
		for p := range missing {
			s.put(p)
		}
	}
	c.Part("output directories", n)
}
