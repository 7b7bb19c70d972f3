// C35: the generator of the RDF/XML test cases writes exactly the approved cases of a manifest.
package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"

	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C35", Level: "model_checking",
		Rule: "runs of the built program, each with a manifest and documents of its own: every sequence of manifest entries up to a length over entries of all kinds and statuses; every text of a document, name or description up to a length over characters that have to be quoted; every way the manifest, a document or the output can be unreadable or unwritable, the manifest cut after every byte; many entries and large documents. The generated file is type-checked as Go and its constants are compared with the documents. Non-trivial: the file holds a case",
	}, run)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

const root = "http://www.w3.org/2000/10/rdf-tests/rdfcore/"

// entry is one test of a manifest.
type entry struct {
	kind   string // element name
	status string // "-": no element
	name   string
	in     string // path below root
	out    string
	desc   string // "": no element
	order  int    // order of the child elements
	noise  bool
}

type doc struct {
	text  string
	state string // "", absent, directory
}

type world struct {
	entries []entry
	docs    map[string]doc
	raw     string // the manifest itself, or ""
	place   string // what is at the place of the output
	man     string // "", absent, directory
	rel     bool   // relative paths; defaults when both
	def     bool
	head    string
}

type tcase struct{ Name, InputXML, DocumentURL, OutputNTriples, Description string }

type harness struct {
	bin, top string
	n        atomic.Int64
}

func esc(s string) string {
	var b bytes.Buffer
	must(xml.EscapeText(&b, []byte(s)))
	return b.String()
}

func (e entry) xml() string {
	parts := []string{"", "", "", "", ""}
	if e.status != "-" {
		parts[0] = "  <test:status>" + esc(e.status) + "</test:status>\n"
	}
	parts[1] = `  <test:approval rdf:resource="http://lists.example/0326.html" />` + "\n"
	if e.in != "" {
		parts[2] = `  <test:inputDocument><test:RDF-XML-Document rdf:about="` + esc(root+e.in) + `" /></test:inputDocument>` + "\n"
	}
	if e.out != "" {
		parts[3] = "  <test:outputDocument>\n" + `<test:NT-Document rdf:about="` + esc(root+e.out) + `"></test:NT-Document></test:outputDocument>` + "\n"
	}
	if e.desc != "" {
		parts[4] = "  <test:description>" + esc(e.desc) + "</test:description>\n"
	}
	s := ""
	for i := range parts {
		j := i
		if e.order == 1 {
			j = len(parts) - 1 - i
		}
		s += parts[j]
		if e.noise {
			s += "<!-- <test:status>WITHDRAWN</test:status> --> <test:warning>a &lt; b</test:warning>\n"
		}
	}
	return "<test:" + e.kind + ` rdf:about="` + esc(e.name) + `">` + "\n" + s + "</test:" + e.kind + ">\n\n"
}

func manifest(head string, entries []entry) string {
	if head == "" {
		head = `<?xml version="1.0"?>` + "\n"
	}
	s := head + `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#" xmlns:test="http://www.w3.org/2000/10/rdf-tests/rdfcore/testSchema#">` + "\n\n"
	for _, e := range entries {
		s += e.xml()
	}
	return s + "</rdf:RDF>"
}

// read type-checks the generated file and returns its cases.
func read(t *kit.T, src string) (pos, neg []tcase, ok bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", src, 0)
	if err != nil {
		t.Failf("the generated file is no Go: %v", err)
		return nil, nil, false
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	pkg, err := (&types.Config{}).Check("rdftestcases", fset, []*ast.File{f}, info)
	if err != nil {
		t.Failf("the generated file does not compile: %v", err)
		return nil, nil, false
	}
	if pkg.Name() != "rdftestcases" {
		t.Failf("the package is called %s", pkg.Name())
	}
	list := func(name, typ string) []tcase {
		obj := pkg.Scope().Lookup(name)
		if obj == nil {
			t.Failf("there is no %s", name)
			return nil
		}
		if got := types.TypeString(obj.Type(), func(*types.Package) string { return "" }); got != "[]"+typ {
			t.Failf("%s is of type %s", name, got)
			return nil
		}
		var res []tcase
		for _, d := range f.Decls {
			g, is := d.(*ast.GenDecl)
			if !is || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if n.Name != name || i >= len(vs.Values) {
						continue
					}
					cl, is := vs.Values[i].(*ast.CompositeLit)
					if !is {
						t.Failf("%s is not listed", name)
						return nil
					}
					for _, el := range cl.Elts {
						lit := el.(*ast.CompositeLit)
						st := info.Types[lit].Type.Underlying().(*types.Struct)
						var x tcase
						for k, v := range lit.Elts {
							field := ""
							if kv, is := v.(*ast.KeyValueExpr); is {
								field, v = kv.Key.(*ast.Ident).Name, kv.Value
							} else {
								field = st.Field(k).Name()
							}
							cv := info.Types[v].Value
							if cv == nil || cv.Kind() != constant.String {
								t.Failf("%s.%s is no constant string", name, field)
								continue
							}
							text := constant.StringVal(cv)
							switch field {
							case "Name":
								x.Name = text
							case "InputXML":
								x.InputXML = text
							case "DocumentURL":
								x.DocumentURL = text
							case "OutputNTriples":
								x.OutputNTriples = text
							case "Description":
								x.Description = text
							default:
								t.Failf("field %s", field)
							}
						}
						res = append(res, x)
					}
				}
			}
		}
		return res
	}
	fields := func(typ string, want ...string) {
		obj := pkg.Scope().Lookup(typ)
		if obj == nil {
			t.Failf("there is no type %s", typ)
			return
		}
		st, is := obj.Type().Underlying().(*types.Struct)
		if !is {
			t.Failf("%s is no struct", typ)
			return
		}
		for _, w := range want {
			found := false
			for i := 0; i < st.NumFields(); i++ {
				found = found || st.Field(i).Name() == w && types.Identical(st.Field(i).Type(), types.Typ[types.String])
			}
			if !found {
				t.Failf("%s has no string %s", typ, w)
			}
		}
	}
	fields("PositiveParserCase", "Name", "InputXML", "DocumentURL", "OutputNTriples")
	fields("NegativeParserCase", "Name", "InputXML", "DocumentURL", "Description")
	return list("Positives", "PositiveParserCase"), list("Negatives", "NegativeParserCase"), true
}

func same(t *kit.T, what string, got, want []tcase) {
	if len(got) != len(want) {
		t.Failf("%d %s, want %d", len(got), what, len(want))
	}
	for i := 0; i < len(got) && i < len(want); i++ {
		g, w := got[i], want[i]
		for _, f := range [][3]string{{"Name", g.Name, w.Name}, {"InputXML", g.InputXML, w.InputXML}, {"DocumentURL", g.DocumentURL, w.DocumentURL}, {"OutputNTriples", g.OutputNTriples, w.OutputNTriples}, {"Description", g.Description, w.Description}} {
			if f[1] != f[2] {
				t.Failf("%s[%d].%s is %.200q (%d bytes), want %.200q (%d bytes)", what, i, f[0], f[1], len(f[1]), f[2], len(f[2]))
			}
		}
	}
}

// want tells the cases of the entries, or what is unreadable.
func want(w world) (pos, neg []tcase, fails string) {
	get := func(p string) string {
		d, ok := w.docs[p]
		if !ok || d.state != "" {
			fails = "cannot read " + p
		}
		return d.text
	}
	for _, e := range w.entries {
		if e.status != "APPROVED" {
			continue
		}
		switch e.kind {
		case "PositiveParserTest":
			pos = append(pos, tcase{Name: e.name, InputXML: get(e.in), DocumentURL: root + e.in, OutputNTriples: get(e.out)})
		case "NegativeParserTest":
			neg = append(neg, tcase{Name: e.name, InputXML: get(e.in), DocumentURL: root + e.in, Description: e.desc})
		}
	}
	return
}

func (h *harness) run(t *kit.T, w world) {
	top := filepath.Join(h.top, fmt.Sprint("r", h.n.Add(1)))
	defer os.RemoveAll(top)
	cwd := filepath.Join(top, "cwd")
	dir := filepath.Join(top, "in")
	out := filepath.Join(top, "res", "out.go")
	if w.rel {
		dir, out = filepath.Join(cwd, "some", "in"), filepath.Join(cwd, "o", "out.go")
	}
	man := filepath.Join(dir, "M.rdf")
	if w.def {
		man = filepath.Join(cwd, "third_party/w3c.org/rdf-testcases/Manifest.rdf")
		out = filepath.Join(cwd, "rdf/rdfxml/rdftestcases/rdftestcases.go")
		dir = filepath.Dir(man)
	}
	must(os.MkdirAll(dir, 0755))
	must(os.MkdirAll(cwd, 0755))
	raw := w.raw
	pos, neg, fails := want(w)
	if raw == "" {
		raw = manifest(w.head, w.entries)
	} else if fails == "" && raw != manifest(w.head, w.entries) {
		fails = "the manifest is broken"
	}
	switch w.man {
	case "":
		must(os.WriteFile(man, []byte(raw), 0400))
	case "directory":
		must(os.Mkdir(man, 0755))
		fails = "no manifest"
	case "absent":
		fails = "no manifest"
	}
	for p, d := range w.docs {
		p = filepath.Join(dir, filepath.FromSlash(p))
		must(os.MkdirAll(filepath.Dir(p), 0755))
		switch d.state {
		case "":
			must(os.WriteFile(p, []byte(d.text), 0400))
		case "directory":
			must(os.MkdirAll(p, 0755))
		}
	}
	if w.place != "no folder" {
		must(os.MkdirAll(filepath.Dir(out), 0755))
	}
	old, had := "", false
	writeFails := false
	switch w.place {
	case "longer":
		old, had = strings.Repeat("old contents\n", 100000), true
	case "shorter":
		old, had = "x", true
	case "directory":
		must(os.MkdirAll(filepath.Join(out, "d"), 0755))
		writeFails = true
	case "no folder":
		writeFails = true
	case "full":
		must(os.Symlink("/dev/full", out))
		writeFails = true
	}
	if had {
		must(os.WriteFile(out, []byte(old), 0600))
	}
	args := []string{"-manifest", man, "-output", out}
	if w.rel {
		args = []string{"-manifest", "some/in/M.rdf", "-output=o/out.go"}
	}
	if w.def {
		args = nil
	}
	cmd := exec.Command(h.bin, args...)
	cmd.Dir = cwd
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + top}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	t.Transitions(1)
	if x, is := err.(*exec.ExitError); err != nil && !is {
		panic(err)
	} else if is && x.ExitCode() == -1 {
		t.Failf("the program was killed: %v", err)
	}
	if strings.Contains(e.String(), "goroutine ") {
		t.Failf("the program crashed:\n%s", e.String())
	}
	if fails != "" || writeFails {
		t.Outcome("fails")
		if err == nil {
			t.Failf("exit 0, but %s (output %q)", fails, w.place)
		}
		if strings.TrimSpace(e.String()) == "" {
			t.Failf("fails without a message")
		}
		if !writeFails {
			now, rerr := os.ReadFile(out)
			if (rerr == nil) != had || string(now) != old {
				t.Failf("%s, but the output was changed: %.200q", fails, now)
			}
		}
		return
	}
	if err != nil {
		t.Failf("fails: %s", e.String())
		return
	}
	got, rerr := os.ReadFile(out)
	if rerr != nil {
		t.Failf("no output: %v", rerr)
		return
	}
	t.Outcome(fmt.Sprintf("%d positive, %d negative", min(len(pos), 5), min(len(neg), 5)))
	if len(pos)+len(neg) == 0 {
		t.Trivial()
	}
	if gp, gn, ok := read(t, string(got)); ok {
		same(t, "Positives", gp, pos)
		same(t, "Negatives", gn, neg)
	}
	var extra []string
	filepath.Walk(top, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() && p != out && p != man {
			r, _ := filepath.Rel(dir, p)
			if _, ok := w.docs[filepath.ToSlash(r)]; !ok {
				extra = append(extra, p)
			}
		}
		return nil
	})
	if extra != nil {
		t.Failf("further files: %q", extra)
	}
}

func run(c *kit.C) {
	scratch := os.Getenv("VERIF_SCRATCH")
	h := &harness{bin: filepath.Join(scratch, "generate"), top: filepath.Join(scratch, "runs")}
	must(os.MkdirAll(h.top, 0755))
	build := exec.Command("go", "build", "-overlay", filepath.Join(scratch, "overlay.json"), "-o", h.bin, "./rdf/rdfxml/generate_test_cases")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintln(os.Stderr, string(out))
		os.Exit(2)
	}
	type job struct {
		key string
		w   world
	}
	var jobs []job
	flush := func(part string) {
		c.Parallel(len(jobs), func(i int) { c.Case(jobs[i].key, func(t *kit.T) { h.run(t, jobs[i].w) }) })
		c.Part(part, int64(len(jobs)))
		jobs = nil
	}
	const P, N = "PositiveParserTest", "NegativeParserTest"
	base := map[string]doc{
		"a/test001.rdf": {text: "<rdf:RDF>first</rdf:RDF>\n"}, "a/test001.nt": {text: "<a:a> <b:b> \"x\" .\n"},
		"a/test002.rdf": {text: "second \"quoted\"\r\n"}, "a/test002.nt": {text: ""},
		"b-c/error1.rdf": {text: "no %d good %s\\n`"}, "top.rdf": {text: "top\x00level\xff"},
	}
	with := func(over map[string]doc) map[string]doc {
		m := map[string]doc{}
		for k, v := range base {
			m[k] = v
		}
		for k, v := range over {
			m[k] = v
		}
		return m
	}

	// Sequences of entries.
	pool := []entry{
		{kind: P, status: "APPROVED", in: "a/test001.rdf", out: "a/test001.nt"},
		{kind: P, status: "APPROVED", in: "a/test002.rdf", out: "a/test002.nt", desc: "described", order: 1},
		{kind: N, status: "APPROVED", in: "b-c/error1.rdf", desc: "must fail"},
		{kind: N, status: "APPROVED", in: "top.rdf", noise: true},
		{kind: P, status: "NOT_APPROVED", in: "a/test001.rdf", out: "a/test001.nt"},
		{kind: N, status: "OBSOLETED", in: "none.rdf", desc: "old"},
		{kind: "PositiveEntailmentTest", status: "APPROVED", in: "a/test001.rdf", out: "gone.nt", desc: "other"},
		{kind: P, status: "-", in: "gone.rdf", out: "gone.nt"},
		{kind: "MiscellaneousTest", status: "APPROVED", in: "gone.rdf"},
		{kind: "NegativeEntailmentTest", status: "APPROVED", in: "gone.rdf"},
	}
	max := c.Pick(3, 4)
	for n := 0; n <= max; n++ {
		kit.Seqs(len(pool), max, func(ix []int) bool {
			var es []entry
			for k, i := range ix {
				e := pool[i]
				e.name = fmt.Sprintf("%sm/Manifest.rdf#test%03d", root, k)
				es = append(es, e)
			}
			jobs = append(jobs, job{fmt.Sprintf("entries %v", ix), world{entries: es, docs: base}})
			return !c.Stop()
		})
	}
	flush("sequences of entries")

	// Statuses.
	for _, st := range []string{"APPROVED", "NOT_APPROVED", "OBSOLETED", "OBSOLETE", "WITHDRAWN", "PENDING", "approved", "Approved", "APPROVED2", "XAPPROVED", "", "-", "APPROVE", "UNAPPROVED"} {
		for _, kind := range []string{P, N, "PositiveEntailmentTest", "NegativeEntailmentTest", "MiscellaneousTest"} {
			for _, order := range []int{0, 1} {
				for _, noise := range []bool{false, true} {
					e := entry{kind: kind, status: st, name: "n", in: "a/test001.rdf", out: "a/test001.nt", desc: "d", order: order, noise: noise}
					o := entry{kind: kind, status: "APPROVED", name: "other", in: "top.rdf", out: "a/test002.nt"}
					for i, es := range [][]entry{{e}, {e, o}, {o, e}} {
						jobs = append(jobs, job{fmt.Sprintf("status %q of %s, order %d, noise %v, among %d", st, kind, order, noise, i), world{entries: es, docs: base}})
					}
				}
			}
		}
	}
	flush("statuses")

	// Texts of documents.
	both := func(key string, text, nt string) {
		es := []entry{
			{kind: P, status: "APPROVED", name: "p", in: "a/x.rdf", out: "a/x.nt"},
			{kind: N, status: "APPROVED", name: "n", in: "a/x.rdf", desc: "d"},
			{kind: P, status: "APPROVED", name: "q", in: "top.rdf", out: "a/x.nt"},
		}
		jobs = append(jobs, job{key, world{entries: es, docs: with(map[string]doc{"a/x.rdf": {text: text}, "a/x.nt": {text: nt}})}})
	}
	for b := 0; b < 256; b++ {
		both(fmt.Sprintf("byte %d in the documents", b), "a"+string([]byte{byte(b)})+"b", string([]byte{byte(b)}))
	}
	chars := []string{"\"", "\\", "`", "\n", "\r", "%s", "\x00", "\xff", "é", "\ufeff", "\u2028", "\U0001F600", "\xed\xa0\x80", "u0041", "7", "{{"}
	kit.Strings(chars, c.Pick(2, 3), func(p []string) bool {
		s := strings.Join(p, "")
		both(fmt.Sprintf("documents %q", s), s, "x"+s)
		return !c.Stop()
	})
	for _, n := range []int{1 << 10, 4095, 4096, 4097, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 20} {
		both(fmt.Sprintf("documents of %d bytes", n), strings.Repeat("0123456789abcde\n", n/16+1)[:n], strings.Repeat("\"\n", n/2+1)[:n])
	}
	flush("texts of documents")

	// Names, URLs and descriptions.
	texts := []string{"", " ", "\"", "\\", "`", "\n", "\t", "%d", "&", "<", ">", "'", "é", "\u2028", "\U0001F600", "*/", "//", "]]>", "}", "x"}
	kit.Strings(texts, 2, func(p []string) bool {
		s := strings.Join(p, "")
		es := []entry{
			{kind: P, status: "APPROVED", name: root + s, in: "a/test001.rdf", out: "a/test001.nt", desc: s},
			{kind: N, status: "APPROVED", name: s + "n", in: "top.rdf", desc: s},
			{kind: N, status: "APPROVED", name: "m", in: "top.rdf", desc: "d" + s},
		}
		jobs = append(jobs, job{fmt.Sprintf("names and descriptions %q", s), world{entries: es, docs: base}})
		return !c.Stop()
	})
	for _, p := range []string{"x.rdf", "a/b/c/d/x.rdf", "a b/x y.rdf", "é/ü.rdf", "a&b/x'.rdf", "a%20b/x.rdf", "A/x.RDF", "x", "a/rdfcore/x.rdf", "www.w3.org/x.rdf", "a+b/~x-_.rdf", "a/x.rdf.rdf", "%41.rdf", "q?x=1", "a/http/x"} {
		for _, rel := range []bool{false, true} {
			es := []entry{
				{kind: P, status: "APPROVED", name: "p", in: p, out: p + ".nt"},
				{kind: N, status: "APPROVED", name: "n", in: p + ".bad"},
			}
			jobs = append(jobs, job{fmt.Sprintf("document %q, relative %v", p, rel), world{rel: rel, entries: es,
				docs: map[string]doc{p: {text: "in"}, p + ".nt": {text: "out"}, p + ".bad": {text: "bad"}}}})
		}
	}
	// Documents with similar URLs are different ones.
	alike := []string{"x.rdf", "X.rdf", "a/x.rdf", "A/x.rdf", "a/b/x.rdf", "b/x.rdf", "a/x.rdf2", "a/x", "a%2Fx.rdf", "a/x .rdf", "a-x.rdf", "a_x.rdf", "x.nt", "a/x.nt", "é.rdf", "e.rdf", "a/xx.rdf", "a/x.rdf~", "a.rdf", "aa/x.rdf", "a?/x.rdf", "ax.rdf"}
	for i := range alike {
		for j := range alike {
			if i == j {
				continue
			}
			p, q := alike[i], alike[j]
			docs := map[string]doc{p: {text: "first"}, q: {text: "second"}}
			jobs = append(jobs, job{fmt.Sprintf("documents %q and %q", p, q), world{docs: docs, entries: []entry{
				{kind: P, status: "APPROVED", name: "p", in: p, out: q},
				{kind: N, status: "APPROVED", name: "q", in: q},
				{kind: N, status: "APPROVED", name: "p", in: p},
			}}})
			jobs = append(jobs, job{fmt.Sprintf("document %q, but no %q", p, q), world{docs: map[string]doc{p: {text: "first"}}, entries: []entry{
				{kind: P, status: "APPROVED", name: "p", in: p, out: p},
				{kind: N, status: "APPROVED", name: "q", in: q},
			}}})
		}
	}
	flush("names and descriptions")

	// States of the files.
	es := []entry{
		{kind: P, status: "APPROVED", name: "p", in: "a/p.rdf", out: "a/p.nt", desc: "x"},
		{kind: N, status: "WITHDRAWN", name: "w", in: "a/w.rdf", desc: "w"},
		{kind: N, status: "APPROVED", name: "n", in: "a/n.rdf", desc: "w"},
		{kind: P, status: "APPROVED", name: "q", in: "a/q.rdf", out: "a/q.nt", desc: "x"},
	}
	names := []string{"a/p.rdf", "a/p.nt", "a/n.rdf", "a/q.rdf", "a/q.nt", "a/w.rdf"}
	states := []string{"", "absent", "directory"}
	places := []string{"", "longer", "shorter", "directory", "no folder", "full"}
	for pi, place := range places {
		for _, man := range states {
			for mode := 0; mode < 3; mode++ {
				kit.Product([]int{3, 3, 3, 3, 3, 3}, func(ix []int) bool {
					broken := 0
					docs := map[string]doc{}
					for i, x := range ix {
						if x != 0 {
							broken++
						}
						docs[names[i]] = doc{text: "text of " + names[i], state: states[x]}
					}
					if broken > c.Pick(1, 6) || !c.Thorough() && mode > 0 && broken > 0 && pi > 1 {
						return true
					}
					jobs = append(jobs, job{fmt.Sprintf("documents %v, manifest %q, output %q, mode %d", ix, man, place, mode),
						world{entries: es, docs: docs, man: man, place: place, rel: mode == 1, def: mode == 2}})
					return !c.Stop()
				})
			}
		}
	}
	flush("states of files")

	// Broken manifests.
	full := manifest("", pool[:3])
	for i := 0; i < len(full); i++ {
		raw := full[:i]
		if raw == "" {
			raw = " "
		}
		jobs = append(jobs, job{fmt.Sprintf("manifest cut after %d bytes", i), world{entries: pool[:3], docs: base, raw: raw, place: "shorter"}})
	}
	for i, raw := range []string{"not xml", "<other/>", strings.Replace(full, "</test:status>", "</test:statu>", 1), strings.Replace(full, "rdf:RDF", "rdf:Rdf", 2), strings.Replace(full, "APPROVED", "&undefined;", 1), strings.Replace(full, "APPROVED", "\x01", 1), strings.Replace(full, `version="1.0"`, `version="1.0" encoding="utf-16"`, 1)} {
		jobs = append(jobs, job{fmt.Sprintf("broken manifest %d", i), world{entries: pool[:3], docs: base, raw: raw, place: "longer"}})
	}
	for i, head := range []string{`<?xml version="1.0" encoding="UTF-8"?>`, "<?xml version=\"1.0\"?>\n<!-- comment <rdf:RDF/> -->\n<!DOCTYPE rdf:RDF>\n", " \n", "<!-- no declaration -->"} {
		jobs = append(jobs, job{fmt.Sprintf("manifest head %d", i), world{entries: pool[:6], docs: base, head: head}})
	}
	flush("manifests")

	// Many entries.
	for _, n := range []int{10, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, c.Pick(1000, 5000)} {
		for k := 0; k < 3; k++ {
			docs := map[string]doc{}
			var es []entry
			for i := 0; i < n; i++ {
				e := entry{kind: P, status: "APPROVED", name: fmt.Sprint(root, "m#", i), in: fmt.Sprintf("d%d/t%d.rdf", i%9, i), out: fmt.Sprintf("d%d/t%d.nt", i%7, i), desc: fmt.Sprint("number ", i)}
				if k > 0 && (i%(k+1) == 0) {
					e.kind = N
				}
				if k == 2 && i%5 == 0 {
					e.status = "OBSOLETED"
				}
				docs[e.in], docs[e.out] = doc{text: strings.Repeat(fmt.Sprintln("input", i), i%40)}, doc{text: fmt.Sprintln("output", i)}
				es = append(es, e)
			}
			jobs = append(jobs, job{fmt.Sprintf("%d entries, mix %d", n, k), world{entries: es, docs: docs}})
		}
	}
	flush("many entries")

	// The cases in the repository are those of the manifest in the repository.
	c.Case("the repository's own cases", func(t *kit.T) {
		dir := "/repo/third_party/w3c.org/rdf-testcases"
		data, err := os.ReadFile(dir + "/Manifest.rdf")
		must(err)
		pos, neg := official(dir, data)
		src, err := os.ReadFile("/repo/rdf/rdfxml/rdftestcases/rdftestcases.go")
		must(err)
		gp, gn, ok := read(t, string(src))
		if !ok {
			return
		}
		for i := range gn {
			gn[i].DocumentURL = "" // The file was generated when the generator left it out.
		}
		for i := range neg {
			neg[i].DocumentURL = ""
		}
		same(t, "Positives", gp, pos)
		same(t, "Negatives", gn, neg)
		t.States(len(pos) + len(neg))
	})
	c.Part("the repository's own cases", 1)
}

// official reads the manifest of the W3C token by token.
func official(dir string, data []byte) (pos, neg []tcase) {
	dec := xml.NewDecoder(bytes.NewReader(data))
	attr := func(s xml.StartElement) string {
		for _, a := range s.Attr {
			if a.Name.Local == "about" {
				return a.Value
			}
		}
		return ""
	}
	get := func(url string) string {
		b, err := os.ReadFile(filepath.Join(dir, strings.TrimPrefix(url, root)))
		must(err)
		return string(b)
	}
	var path []string
	var x tcase
	var status, in, out string
	for {
		tok, err := dec.Token()
		if tok == nil {
			_ = err
			return
		}
		switch k := tok.(type) {
		case xml.StartElement:
			path = append(path, k.Name.Local)
			switch len(path) {
			case 2:
				x, status, in, out = tcase{Name: attr(k)}, "", "", ""
			case 4:
				switch strings.Join(path[2:], "/") {
				case "inputDocument/RDF-XML-Document":
					in = attr(k)
				case "outputDocument/NT-Document":
					out = attr(k)
				}
			}
		case xml.CharData:
			if len(path) == 3 && path[2] == "status" {
				status += string(k)
			}
			if len(path) == 3 && path[2] == "description" {
				x.Description += string(k)
			}
		case xml.EndElement:
			if len(path) == 2 && status == "APPROVED" {
				switch path[1] {
				case "PositiveParserTest":
					pos = append(pos, tcase{Name: x.Name, InputXML: get(in), DocumentURL: in, OutputNTriples: get(out)})
				case "NegativeParserTest":
					neg = append(neg, tcase{Name: x.Name, InputXML: get(in), DocumentURL: in, Description: x.Description})
				}
			}
			path = path[:len(path)-1]
		}
	}
}
