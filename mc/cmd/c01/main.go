// C01: an import set gives every import path one stable usable name, and no name to two paths (all histories).
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	"github.com/google/xtoproto/codegen"
	"verif/mc/kit"
)

type def struct {
	path, name string
	alias      bool
}

// model is the sequential specification.
type model struct {
	defs []def
	pkg  func(string) string
	std  bool // pkg is the default
}

var keywords = map[string]bool{"": true, "_": true, "break": true, "case": true, "chan": true, "const": true, "continue": true, "default": true, "defer": true, "else": true, "fallthrough": true, "for": true, "func": true, "go": true, "goto": true, "if": true, "import": true, "interface": true, "map": true, "package": true, "range": true, "return": true, "select": true, "struct": true, "switch": true, "type": true, "var": true}

// usable tells whether Go code can refer to a package by the name.
func usable(n string) bool {
	return !keywords[n] && !(n[0] >= '0' && n[0] <= '9')
}

func (m *model) byPath(p string) *def {
	for i := range m.defs {
		if m.defs[i].path == p {
			return &m.defs[i]
		}
	}
	return nil
}

func (m *model) byName(n string) *def {
	for i := range m.defs {
		if m.defs[i].name == n {
			return &m.defs[i]
		}
	}
	return nil
}

func (m *model) usable(p string) *def {
	for i := range m.defs {
		if m.defs[i].path == p && m.defs[i].name != "_" {
			return &m.defs[i]
		}
	}
	return nil
}

func (m *model) register(p string) def {
	if d := m.usable(p); d != nil {
		return *d
	}
	assumed := m.pkg(p)
	short := strings.TrimSuffix(assumed, "_go_proto")
	pkg := ""
	if m.std && short == assumed && !usable(assumed) || m.std && short != assumed && (short == "" || !usable(short+"pb")) {
		pkg = "pkg"
	}
	for i := 1; ; i++ {
		noise := ""
		if i > 1 {
			noise = strconv.Itoa(i)
		}
		name := assumed + noise
		if strings.HasSuffix(assumed, "_go_proto") {
			name = strings.TrimSuffix(assumed, "_go_proto") + noise + "pb"
		}
		name = pkg + name
		if m.byName(name) != nil {
			continue
		}
		d := def{p, name, name != assumed}
		m.defs = append(m.defs, d)
		return d
	}
}

// registerAliased returns the import and whether it was accepted.
func (m *model) registerAliased(p, alias string) (def, bool) {
	if alias == "" {
		return def{}, false
	}
	if alias != "_" {
		if d := m.byName(alias); d != nil {
			if d.path == p {
				return *d, true
			}
			return def{}, false
		}
	}
	d := def{p, alias, true}
	for _, o := range m.defs {
		if o == d {
			return d, true
		}
	}
	m.defs = append(m.defs, d)
	return d, true
}

type op struct {
	path, alias string
	aliased     bool
}

func (o op) String() string {
	if o.aliased {
		return fmt.Sprintf("RegisterAliased(%s,%s)", o.path, o.alias)
	}
	return fmt.Sprintf("Register(%s)", o.path)
}

func same(i *codegen.Import, d def) string {
	if i == nil {
		return fmt.Sprintf("got no import, want %+v", d)
	}
	wantAlias := ""
	if d.alias {
		wantAlias = d.name
	}
	if i.Path() != d.path || i.PackageName() != d.name || i.Alias() != wantAlias {
		return fmt.Sprintf("got path=%q name=%q alias=%q, want %+v", i.Path(), i.PackageName(), i.Alias(), d)
	}
	return ""
}

func fragment(i *codegen.Import) string {
	src := "package p\nimport " + i.GoFragment() + "\n"
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ImportsOnly)
	if err != nil {
		return fmt.Sprintf("GoFragment %q is not an import spec: %v", i.GoFragment(), err)
	}
	var specs []*ast.ImportSpec = f.Imports
	if len(specs) != 1 {
		return fmt.Sprintf("GoFragment %q is %d imports", i.GoFragment(), len(specs))
	}
	p, _ := strconv.Unquote(specs[0].Path.Value)
	alias := ""
	if specs[0].Name != nil {
		alias = specs[0].Name.Name
	}
	if p != i.Path() || alias != i.Alias() {
		return fmt.Sprintf("GoFragment %q reads as alias %q path %q, want %q %q", i.GoFragment(), alias, p, i.Alias(), i.Path())
	}
	return ""
}

type config struct {
	name  string
	opts  func() []codegen.ImportsOption
	pkg   func(string) string
	paths []string
	alias []string
	depth int
	std   bool
}

func lastElem(p string) string {
	parts := strings.Split(p, "/")
	b := parts[len(parts)-1]
	if len(parts) > 1 && len(b) > 1 && b[0] == 'v' {
		if _, err := strconv.Atoi(b[1:]); err == nil {
			b = parts[len(parts)-2]
		}
	}
	b = strings.TrimPrefix(b, "go-")
	for i, r := range b {
		if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == 'é' || r == '世') {
			return b[:i]
		}
	}
	return b
}

func main() {
	kit.Main(kit.Options{
		ID: "C01", Level: "model_checking", Procs: 8,
		Rule: "every history of Register / RegisterAliased over a small set of colliding import paths and aliases up to the depth bound, replayed on a fresh import set and on the sequential model, and again with every lookup before each step and the reverse history on a second set; a history is non-trivial when at least two of its operations involve the same path or name",
	}, run)
}

func run(c *kit.C) {
	std := func() []codegen.ImportsOption { return nil }
	configs := []config{
		{"default", std, lastElem,
			[]string{"xyz", "a/xyz", "b/xyz", "a/xyz2", "c/xyz/v2", "q/go-xyz"},
			[]string{"xyz", "xyz2", "_", "foo"}, c.Pick(4, 5), true},
		{"proto", std, lastElem,
			[]string{"a/my_go_proto", "b/my_go_proto", "x/mypb", "y/my2pb", "my_go_proto"},
			[]string{"mypb", "my_go_proto", "my2pb", "_"}, c.Pick(4, 5), true},
		{"custom", func() []codegen.ImportsOption {
			return []codegen.ImportsOption{codegen.UseAssumedPackageNameFunc(func(p string) string {
				if strings.HasPrefix(p, "g/") {
					return "grp_go_proto"
				}
				return "same"
			})}
		}, func(p string) string {
			if strings.HasPrefix(p, "g/") {
				return "grp_go_proto"
			}
			return "same"
		},
			[]string{"a", "b", "g/a", "g/b"}, []string{"same", "same2", "grppb", ""}, c.Pick(4, 5), false},
		{"many", std, lastElem,
			[]string{"a/z", "b/z", "c/z", "d/z", "e/z", "f/z"}, []string{"z2", "z4"}, c.Pick(4, 5), true},
		{"case", std, lastElem,
			[]string{"a/xyz", "b/Xyz", "a/XYZ", "xyz", "a"}, []string{"Xyz", "xYz", "XYZ2"}, c.Pick(3, 4), true},
		{"no identifiers", std, lastElem,
			[]string{"a/2d", "b/2d", "a/go-", "a/func", "b/pkg2d", "c/pkg", "a/2d_go_proto"}, []string{"pkg2d", "pkg"}, c.Pick(3, 4), true},
	}
	seen := map[string]bool{}
	for _, cfg := range configs {
		var ops []op
		for _, p := range cfg.paths {
			ops = append(ops, op{path: p})
		}
		np := len(cfg.paths)
		if cfg.name == "default" && np > 4 {
			np = 4
		}
		if cfg.name == "many" {
			np = 2
		}
		for _, p := range cfg.paths[:np] {
			for _, a := range cfg.alias {
				ops = append(ops, op{path: p, alias: a, aliased: true})
			}
		}
		for n := 1; n <= cfg.depth; n++ {
			done := kit.Seqs(len(ops), n, func(idx []int) bool {
				hist := make([]op, n)
				for i, k := range idx {
					hist[i] = ops[k]
				}
				c.CaseF(func() string { return cfg.name + ": " + fmt.Sprint(hist) }, func(t *kit.T) { replay(t, cfg, hist, seen) })
				if n < c.Pick(4, 5) {
					c.CaseF(func() string { return cfg.name + ", with lookups in between: " + fmt.Sprint(hist) }, func(t *kit.T) { replayAsking(t, cfg, hist, seen, true) })
				}
				return !c.Stop()
			})
			if !done {
				return
			}
		}
		c.Part("operations in alphabet "+cfg.name, int64(len(ops)))
	}
	// the name of every path, and of every two of them
	elems := []string{"a", "B", "xyz", "v", "v1", "v2", "v10", "v2a", "v2.1", "V2", "va", "2", "2d", "go-a", "go-go-a", "go-", "go-2", "a-go", "a-b", "a.b", "gopkg.v2", "a.v2", "a_b", "_", "_a", "é", "aé世b", "a~b", "-", ".a", "x+y", "func", "type", "a_go_proto", "_go_proto", "a-b_go_proto", "a_go_proto.v2", "1_go_proto", "proto", "go", "a1"}
	var paths []string
	for _, x := range elems {
		paths = append(paths, x)
		for _, y := range elems {
			paths = append(paths, x+"/"+y)
			for _, z := range []string{"v2", "v", "v10", "go-a", "a-b", "2"} {
				paths = append(paths, x+"/"+y+"/"+z)
			}
		}
	}
	paths = append(paths, "./a", "./xyz", "./go-a", "./a-b", "./func", "../a", "../../xyz", "a/./xyz", "a/../xyz", "a//xyz", "a.b/c/../xyz")
	for _, p := range paths {
		c.Case("path "+p, func(t *kit.T) {
			if got, want := codegen.GoToolsAssumedPackageName(p), lastElem(p); got != want {
				t.Failf("assumed name %q, want %q", got, want)
			}
			if got, want := codegen.NewImports().AssumedPackageName(p), lastElem(p); got != want {
				t.Failf("assumed name of the default set %q, want %q", got, want)
			}
			replay(t, config{pkg: lastElem, opts: std, std: true}, []op{{path: p}, {path: p}, {path: "other/" + p}, {path: p, alias: "al", aliased: true}, {path: p}}, seen)
			im := codegen.NewImports()
			if n := im.Register(p).PackageName(); !usable(n) || strings.ContainsAny(n, "-.~+/") {
				t.Failf("name %q is no identifier", n)
			}
		})
		if c.Stop() {
			return
		}
	}
	c.Part("paths of up to three elements", int64(len(paths)))
	// one long history: far more collisions than any alphabet above has
	for _, stem := range []string{"z", "z_go_proto"} {
		for _, n := range []int{9, 10, 11, 30, 120} {
			c.Case(fmt.Sprintf("long: %d paths ending in %s", n, stem), func(t *kit.T) {
				var hist []op
				for i := 0; i < n; i++ {
					hist = append(hist, op{path: fmt.Sprintf("p%d/%s", i, stem)})
				}
				replay(t, config{pkg: lastElem, opts: std, std: true}, hist, seen)
			})
			for every := 1; every <= 7; every += 2 {
				c.Case(fmt.Sprintf("long: %d paths ending in %s, every %dth after an alias", n, stem, every), func(t *kit.T) {
					var hist []op
					for i := 0; i < n; i++ {
						hist = append(hist, op{path: fmt.Sprintf("p%d/%s", i, stem)})
						if i%every == 0 {
							hist = append(hist, op{path: fmt.Sprintf("q%d", i), alias: fmt.Sprintf("z%d", i/every+2), aliased: true},
								op{path: fmt.Sprintf("q%d", i), alias: fmt.Sprintf("z%dpb", i+2), aliased: true}, op{path: fmt.Sprintf("p%d/%s", i/2, stem)})
						}
					}
					replayAsking(t, config{pkg: lastElem, opts: std, std: true}, hist, seen, every == 3)
				})
			}
		}
	}
	// very many names taken before: the first free one is far away
	for _, n := range []int{255, 256, 999, 1000, 1001, 4990} {
		for _, gap := range []int{0, 2, n / 2, n - 1} {
			for _, stem := range []string{"z", "z_go_proto"} {
				n, gap, stem := n, gap, stem
				c.CaseF(func() string { return fmt.Sprintf("%s after %d aliases without %d", stem, n, gap) }, func(t *kit.T) {
					form := "z%d"
					if stem != "z" {
						form = "z%dpb"
					}
					im := codegen.NewImports()
					for i := 2; i <= n; i++ {
						if i == gap {
							continue
						}
						if got, err := im.RegisterAliased(fmt.Sprint("q", i), fmt.Sprintf(form, i)); err != nil || same(got, def{fmt.Sprint("q", i), fmt.Sprintf(form, i), true}) != "" {
							t.Failf("alias %d: %v, %v", i, got, err)
							return
						}
					}
					free := n + 1
					if gap >= 2 {
						free = gap
					}
					want := []string{"z", fmt.Sprintf(form, free)}
					if stem != "z" {
						want[0] = "zpb"
					}
					for i, w := range want {
						p := fmt.Sprintf("p%d/%s", i, stem)
						d := def{p, w, stem != "z" || i > 0}
						for again := 0; again < 2; again++ {
							if s := same(im.Register(p), d); s != "" {
								t.Failf("path %d, time %d: %s", i, again, s)
							}
						}
						if s := same(im.FindByPackageName(w), d); s != "" {
							t.Failf("by name: %s", s)
						}
						if s := same(im.FindByImportPath(p), d); s != "" {
							t.Failf("by path: %s", s)
						}
					}
					t.Transitions(n + 2)
				})
			}
		}
		if c.Stop() {
			return
		}
	}
	c.Part("largest number of names taken", 4990)
}

// ask compares what all lookups say with the model.
func ask(t *kit.T, im *codegen.Imports, m *model, paths, names map[string]bool) {
	for p := range paths {
		got := im.FindByImportPath(p)
		d := m.byPath(p)
		if d == nil {
			if got != nil {
				t.Failf("FindByImportPath(%q) finds %q, nothing was registered", p, got.GoFragment())
			}
			continue
		}
		if s := same(got, *d); s != "" {
			// any import of that path will do
			ok := false
			for _, o := range m.defs {
				if o.path == p && same(got, o) == "" {
					ok = true
				}
			}
			if !ok {
				t.Failf("FindByImportPath(%q): %s", p, s)
			}
		}
	}
	for n := range names {
		got := im.FindByPackageName(n)
		d := m.byName(n)
		switch {
		case d == nil && got != nil:
			t.Failf("FindByPackageName(%q) finds %q, no such name was registered", n, got.GoFragment())
		case d != nil && got == nil:
			t.Failf("FindByPackageName(%q) finds nothing, want %+v", n, *d)
		case d != nil && n != "_":
			if s := same(got, *d); s != "" {
				t.Failf("FindByPackageName(%q): %s", n, s)
			}
		}
	}
}

func replay(t *kit.T, cfg config, hist []op, seen map[string]bool) {
	replayAsking(t, cfg, hist, seen, false)
}

// replayAsking runs the history; asking says if every lookup is made before each step, on this set and another one.
func replayAsking(t *kit.T, cfg config, hist []op, seen map[string]bool, asking bool) {
	var other *codegen.Imports
	if asking {
		other = codegen.NewImports(cfg.opts()...)
	}
	om := &model{pkg: cfg.pkg, std: cfg.std}
	im := codegen.NewImports(cfg.opts()...)
	m := &model{pkg: cfg.pkg, std: cfg.std}
	var handles []*codegen.Import
	var want []def
	paths, names := map[string]bool{}, map[string]bool{"nope": true}
	involved := map[string]int{}
	if asking {
		for _, o := range hist {
			paths[o.path], names[o.alias], names[cfg.pkg(o.path)] = true, true, true
		}
	}
	for i, o := range hist {
		last := i == len(hist)-1
		if asking {
			ask(t, im, m, paths, names)
			ask(t, other, om, paths, names)
			// The other set gets the same operations in the other order.
			if o := hist[len(hist)-1-i]; o.aliased {
				om.registerAliased(o.path, o.alias)
				other.RegisterAliased(o.path, o.alias)
			} else if s := same(other.Register(o.path), om.register(o.path)); s != "" {
				t.Failf("other set: %v: %s", o, s)
			}
		}
		paths[o.path] = true
		if o.aliased {
			names[o.alias] = true
			d, ok := m.registerAliased(o.path, o.alias)
			got, err := im.RegisterAliased(o.path, o.alias)
			if (err == nil) != ok {
				t.Failf("step %d %v: err=%v, want accepted=%v", i, o, err, ok)
				return
			}
			if ok {
				if s := same(got, d); s != "" {
					t.Failf("step %d %v: %s", i, o, s)
					return
				}
				handles, want = append(handles, got), append(want, d)
			}
		} else {
			d := m.register(o.path)
			got := im.Register(o.path)
			if s := same(got, d); s != "" {
				t.Failf("step %d %v: %s", i, o, s)
				return
			}
			handles, want = append(handles, got), append(want, d)
		}
		t.Transitions(1)
		involved[o.path]++
		if o.aliased {
			involved["n:"+o.alias]++
		} else {
			involved["n:"+cfg.pkg(o.path)]++
		}
		_ = last
	}
	// handles given out earlier still say the same
	for i, h := range handles {
		if s := same(h, want[i]); s != "" {
			t.Failf("import handed out by step %d changed: %s", i, s)
		}
		if s := fragment(h); s != "" {
			t.Failf("%s", s)
		}
	}
	for _, d := range m.defs {
		names[d.name] = true
	}
	owner := map[string]string{}
	ask(t, im, m, paths, names)
	for _, h := range handles {
		if h.PackageName() == "_" {
			continue
		}
		if p, ok := owner[h.PackageName()]; ok && p != h.Path() {
			t.Failf("name %q stands for %q and %q", h.PackageName(), p, h.Path())
		}
		owner[h.PackageName()] = h.Path()
	}
	key := fmt.Sprint(m.defs)
	if !seen[key] {
		seen[key] = true
		t.States(1)
	}
	t.Traces(1)
	trivial := true
	for _, n := range involved {
		if n > 1 {
			trivial = false
		}
	}
	if trivial {
		t.Trivial()
	}
	aliased := 0
	for _, d := range m.defs {
		if d.alias {
			aliased++
		}
	}
	t.Outcome(fmt.Sprintf("%d imports, %d with alias", len(m.defs), aliased))
}
