// C06: the coder of a type is chosen by the documented precedence, whatever was registered before (all histories).
package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/google/xtoproto/textcoder"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C06", Level: "model_checking", Procs: 8,
		Rule: "every history, up to the depth bound, of registrations (plain and context-taking coders, two generations, and refused ones with a wrong or missing function) for types of every class (basic, named basic with no / both / only one text method, struct with pointer or value methods, struct without) on an empty and on a basic-types registry; in each end state every type is looked up as encoder, decoder and coder and the result is identified by what it does, as are all lookups made at earlier steps. Non-trivial: the history registers something that another lookup depends on",
	}, run)
}

// Plain is a named basic type.
type Plain int

// Both has both text methods on a named basic type.
type Both int

// MarshalText implements encoding.TextMarshaler.
func (b Both) MarshalText() ([]byte, error) {
	if b == -13 {
		return []byte("partial"), errBad
	}
	return []byte("both"), nil
}

// UnmarshalText implements encoding.TextUnmarshaler.
func (b *Both) UnmarshalText(t []byte) error {
	if string(t) == "bad" {
		return errBad
	}
	*b = 7001
	return nil
}

// OnlyU only unmarshals.
type OnlyU int

// UnmarshalText implements encoding.TextUnmarshaler.
func (b *OnlyU) UnmarshalText(t []byte) error {
	if string(t) == "bad" {
		return errBad
	}
	*b = 7002
	return nil
}

// OnlyM only marshals.
type OnlyM int

// MarshalText implements encoding.TextMarshaler.
func (b OnlyM) MarshalText() ([]byte, error) {
	if b == -13 {
		return []byte("partial"), errBad
	}
	return []byte("onlym"), nil
}

// PtrStruct has both methods on the pointer.
type PtrStruct struct{ V int }

// MarshalText implements encoding.TextMarshaler.
func (b *PtrStruct) MarshalText() ([]byte, error) {
	if b.V == -13 {
		return []byte("partial"), errBad
	}
	return []byte("ptrstruct"), nil
}

// UnmarshalText implements encoding.TextUnmarshaler.
func (b *PtrStruct) UnmarshalText(t []byte) error { b.V = 7003; return nil }

// Bare has no coder of its own.
type Bare struct{ V int }

var errBad = errors.New("bad text")

type class struct {
	t    reflect.Type
	set  func(p interface{}, v int)
	get  func(p interface{}) int
	mk   func() interface{} // pointer
	text string             // "", "u", "m", "um"
	base string             // underlying basic type's name or ""
}

func intClass(proto interface{}, text, base string) class {
	t := reflect.TypeOf(proto)
	return class{t: t, text: text, base: base,
		mk:  func() interface{} { return reflect.New(t).Interface() },
		set: func(p interface{}, v int) { reflect.ValueOf(p).Elem().SetInt(int64(v)) },
		get: func(p interface{}) int { return int(reflect.ValueOf(p).Elem().Int()) },
	}
}

func structClass(proto interface{}, text string) class {
	t := reflect.TypeOf(proto)
	return class{t: t, text: text,
		mk:  func() interface{} { return reflect.New(t).Interface() },
		set: func(p interface{}, v int) { reflect.ValueOf(p).Elem().Field(0).SetInt(int64(v)) },
		get: func(p interface{}) int { return int(reflect.ValueOf(p).Elem().Field(0).Int()) },
	}
}

var classes = map[string]class{
	"int": intClass(int(0), "", "int"), "Plain": intClass(Plain(0), "", "int"), "Both": intClass(Both(0), "um", "int"),
	"OnlyU": intClass(OnlyU(0), "u", "int"), "OnlyM": intClass(OnlyM(0), "m", "int"),
	"PtrStruct": structClass(PtrStruct{}, "um"), "Bare": structClass(Bare{}, ""),
	"int64": intClass(int64(0), "", "int64"),
}

var order = []string{"int", "Plain", "Both", "OnlyU", "OnlyM", "PtrStruct", "Bare"}

type ctxKey struct{}

// coderFor makes an encoder and decoder pair whose results carry its generation.
func coderFor(name string, gen int, withCtx bool) (enc, dec interface{}) {
	c := classes[name]
	strT, errT, ctxT := reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(&textcoder.Context{})
	nilErr := reflect.Zero(errT)
	ein, din := []reflect.Type{c.t}, []reflect.Type{strT, reflect.PtrTo(c.t)}
	if withCtx {
		ein, din = append([]reflect.Type{ctxT}, ein...), append([]reflect.Type{ctxT}, din...)
	}
	tag := func(args []reflect.Value) string {
		s := fmt.Sprintf("reg%d", gen)
		if withCtx {
			v, _ := args[0].Interface().(*textcoder.Context).Value(ctxKey{})
			s += fmt.Sprintf("ctx(%v)", v)
		}
		return s
	}
	enc = reflect.MakeFunc(reflect.FuncOf(ein, []reflect.Type{strT, errT}, false), func(args []reflect.Value) []reflect.Value {
		v := args[len(args)-1]
		p := reflect.New(c.t)
		p.Elem().Set(v)
		if c.get(p.Interface()) == -13 {
			return []reflect.Value{reflect.ValueOf("partial"), reflect.ValueOf(&errBad).Elem()}
		}
		return []reflect.Value{reflect.ValueOf(tag(args)), nilErr}
	}).Interface()
	dec = reflect.MakeFunc(reflect.FuncOf(din, []reflect.Type{errT}, false), func(args []reflect.Value) []reflect.Value {
		text := args[len(args)-2].Interface().(string)
		if text == "bad" {
			return []reflect.Value{reflect.ValueOf(&errBad).Elem()}
		}
		n := 1000 * gen
		if withCtx {
			n += 500
			if v, _ := args[0].Interface().(*textcoder.Context).Value(ctxKey{}); v == "here" {
				n += 50
			}
		}
		c.set(args[len(args)-1].Interface(), n)
		return []reflect.Value{nilErr}
	}).Interface()
	return enc, dec
}

type entry struct {
	gen int // 0: built-in
	ctx bool
}

// source says what a lookup resolves to: "reg:<type>" follows the registration of that type, "text", or "".
func source(m map[string]entry, name, what string) string {
	c := classes[name]
	if _, ok := m[name]; ok {
		return "reg:" + name
	}
	if what == "dec" && strings.Contains(c.text, "u") || what == "enc" && strings.Contains(c.text, "m") || what == "coder" && c.text == "um" {
		return "text"
	}
	if c.base != "" {
		if _, ok := m[c.base]; ok {
			return "reg:" + c.base
		}
	}
	return ""
}

type op struct {
	name string
	gen  int
	ctx  bool
	bad  string
}

func (o op) String() string {
	if o.bad != "" {
		return fmt.Sprintf("refused(%s,%s)", o.name, o.bad)
	}
	s := fmt.Sprintf("reg%d(%s)", o.gen, o.name)
	if o.ctx {
		s += "ctx"
	}
	return s
}

func (o op) apply(r *textcoder.Registry) error {
	c := classes[o.name]
	enc, dec := coderFor(o.name, o.gen, o.ctx)
	other := "int64"
	oe, od := coderFor(other, 9, false)
	switch o.bad {
	case "":
	case "nil enc":
		enc = nil
	case "nil dec":
		dec = nil
	case "enc of other type":
		enc = oe
	case "dec of other type":
		dec = od
	case "swapped":
		enc, dec = dec, enc
	case "not a func":
		dec = 5
	case "dec by value":
		dec = func(string) (int, error) { return 0, nil }
	case "no error":
		enc = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{c.t}, []reflect.Type{reflect.TypeOf("")}, false), func([]reflect.Value) []reflect.Value { return []reflect.Value{reflect.ValueOf("x")} }).Interface()
	}
	return r.Register(c.t, enc, dec)
}

type handle struct {
	at          int
	name        string
	enc         textcoder.Encoder
	dec         textcoder.Decoder
	cod         textcoder.Coder
	se, sd, sco string
}

func lookup(r *textcoder.Registry, m map[string]entry, at int, name string) handle {
	t := classes[name].t
	return handle{at, name, r.GetEncoder(t), r.GetDecoder(t), r.GetCoder(t), source(m, name, "enc"), source(m, name, "dec"), source(m, name, "coder")}
}

func isNil(v interface{}) bool {
	return v == nil || reflect.ValueOf(v).Kind() == reflect.Ptr && reflect.ValueOf(v).IsNil()
}

var seen = map[string]bool{}

func run(c *kit.C) {
	contexts(c)
	many(c)
	var ops []op
	for _, n := range order {
		ops = append(ops, op{n, 1, false, ""}, op{n, 2, true, ""})
	}
	for _, b := range []string{"nil enc", "nil dec", "enc of other type", "dec of other type", "swapped", "not a func", "dec by value", "no error"} {
		ops = append(ops, op{"Plain", 3, false, b})
	}
	ops = append(ops, op{"int", 3, false, "dec of other type"}, op{"Both", 3, true, "nil dec"}, op{"Bare", 3, false, "enc of other type"})
	depth := c.Pick(4, 5)
	for _, basic := range []bool{false, true} {
		for n := 0; n <= depth; n++ {
			ok := kit.Seqs(len(ops), n, func(idx []int) bool {
				c.CaseF(func() string {
					var s []string
					for _, k := range idx {
						s = append(s, ops[k].String())
					}
					return fmt.Sprintf("basic=%v %v", basic, s)
				}, func(t *kit.T) { one(t, basic, idx, ops) })
				return !c.Stop()
			})
			if !ok {
				return
			}
		}
	}
}

// Ext is registered in the default registry with coders that look at the context.
type Ext struct{ S string }

// Lost is never registered.
type Lost struct{ S string }

func contexts(c *kit.C) {
	textcoder.MustRegister(reflect.TypeOf(Ext{}),
		func(ctx *textcoder.Context, e Ext) (string, error) {
			if e.S == "bad" {
				return "partial", errBad
			}
			v, ok := ctx.Value(ctxKey{})
			return fmt.Sprintf("%s/%v/%v", e.S, v, ok), nil
		},
		func(ctx *textcoder.Context, s string, e *Ext) error {
			if s == "bad" {
				return errBad
			}
			v, ok := ctx.Value(ctxKey{})
			e.S = fmt.Sprintf("%s/%v/%v", s, v, ok)
			return nil
		})
	// every history of WithValue on a growing set of contexts; a context never changes once made
	keys := []interface{}{ctxKey{}, "registry", 3}
	// another registry, which knows the types too and must not be asked by the package's functions
	foreign := textcoder.NewRegistry()
	if err := foreign.Register(reflect.TypeOf(Ext{}), func(Ext) (string, error) { return "foreign", nil }, func(s string, e *Ext) error { e.S = "foreign"; return nil }); err != nil {
		panic(err)
	}
	if err := foreign.Register(reflect.TypeOf(Lost{}), func(Lost) (string, error) { return "foreign", nil }, func(s string, e *Lost) error { e.S = "foreign"; return nil }); err != nil {
		panic(err)
	}
	for vals := 0; vals < 2; vals++ {
		contextHistories(c, vals == 1, keys, foreign)
	}
	refusals(c)
}

// refusals registers pairs that have to be refused in the default registry, by both of its functions.
func refusals(c *kit.C) {
	enc, dec := func(Ext) (string, error) { return "wrong", nil }, func(s string, e *Ext) error { e.S = "wrong"; return nil }
	lenc, ldec := func(Lost) (string, error) { return "wrong", nil }, func(s string, e *Lost) error { e.S = "wrong"; return nil }
	pairs := []struct {
		name     string
		typ      interface{}
		enc, dec interface{}
	}{
		{"no encoder", Ext{}, nil, dec}, {"no decoder", Ext{}, enc, nil}, {"encoder of another type", Ext{}, lenc, dec},
		{"decoder of another type", Ext{}, enc, ldec}, {"swapped", Ext{}, dec, enc}, {"text as encoder", Ext{}, "x", dec}, {"text as decoder", Ext{}, enc, 3},
		{"no encoder for Lost", Lost{}, nil, ldec}, {"no decoder for Lost", Lost{}, lenc, nil}, {"other coders for Lost", Lost{}, enc, dec},
		{"decoder for Lost by value", Lost{}, lenc, func(s string, e Lost) error { return nil }}, {"encoder for Lost without error", Lost{}, func(Lost) string { return "" }, ldec},
	}
	for _, x := range pairs {
		x := x
		for how := 0; how < 2; how++ {
			how := how
			c.Case(fmt.Sprintf("refused by the default registry: %s, panics: %v", x.name, how == 1), func(t *kit.T) {
				t.Transitions(1)
				t.Outcome("refused")
				if how == 0 {
					if err := textcoder.Register(reflect.TypeOf(x.typ), x.enc, x.dec); err == nil {
						t.Failf("Register accepts it")
					}
				} else {
					func() {
						defer func() {
							if recover() == nil {
								t.Failf("MustRegister does not panic")
							}
						}()
						textcoder.MustRegister(reflect.TypeOf(x.typ), x.enc, x.dec)
					}()
				}
				if got, err := textcoder.Marshal(Ext{"a"}); err != nil || got != "a/<nil>/false" {
					t.Failf("Ext is then written as %q, %v", got, err)
				}
				var e Ext
				if err := textcoder.Unmarshal("b", &e); err != nil || e.S != "b/<nil>/false" {
					t.Failf("Ext is then read as %q, %v", e.S, err)
				}
				if got, err := textcoder.Marshal(Lost{"a"}); err == nil {
					t.Failf("Lost is then written as %q", got)
				}
				var l Lost
				if err := textcoder.Unmarshal("b", &l); err == nil || l.S == "wrong" {
					t.Failf("Lost is then read as %q, %v", l.S, err)
				}
			})
		}
	}
	c.Part("refusals of the default registry", int64(2*len(pairs)))
}

func contextHistories(c *kit.C, nils bool, keys []interface{}, foreign *textcoder.Registry) {
	type cm struct {
		ctx *textcoder.Context
		m   map[interface{}]interface{}
	}
	value := func(i int) interface{} {
		if nils && i != 1 {
			return nil
		}
		return i + 100
	}
	for n := 0; n <= c.Pick(3, 4); n++ {
		kit.Seqs(n+1, n, func(parents []int) bool {
			for i, p := range parents {
				if p > i {
					return true // no such context yet
				}
			}
			par := append([]int(nil), parents...)
			return kit.Seqs(len(keys), n, func(ks []int) bool {
				for _, root := range []*textcoder.Registry{textcoder.DefaultRegistry(), foreign} {
					c.Case(fmt.Sprintf("contexts parents=%v keys=%v foreign=%v nil values=%v", par, ks, root == foreign, nils), func(t *kit.T) {
						cs := []cm{{root.NewContext(), map[interface{}]interface{}{}}}
						for i := range par {
							m := map[interface{}]interface{}{}
							for k, v := range cs[par[i]].m {
								m[k] = v
							}
							m[keys[ks[i]]] = value(i)
							cs = append(cs, cm{cs[par[i]].ctx.WithValue(keys[ks[i]], value(i)), m})
						}
						for i, x := range cs {
							for _, k := range keys {
								v, ok := x.ctx.Value(k)
								w, wok := x.m[k]
								if ok != wok || v != w {
									t.Failf("context %d, key %v: got %v %v, want %v %v", i, k, v, ok, w, wok)
								}
							}
							if x.ctx.Registry() != root {
								t.Failf("context %d lost its registry", i)
							}
							w, wok := x.m[ctxKey{}]
							want := fmt.Sprintf("in/%v/%v", w, wok)
							e := Ext{}
							if err := textcoder.UnmarshalContext(x.ctx, "in", &e); err != nil || e.S != want {
								t.Failf("UnmarshalContext: %q %v, want %q", e.S, err, want)
							}
							if s, err := textcoder.MarshalContext(x.ctx, Ext{"in"}); err != nil || s != want {
								t.Failf("MarshalContext: %q %v, want %q", s, err, want)
							}
							if err := textcoder.UnmarshalContext(x.ctx, "bad", &e); !errors.Is(err, errBad) {
								t.Failf("UnmarshalContext: the coder's error is lost: %v", err)
							}
							if _, err := textcoder.MarshalContext(x.ctx, Ext{"bad"}); !errors.Is(err, errBad) {
								t.Failf("MarshalContext: the coder's error is lost: %v", err)
							}
							if err := textcoder.UnmarshalContext(x.ctx, "in", &Lost{}); err == nil {
								t.Failf("UnmarshalContext of a type that only the context's registry knows succeeds")
							}
							if _, err := textcoder.MarshalContext(x.ctx, Lost{}); err == nil {
								t.Failf("MarshalContext of a type that only the context's registry knows succeeds")
							}
							t.Transitions(1)
						}
						e := Ext{}
						if err := textcoder.Unmarshal("in", &e); err != nil || e.S != "in/<nil>/false" {
							t.Failf("Unmarshal: %q %v", e.S, err)
						}
						if s, err := textcoder.Marshal(Ext{"in"}); err != nil || s != "in/<nil>/false" {
							t.Failf("Marshal: %q %v", s, err)
						}
						if err := textcoder.Unmarshal("bad", &e); !errors.Is(err, errBad) {
							t.Failf("Unmarshal: the coder's error is lost: %v", err)
						}
						if _, err := textcoder.Marshal(Ext{"bad"}); !errors.Is(err, errBad) {
							t.Failf("Marshal: the coder's error is lost: %v", err)
						}
						if err := textcoder.Unmarshal("in", &Lost{}); err == nil {
							t.Failf("Unmarshal of an unregistered type succeeds")
						}
						if err := textcoder.Unmarshal("in", Ext{}); err == nil {
							t.Failf("Unmarshal into a non-pointer succeeds")
						}
						if _, err := textcoder.Marshal(Lost{}); err == nil {
							t.Failf("Marshal of an unregistered type succeeds")
						}
						t.Traces(1)
						t.Outcome("contexts")
					})
				}
				return !c.Stop()
			})
		})
	}
}

// many registers many types in two registries, some again, with lookups in between, and makes long chains of contexts.
func many(c *kit.C) {
	n := int64(0)
	sizes := []int{8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
	if c.Thorough() {
		sizes = append(sizes, 511, 512, 513, 1000, 1023, 1024, 1025)
	}
	strT, errT := reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem()
	type handles struct {
		t   int
		reg int
		enc textcoder.Encoder
		dec textcoder.Decoder
		cod textcoder.Coder
	}
	for _, k := range sizes {
		for again := 1; again <= 4; again++ {
			k, again := k, again
			n++
			c.CaseF(func() string { return fmt.Sprintf("%d types, every %dth again", k, again) }, func(t *kit.T) {
				regs := []*textcoder.Registry{textcoder.NewRegistry(), textcoder.NewRegistry()}
				model := []map[int]int{{}, {}}
				typ := func(i int) reflect.Type { return reflect.ArrayOf(i+1, reflect.TypeOf(int32(0))) }
				gen := 0
				register := func(reg, i int) {
					gen++
					g := gen
					T := typ(i)
					enc := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{T}, []reflect.Type{strT, errT}, false), func([]reflect.Value) []reflect.Value {
						return []reflect.Value{reflect.ValueOf(fmt.Sprint(g)), reflect.Zero(errT)}
					}).Interface()
					dec := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{strT, reflect.PtrTo(T)}, []reflect.Type{errT}, false), func(args []reflect.Value) []reflect.Value {
						args[1].Elem().Index(0).SetInt(int64(g))
						return []reflect.Value{reflect.Zero(errT)}
					}).Interface()
					if err := regs[reg].Register(T, enc, dec); err != nil {
						t.Failf("type %d: %v", i, err)
					}
					model[reg][i] = g
				}
				check := func(h handles, when string) {
					g, ok := model[h.reg][h.t]
					if !ok {
						if !isNil(h.enc) || !isNil(h.dec) || !isNil(h.cod) {
							t.Failf("registry %d has a coder for type %d %s, which was not registered", h.reg, h.t, when)
						}
						return
					}
					if isNil(h.enc) || isNil(h.dec) || isNil(h.cod) {
						t.Failf("registry %d has no coder for type %d %s", h.reg, h.t, when)
						return
					}
					ctx := regs[h.reg].NewContext()
					for _, e := range []textcoder.Encoder{h.enc, h.cod} {
						if s, err := e.EncodeText(ctx, reflect.Zero(typ(h.t)).Interface()); err != nil || s != fmt.Sprint(g) {
							t.Failf("registry %d, type %d %s: %q %v, want %d", h.reg, h.t, when, s, err, g)
						}
					}
					for _, d := range []textcoder.Decoder{h.dec, h.cod} {
						v := reflect.New(typ(h.t))
						if err := d.DecodeText(ctx, "", v.Interface()); err != nil || v.Elem().Index(0).Int() != int64(g) {
							t.Failf("registry %d, type %d %s: %d %v, want %d", h.reg, h.t, when, v.Elem().Index(0).Int(), err, g)
						}
					}
					t.Transitions(4)
				}
				look := func(reg, i int) handles {
					T := typ(i)
					return handles{i, reg, regs[reg].GetEncoder(T), regs[reg].GetDecoder(T), regs[reg].GetCoder(T)}
				}
				var hs []handles
				for i := 0; i < k; i++ {
					register(0, i)
					if i%2 == 1 {
						register(1, i)
					}
					if i%again == 0 {
						register(0, i/2)
					}
					for _, j := range []int{i, i / 2, i + 1} {
						for reg := range regs {
							h := look(reg, j)
							check(h, "at once")
							if _, ok := model[reg][j]; ok {
								hs = append(hs, h)
							}
						}
					}
				}
				for _, h := range hs {
					check(h, "in the end")
				}
				for i := 0; i <= k; i++ {
					check(look(0, i), "looked up in the end")
					check(look(1, i), "looked up in the end")
				}
				t.Outcome("many types")
			})
		}
		for _, distinct := range []int{1, 2, 7, k} {
			k, distinct := k, distinct
			n++
			c.CaseF(func() string { return fmt.Sprintf("%d contexts in a chain with %d keys", k, distinct) }, func(t *kit.T) {
				ctx := textcoder.NewRegistry().NewContext()
				type at struct {
					ctx *textcoder.Context
					n   int
				}
				chain := []at{{ctx, 0}}
				for i := 0; i < k; i++ {
					chain = append(chain, at{chain[i].ctx.WithValue(i%distinct, i), i + 1})
				}
				for j := len(chain) - 1; j >= 0; j-- {
					for key := 0; key < distinct; key++ {
						want, ok := interface{}(nil), false
						for i := chain[j].n - 1; i >= 0; i-- {
							if i%distinct == key {
								want, ok = i, true
								break
							}
						}
						if v, is := chain[j].ctx.Value(key); v != want || is != ok {
							t.Failf("context %d, key %d: %v %v, want %v %v", j, key, v, is, want, ok)
							return
						}
					}
				}
				t.Outcome("chain")
			})
		}
		if c.Stop() {
			return
		}
	}
	c.Part("many types and contexts", n)
}

func one(t *kit.T, basic bool, idx []int, ops []op) {
	r := textcoder.NewRegistry()
	m := map[string]entry{}
	if basic {
		if err := textcoder.RegisterBasicTypes(r); err != nil {
			t.Failf("RegisterBasicTypes: %v", err)
			return
		}
		m["int"] = entry{}
	}
	var hs []handle
	for i, k := range idx {
		// look up before the step too: these handles must keep following the registry
		for _, n := range order {
			if i < 2 || n == ops[k].name {
				hs = append(hs, lookup(r, m, i, n))
			}
		}
		err := ops[k].apply(r)
		if (err == nil) != (ops[k].bad == "") {
			t.Failf("step %d %v: err=%v", i, ops[k], err)
			return
		}
		if ops[k].bad == "" {
			m[ops[k].name] = entry{ops[k].gen, ops[k].ctx}
		}
		t.Transitions(1)
	}
	for _, n := range order {
		hs = append(hs, lookup(r, m, len(idx), n))
	}
	key := fmt.Sprint(m)
	if !seen[key] {
		seen[key] = true
		t.States(1)
	}
	t.Traces(1)
	ctx := r.NewContext().WithValue(ctxKey{}, "here")
	if ctx.Registry() != r {
		t.Failf("context of the registry names another registry")
	}
	for _, h := range hs {
		what := fmt.Sprintf("%s looked up at step %d", h.name, h.at)
		c := classes[h.name]
		checkDec(t, m, c, what+" as decoder", h.dec, h.sd, ctx)
		checkEnc(t, m, c, what+" as encoder", h.enc, h.se, ctx)
		if (h.sco == "") != isNil(h.cod) {
			t.Failf("%s as coder: got nil=%v, want nil=%v", what, isNil(h.cod), h.sco == "")
			continue
		}
		if h.sco != "" {
			checkDec(t, m, c, what+" as coder", h.cod, h.sco, ctx)
			checkEnc(t, m, c, what+" as coder", h.cod, h.sco, ctx)
		}
	}
	if len(idx) < 2 {
		t.Trivial()
	}
	t.Outcome(fmt.Sprintf("basic=%v, %d types registered", basic, len(m)))
}

func checkDec(t *kit.T, m map[string]entry, c class, what string, d textcoder.Decoder, src string, ctx *textcoder.Context) {
	if (src == "") != isNil(d) {
		t.Failf("%s: nil=%v, want nil=%v", what, isNil(d), src == "")
		return
	}
	if src == "" {
		return
	}
	p := c.mk()
	err := d.DecodeText(ctx, "43", p)
	if err != nil {
		t.Failf("%s: decode: %v", what, err)
		return
	}
	want := 0
	if src == "text" {
		want = map[string]int{"Both": 7001, "OnlyU": 7002, "PtrStruct": 7003}[c.t.Name()]
	} else {
		e := m[src[4:]]
		switch {
		case e.gen == 0:
			want = 43
		case e.ctx:
			want = 1000*e.gen + 550
		default:
			want = 1000 * e.gen
		}
	}
	if got := c.get(p); got != want {
		t.Failf("%s: decoded %d, want %d (from %s)", what, got, want, src)
	}
	if src == "text" || m[src[4:]].gen != 0 {
		p := c.mk()
		if err := d.DecodeText(ctx, "", p); err != nil || c.get(p) != want {
			t.Failf("%s: decoded the empty text to %d %v, want %d (from %s)", what, c.get(p), err, want, src)
		}
	}
	if c.t.Name() != "PtrStruct" || src != "text" {
		if err := d.DecodeText(ctx, "bad", c.mk()); err == nil {
			t.Failf("%s: the decoder's error is lost", what)
		} else if (src == "text" || m[src[4:]].gen != 0) && !errors.Is(err, errBad) {
			t.Failf("%s: error %v is not the decoder's", what, err)
		}
	}
}

func checkEnc(t *kit.T, m map[string]entry, c class, what string, e textcoder.Encoder, src string, ctx *textcoder.Context) {
	if (src == "") != isNil(e) {
		t.Failf("%s: nil=%v, want nil=%v", what, isNil(e), src == "")
		return
	}
	if src == "" {
		return
	}
	p := c.mk()
	c.set(p, 43)
	got, err := e.EncodeText(ctx, reflect.ValueOf(p).Elem().Interface())
	if err != nil {
		t.Failf("%s: encode: %v", what, err)
		return
	}
	want := ""
	if src == "text" {
		want = strings.ToLower(c.t.Name())
	} else {
		en := m[src[4:]]
		switch {
		case en.gen == 0:
			want = "43"
		case en.ctx:
			want = fmt.Sprintf("reg%dctx(here)", en.gen)
		default:
			want = fmt.Sprintf("reg%d", en.gen)
		}
	}
	if src == "text" || m[src[4:]].gen != 0 {
		c.set(p, -13)
		if _, err := e.EncodeText(ctx, reflect.ValueOf(p).Elem().Interface()); !errors.Is(err, errBad) {
			t.Failf("%s: the encoder's error is lost: %v", what, err)
		}
	}
	if got != want {
		t.Failf("%s: encoded %q, want %q (from %s)", what, got, want, src)
	}
}
