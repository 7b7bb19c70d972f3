// C28: copying records delivers every record, finishes exactly once and hides no error.
package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/google/xtoproto/protocp"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"verif/mc/kit"
)

func main() {
	kit.Main(kit.Options{
		ID: "C28", Level: "model_checking",
		Rule:  "every way in which a copy can go: a number of records, a reader that cannot be made or fails at any record, every tree of up to three writers and groups of writers, each failing or not at any record and at its end, a file that cannot be opened, fails to be read after any number of bytes or fails to be closed, errors that mean something elsewhere, hundreds of records and writers, copies called off; every call the code makes is recorded and compared with the calls a reference makes, and so is the error. Non-trivial: at least one record is written",
		Procs: 8,
	}, run)
}

// A writer is a leaf with a place to fail, or a group of writers.
type writer struct {
	leaf    bool
	addFail int // the record at which adding fails; 0 is never
	finFail bool
	kids    []*writer
}

func (w *writer) String() string {
	if w.leaf {
		s := "w"
		if w.addFail > 0 {
			s += fmt.Sprintf("!%d", w.addFail)
		}
		if w.finFail {
			s += "!end"
		}
		return s
	}
	var ks []string
	for _, k := range w.kids {
		ks = append(ks, k.String())
	}
	return "(" + strings.Join(ks, " ") + ")"
}

type failure struct{ what string }

func (f *failure) Error() string { return f.what }

type world struct {
	log  []string
	errs map[string]error
	ctx  context.Context
	bad  []string
}

func (w *world) add(format string, args ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *world) fail(format string, args ...interface{}) error {
	s := fmt.Sprintf(format, args...)
	if w.errs[s] == nil {
		w.errs[s] = &failure{s}
	}
	return w.errs[s]
}

func (w *world) check(ctx context.Context) {
	if ctx.Value(key{}) != 1 {
		w.bad = append(w.bad, "another context was passed on")
	}
}

var rows []*wrapperspb.StringValue

func init() {
	for i := 0; i < 8; i++ {
		rows = append(rows, wrapperspb.String(fmt.Sprint(i+1)))
	}
}

func (x *world) real(w *writer, path string) protocp.MessageWriter {
	if w.leaf {
		n := 0
		return protocp.VerifWriter(func(ctx context.Context, m proto.Message) error {
			x.check(ctx)
			n++
			x.add("%s add %s", path, m.(*wrapperspb.StringValue).Value)
			if n == w.addFail {
				return x.fail("%s add", path)
			}
			return nil
		}, func(ctx context.Context) error {
			x.check(ctx)
			x.add("%s finalize", path)
			if w.finFail {
				return x.fail("%s finalize", path)
			}
			return nil
		})
	}
	var ks []protocp.MessageWriter
	for i, k := range w.kids {
		ks = append(ks, x.real(k, fmt.Sprintf("%s.%d", path, i)))
	}
	return protocp.NewCompositeRecordWriter(ks...)
}

// refAdd and refFin do what the writer should.
func (x *world) refAdd(w *writer, path string, i int) error {
	if w.leaf {
		x.add("%s add %d", path, i)
		if i == w.addFail {
			return x.fail("%s add", path)
		}
		return nil
	}
	for k, kid := range w.kids {
		if err := x.refAdd(kid, fmt.Sprintf("%s.%d", path, k), i); err != nil {
			return err
		}
	}
	return nil
}

func (x *world) refFin(w *writer, path string) (first error) {
	if w.leaf {
		x.add("%s finalize", path)
		if w.finFail {
			return x.fail("%s finalize", path)
		}
		return nil
	}
	for k, kid := range w.kids {
		if err := x.refFin(kid, fmt.Sprintf("%s.%d", path, k)); err != nil && first == nil {
			first = err
		}
	}
	return first
}

// A source is what is read: how many records, and what goes wrong.
type source struct {
	rows     int
	noReader bool
	failAt   int // the record that cannot be read; 0 is none
}

func (x *world) reader(s source) func(io.Reader) (protocp.MessageReader, error) {
	return func(io.Reader) (protocp.MessageReader, error) {
		x.add("new reader")
		if s.noReader {
			return nil, x.fail("new reader")
		}
		i, over := 0, false
		return readerFunc(func() (proto.Message, error) {
			if over {
				x.bad = append(x.bad, "read on after the end")
			}
			i++
			x.add("read")
			if i == s.failAt {
				over = true
				return nil, x.fail("read %d", i)
			}
			if i > s.rows {
				over = true
				return nil, io.EOF
			}
			return rows[i-1], nil
		}), nil
	}
}

type readerFunc func() (proto.Message, error)

func (f readerFunc) ReadMessage() (proto.Message, error) { return f() }

// refCopy does what Copy should; row is the number the error should name.
func (x *world) refCopy(s source, w *writer) (err error, row int) {
	x.add("new reader")
	if s.noReader {
		return x.fail("new reader"), 0
	}
	for i := 1; ; i++ {
		x.add("read")
		if i == s.failAt {
			return x.fail("read %d", i), 0
		}
		if i > s.rows {
			return x.refFin(w, "w"), 0
		}
		if err := x.refAdd(w, "w", i); err != nil {
			return err, i
		}
	}
}

type key struct{}

func newWorld() *world {
	return &world{errs: map[string]error{}, ctx: context.WithValue(context.Background(), key{}, 1)}
}

var number = regexp.MustCompile(`\b\d+\b`)

func compare(t *kit.T, x, ref *world, err, want error, row int) {
	if a, b := strings.Join(x.log, ", "), strings.Join(ref.log, ", "); a != b {
		t.Failf("the calls are\n%s\ninstead of\n%s", a, b)
	}
	for _, b := range x.bad {
		t.Failf("%s", b)
	}
	switch {
	case want == nil && err != nil:
		t.Failf("error %q, but all went well", err)
	case want != nil && err == nil:
		t.Failf("no error, but: %s", want)
	case want != nil:
		if !errors.Is(err, x.errs[want.Error()]) {
			t.Failf("error %q instead of %q", err, want)
		}
		rest := strings.Replace(err.Error(), want.Error(), "", 1)
		if row > 0 && strings.Join(number.FindAllString(rest, -1), " ") != strconv.Itoa(row) {
			t.Failf("error %q does not name row %d", err, row)
		}
	}
	t.Transitions(len(x.log))
	if !strings.Contains(strings.Join(ref.log, ","), " add ") {
		t.Trivial()
	}
	t.Outcome(fmt.Sprint(want, row))
}

// file is a file whose reading fails after some bytes, in pieces of a size.
type file struct {
	x         *world
	data      []byte
	size      int
	fail      error
	close     error
	closed    int
	nothing   bool // give nothing and no error before every piece
	alternate bool
	withLast  bool // give the error along with the last bytes
}

func (f *file) Read(p []byte) (int, error) {
	if f.closed > 0 {
		f.x.bad = append(f.x.bad, "read after close")
	}
	if f.nothing {
		if f.alternate = !f.alternate; f.alternate {
			return 0, nil
		}
	}
	if len(f.data) == 0 {
		return 0, f.fail
	}
	n := f.size
	if n > len(f.data) {
		n = len(f.data)
	}
	n = copy(p, f.data[:n])
	f.data = f.data[n:]
	if len(f.data) == 0 && f.withLast {
		return n, f.fail
	}
	return n, nil
}

func (f *file) Close() error {
	f.closed++
	f.x.add("close")
	return f.close
}

type fsFunc func(ctx context.Context, name string) (io.ReadCloser, error)

func (f fsFunc) OpenRead(ctx context.Context, name string) (io.ReadCloser, error) {
	return f(ctx, name)
}

func run(c *kit.C) {
	n := int64(0)
	leaves := func(maxRow int) (out []*writer) {
		for a := 0; a <= maxRow; a++ {
			out = append(out, &writer{leaf: true, addFail: a}, &writer{leaf: true, addFail: a, finFail: true})
		}
		return
	}
	// every tree with up to max leaves, two levels of groups deep
	trees := func(maxRow, max int) (out []*writer) {
		ls := leaves(maxRow)
		out = append(out, ls...)
		out = append(out, &writer{}, &writer{kids: []*writer{{}}})
		for k := 1; k <= max; k++ {
			kit.Seqs(len(ls), k, func(idx []int) bool {
				w := &writer{}
				for _, i := range idx {
					w.kids = append(w.kids, ls[i])
				}
				out = append(out, w)
				for from := 0; from < k; from++ {
					for to := from; to <= k; to++ {
						g := &writer{}
						g.kids = append(append(append(g.kids, w.kids[:from]...), &writer{kids: w.kids[from:to]}), w.kids[to:]...)
						out = append(out, g)
					}
				}
				return true
			})
		}
		return
	}
	var sources []source
	for r := 0; r <= c.Pick(5, 6); r++ {
		sources = append(sources, source{rows: r}, source{rows: r, noReader: true})
		for f := 1; f <= r+1; f++ {
			sources = append(sources, source{rows: r, failAt: f})
		}
	}
	for _, w := range trees(c.Pick(5, 6), c.Pick(3, 3)) {
		for _, s := range sources {
			n++
			c.CaseF(func() string { return fmt.Sprintf("copy %+v to %s", s, w) }, func(t *kit.T) {
				x, ref := newWorld(), newWorld()
				in := strings.NewReader("")
				err := protocp.NewCopier(x.reader(s)).Copy(x.ctx, in, x.real(w, "w"))
				want, row := ref.refCopy(s, w)
				compare(t, x, ref, err, want, row)
			})
		}
		if c.Stop() {
			break
		}
	}
	c.Part("copies", n)

	// the same writer in a group more than once is a writer each time
	n = 0
	for k := 1; k <= 4; k++ {
		kit.Seqs(3, k, func(idx []int) bool {
			for _, s := range sources {
				n++
				c.CaseF(func() string { return fmt.Sprintf("copy %+v to writers %v of which some are the same", s, idx) }, func(t *kit.T) {
					x, ref := newWorld(), newWorld()
					base := []protocp.MessageWriter{x.real(&writer{leaf: true}, "p"), x.real(&writer{leaf: true}, "q"), x.real(&writer{kids: []*writer{{leaf: true}, {leaf: true}}}, "g")}
					names := []string{"p", "q", "g"}
					var ws []protocp.MessageWriter
					for _, i := range idx {
						ws = append(ws, base[i])
					}
					err := protocp.NewCopier(x.reader(s)).Copy(x.ctx, strings.NewReader(""), protocp.NewCompositeRecordWriter(ws...))
					each := func(what string) {
						for _, i := range idx {
							if i == 2 {
								ref.add("g.0 %s", what)
								ref.add("g.1 %s", what)
								continue
							}
							ref.add("%s %s", names[i], what)
						}
					}
					var want error
					ref.add("new reader")
					if s.noReader {
						want = ref.fail("new reader")
					} else {
						for i := 1; ; i++ {
							ref.add("read")
							if i == s.failAt {
								want = ref.fail("read %d", i)
								break
							}
							if i > s.rows {
								break
							}
							each(fmt.Sprintf("add %d", i))
						}
						if want == nil {
							each("finalize")
						}
					}
					compare(t, x, ref, err, want, 0)
				})
			}
			return !c.Stop()
		})
	}
	c.Part("writers given twice", n)

	n = 0
	fw := trees(2, c.Pick(1, 2))
	for _, open := range []bool{true, false} {
		for _, closeFails := range []bool{false, true} {
			for _, w := range fw {
				for _, s := range sources {
					if s.rows > 2 {
						continue
					}
					n++
					c.CaseF(func() string {
						return fmt.Sprintf("copy a file %+v to %s; opens: %v, close fails: %v", s, w, open, closeFails)
					}, func(t *kit.T) {
						x, ref := newWorld(), newWorld()
						f := &file{x: x, fail: io.EOF, size: 1}
						if closeFails {
							f.close = x.fail("close")
						}
						err := protocp.NewCopier(x.reader(s)).CopyFile(x.ctx, fsFunc(func(ctx context.Context, name string) (io.ReadCloser, error) {
							x.check(ctx)
							x.add("open %s", name)
							if !open {
								return nil, x.fail("open")
							}
							return f, nil
						}), "some/file", x.real(w, "w"))
						var want error
						row := 0
						ref.add("open some/file")
						if !open {
							want = ref.fail("open")
						} else {
							want, row = ref.refCopy(s, w)
							ref.add("close")
							if closeFails && want == nil {
								want = ref.fail("close")
							}
						}
						compare(t, x, ref, err, want, row)
					})
				}
			}
		}
		if c.Stop() {
			break
		}
	}
	c.Part("copies of files", n)

	// the bytes of the file reach the reader, whatever the pieces they come in, and so does an error of reading
	n = 0
	contents := []string{"", "a\n", "a\nbb\n\n", "é\x00\xff\r\nlast"}
	for _, s := range []string{strings.Repeat("0123456789abcde\n", 1<<16), strings.Repeat("x", 11<<20) + "\ny"} {
		contents = append(contents, s)
	}
	for _, s := range contents {
		for cut := 0; cut <= len(s); cut++ {
			if len(s) > 100 && cut > 2 && cut < len(s)-2 && cut != 10<<20 && cut != 1<<20 {
				continue
			}
			for _, size := range []int{1, 2, 3, 1 << 12, 1 << 30} {
				if len(s) > 100 && size < 100 {
					continue
				}
				for mode := 0; mode < 4; mode++ {
					for _, fails := range []bool{false, true} {
						if len(s) > 100 && !(mode == 0 || size == 1<<12) {
							continue
						}
						n++
						c.CaseF(func() string {
							return fmt.Sprintf("%d of %d bytes of %.20q in pieces of %d, mode %d, fails: %v", cut, len(s), s, size, mode, fails)
						}, func(t *kit.T) {
							x := newWorld()
							f := &file{x: x, data: []byte(s[:cut]), size: size, fail: io.EOF, nothing: mode&1 != 0, withLast: mode&2 != 0}
							if fails {
								f.fail = x.fail("disk")
							}
							var got []string
							err := protocp.NewCopier(lines).CopyFile(x.ctx, fsFunc(func(context.Context, string) (io.ReadCloser, error) { return f, nil }), "f",
								protocp.VerifWriter(func(_ context.Context, m proto.Message) error {
									got = append(got, m.(*wrapperspb.StringValue).Value)
									return nil
								}, func(context.Context) error { x.add("finalize"); return nil }))
							var want []string
							for _, l := range bytes.SplitAfter([]byte(s[:cut]), []byte("\n")) {
								if len(l) > 0 && !(fails && l[len(l)-1] != '\n') {
									want = append(want, string(l))
								}
							}
							log := "finalize, close"
							if fails {
								log = "close"
							}
							if l := strings.Join(x.log, ", "); l != log {
								t.Failf("the calls are %s instead of %s", l, log)
							}
							if fails != (err != nil) || fails && !errors.Is(err, x.errs["disk"]) {
								t.Failf("error %v", err)
							}
							if strings.Join(got, "|") != strings.Join(want, "|") {
								t.Failf("%d records instead of %d", len(got), len(want))
							}
							for _, b := range x.bad {
								t.Failf("%s", b)
							}
							t.Outcome(fmt.Sprint(len(got), fails))
							t.Transitions(len(got))
						})
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	c.Part("contents of files", n)

	// errors which mean something elsewhere are errors like any other
	n = 0
	special := []error{io.ErrUnexpectedEOF, io.EOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, context.Canceled, context.DeadlineExceeded, os.ErrNotExist, os.ErrClosed, syscall.EINTR, syscall.EAGAIN, bufio.ErrTooLong, &failure{""}, &failure{"EOF"}}
	for _, e := range special {
		for _, at := range []string{"make the reader", "read 1", "read 2", "add 1", "add 2", "finalize", "close", "open"} {
			if e == io.EOF && strings.HasPrefix(at, "read") {
				continue
			}
			for _, grouped := range []int{0, 1, 2} {
				e, at, grouped := e, at, grouped
				n++
				c.CaseF(func() string { return fmt.Sprintf("%s fails with %q, groups: %d", at, e, grouped) }, func(t *kit.T) {
					var log []string
					do := func(what string) error {
						log = append(log, what)
						if what == at {
							return e
						}
						return nil
					}
					i, adds := 0, 0
					var w protocp.MessageWriter = protocp.VerifWriter(func(context.Context, proto.Message) error {
						adds++
						return do(fmt.Sprint("add ", adds))
					}, func(context.Context) error { return do("finalize") })
					for k := 0; k < grouped; k++ {
						w = protocp.NewCompositeRecordWriter(w)
					}
					f := &file{x: newWorld(), fail: io.EOF, size: 1}
					err := protocp.NewCopier(func(io.Reader) (protocp.MessageReader, error) {
						if err := do("make the reader"); err != nil {
							return nil, err
						}
						return readerFunc(func() (proto.Message, error) {
							if i++; i == 4 {
								return nil, io.EOF
							}
							if err := do(fmt.Sprint("read ", i)); err != nil {
								return nil, err
							}
							return rows[i], nil
						}), nil
					}).CopyFile(context.Background(), fsFunc(func(context.Context, string) (io.ReadCloser, error) {
						if err := do("open"); err != nil {
							return nil, err
						}
						return closer{f, func() error { return do("close") }}, nil
					}), "f", w)
					var want []string
					for _, s := range []string{"open", "make the reader", "read 1", "add 1", "read 2", "add 2", "read 3", "add 3", "finalize"} {
						want = append(want, s)
						if s == at {
							break
						}
					}
					if at != "open" {
						want = append(want, "close")
					}
					if a, b := strings.Join(log, ", "), strings.Join(want, ", "); a != b {
						t.Failf("the calls are %s instead of %s", a, b)
					}
					if !errors.Is(err, e) {
						t.Failf("error %v instead of %q", err, e)
					}
					t.Transitions(len(log))
					t.Outcome(at)
				})
			}
		}
	}
	c.Part("kinds of errors", n)

	// many writers, many records, and the same message for each; a copier used again
	n = 0
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}
	if c.Thorough() {
		sizes = append(sizes, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537)
	}
	for _, ws := range sizes {
		for _, rs := range sizes {
			if ws*rs > c.Pick(1<<16, 1<<18) {
				continue
			}
			for shape := 0; shape < 4; shape++ {
				for _, fail := range []string{"", "add", "fin", "all fin", "read"} {
					if fail != "" && (ws == 0 || rs == 0) {
						continue
					}
					ws, rs, shape, fail := ws, rs, shape, fail
					n++
					c.CaseF(func() string {
						return fmt.Sprintf("%d records to %d writers, shape %d, failing: %s", rs, ws, shape, fail)
					}, func(t *kit.T) {
						type call struct{ w, r int } // r is -1 for the end
						var log []call
						var msgs []proto.Message
						for i := 0; i < rs; i++ {
							msgs = append(msgs, wrapperspb.String(fmt.Sprint(i)))
						}
						boom := &failure{"boom"}
						var ls []protocp.MessageWriter
						at := 0
						for w := 0; w < ws; w++ {
							w, done := w, 0
							ls = append(ls, protocp.VerifWriter(func(_ context.Context, m proto.Message) error {
								if at >= rs || m != msgs[at] {
									t.Failf("writer %d is given another message than was read", w)
								}
								log = append(log, call{w, done})
								done++
								if fail == "add" && w == ws-1 && done == rs {
									return boom
								}
								return nil
							}, func(context.Context) error {
								log = append(log, call{w, -1})
								done = 0
								if fail == "fin" && w == ws-1 || fail == "all fin" {
									if w == 0 || fail == "fin" {
										return boom
									}
									return &failure{"later"}
								}
								return nil
							}))
						}
						all := group(ls, shape)
						cp := protocp.NewCopier(func(io.Reader) (protocp.MessageReader, error) {
							at = -1
							return readerFunc(func() (proto.Message, error) {
								if at++; at >= rs {
									return nil, io.EOF
								}
								if fail == "read" && at == rs-1 {
									return nil, boom
								}
								return msgs[at], nil
							}), nil
						})
						for again := 0; again < 2; again++ {
							log = nil
							err := cp.Copy(context.Background(), strings.NewReader(""), all)
							var want []call
							n := rs
							if fail == "read" {
								n--
							}
							for r := 0; r < n; r++ {
								for w := 0; w < ws; w++ {
									want = append(want, call{w, r})
								}
							}
							if fail != "read" && fail != "add" {
								for w := 0; w < ws; w++ {
									want = append(want, call{w, -1})
								}
							}
							if fmt.Sprint(log) != fmt.Sprint(want) {
								t.Failf("time %d: the calls are %.300v instead of %.300v", again, log, want)
							}
							if (fail != "") != (err != nil) || err != nil && !errors.Is(err, boom) {
								t.Failf("time %d: error %v", again, err)
							}
							if fail == "add" && err != nil && !strings.Contains(" "+err.Error()+":", fmt.Sprintf(" %d:", rs)) && strings.Join(number.FindAllString(err.Error(), -1), " ") != strconv.Itoa(rs) {
								t.Failf("error %q does not name row %d", err, rs)
							}
							t.Transitions(len(log))
							if fail != "" {
								break
							}
						}
						t.Outcome(fail)
					})
				}
			}
		}
		if c.Stop() {
			return
		}
	}
	c.Part("many writers and records", n)

	// whether a copy that is called off stops or goes on, it says that it has copied only if it has
	n = 0
	for rs := 0; rs <= 4; rs++ {
		for when := 0; when <= rs+2; when++ {
			for _, deadline := range []bool{false, true} {
				rs, when := rs, when
				n++
				c.CaseF(func() string { return fmt.Sprintf("%d records, called off at %d, deadline: %v", rs, when, deadline) }, func(t *kit.T) {
					ctx, cancel := context.WithCancel(context.Background())
					if deadline {
						var c2 context.CancelFunc
						ctx, c2 = context.WithDeadline(ctx, time.Unix(1, 0))
						defer c2()
					}
					defer cancel()
					step := func(i int) {
						if i == when {
							cancel()
						}
					}
					step(0)
					i, added, fin := 0, 0, 0
					f := &file{x: newWorld(), fail: io.EOF, size: 1}
					err := protocp.NewCopier(func(io.Reader) (protocp.MessageReader, error) {
						return readerFunc(func() (proto.Message, error) {
							if i++; i > rs {
								step(rs + 1)
								return nil, io.EOF
							}
							step(i)
							return rows[i], nil
						}), nil
					}).CopyFile(ctx, fsFunc(func(context.Context, string) (io.ReadCloser, error) { return f, nil }), "f",
						protocp.NewCompositeRecordWriter(protocp.VerifWriter(func(_ context.Context, m proto.Message) error {
							if added++; m != rows[added] {
								t.Failf("record %d is %v", added, m)
							}
							return nil
						}, func(context.Context) error { fin++; return nil })))
					if err == nil && (added != rs || fin != 1) {
						t.Failf("no error, but %d of %d records are written and the writer is finished %d times", added, rs, fin)
					}
					if err != nil && !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
						t.Failf("error %v", err)
					}
					if fin > 1 || f.closed != 1 && i > 0 || f.closed > 1 {
						t.Failf("finished %d times, closed %d times", fin, f.closed)
					}
					t.Transitions(i + added + fin)
					t.Outcome(fmt.Sprint(err))
				})
			}
		}
	}
	c.Part("copies called off", n)
}

// group arranges writers in groups without changing their order.
func group(ls []protocp.MessageWriter, shape int) protocp.MessageWriter {
	switch shape {
	case 0: // all in one
		return protocp.NewCompositeRecordWriter(ls...)
	case 1: // one in another
		w := protocp.NewCompositeRecordWriter()
		for i := len(ls) - 1; i >= 0; i-- {
			w = protocp.NewCompositeRecordWriter(ls[i], w)
		}
		return w
	case 2: // a group before each
		w := protocp.NewCompositeRecordWriter()
		for _, l := range ls {
			w = protocp.NewCompositeRecordWriter(w, l)
		}
		return w
	}
	// halves
	if len(ls) < 2 {
		return protocp.NewCompositeRecordWriter(ls...)
	}
	return protocp.NewCompositeRecordWriter(group(ls[:len(ls)/2], 3), group(ls[len(ls)/2:], 3))
}

type closer struct {
	io.Reader
	close func() error
}

func (c closer) Close() error { return c.close() }

// lines reads a record from every line.
func lines(r io.Reader) (protocp.MessageReader, error) {
	b := bufio.NewReader(r)
	return readerFunc(func() (proto.Message, error) {
		s, err := b.ReadString('\n')
		if err != nil && !(err == io.EOF && s != "") {
			return nil, err
		}
		return wrapperspb.String(s), nil
	}), nil
}
