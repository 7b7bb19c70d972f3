package convrun

const driverImports = `
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"reflect"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
`

// driverOne makes the entry of one converter; %[1]d is its number, %[2]s its message's Go name.
const driverOne = `
func init() {
	const hooks = 6
	calls, hookErr := 0, [hooks]error{}
	var order, saw string
	var seen *p%[1]d.%[2]s
	var by *c%[1]d.Reader
	for h := 0; h < hooks; h++ {
		h := h
		c%[1]d.AddReaderParseRowHook(func(r *c%[1]d.Reader, m *p%[1]d.%[2]s, errs []error) error {
			if h == 0 {
				calls++
				seen, by = m, r
			}
			order += fmt.Sprint(h)
			saw += fmt.Sprint(errs, "|")
			if m != seen || r != by {
				order += " with another message or reader "
			}
			return hookErr[h]
		})
	}
	table[%[1]d] = func(text string) (res Res) {
		calls, hookErr = 0, [hooks]error{}
		r, err := c%[1]d.NewReader(strings.NewReader(text), "opt")
		if err != nil {
			res.Open = err.Error()
			return
		}
		if len(r.Options()) != 1 || r.Options()[0] != "opt" {
			res.Same = "options are not kept"
		}
		good := 0
		for i := 0; i < 50; i++ {
			m, err := r.Read()
			if err == io.EOF {
				break
			}
			if err == nil {
				good++
			}
			res.Reads = append(res.Reads, one(m, err))
		}
		if calls < good || calls > len(res.Reads) {
			res.Same = fmt.Sprintf("the hook ran %%d times for %%d good rows of %%d", calls, good, len(res.Reads))
		}
		r, _ = c%[1]d.NewReader(strings.NewReader(text))
		ms, err := r.ReadAll()
		for _, m := range ms {
			res.All = append(res.All, one(m, nil))
		}
		res.All = append(res.All, one((*p%[1]d.%[2]s)(nil), err))
		// the generic reader gives the same
		mr, err := c%[1]d.NewMessageReader(strings.NewReader(text))
		if err != nil {
			res.Same = "NewMessageReader: " + err.Error()
			return
		}
		for i := range res.Reads {
			m, err := mr.ReadMessage()
			if o := one(m, err); !reflect.DeepEqual(o, res.Reads[i]) {
				res.Same = fmt.Sprintf("ReadMessage gave %%v, Read %%v", o, res.Reads[i])
			}
		}
		if _, err := mr.ReadMessage(); err != io.EOF {
			res.Same = fmt.Sprintf("ReadMessage ended with %%v", err)
		}
		// the hooks run in order on the row's message, seeing the errors so far, of which the first is the row's
		for _, mode := range []int{0, 1, 2, 3, 4, 5, 8, 16, 32, 33, 40, 63} {
			hookErr = [hooks]error{}
			for h := range hookErr {
				if mode>>uint(h)&1 != 0 {
					hookErr[h] = fmt.Errorf("hook %%d error", h)
				}
			}
			r, _ = c%[1]d.NewReader(strings.NewReader(text))
			for i := range res.Reads {
				order, saw, seen, by = "", "", nil, nil
				m, err := r.Read()
				want, sees, ran := "", "", ""
				var so []string
				if res.Reads[i].Err != "" {
					so = append(so, strings.TrimPrefix(res.Reads[i].Err, "error: "))
				}
				for h := range hookErr {
					ran += fmt.Sprint(h)
					sees += fmt.Sprint(so, "|")
					if hookErr[h] != nil {
						so = append(so, hookErr[h].Error())
					}
				}
				if len(so) > 0 {
					want = so[0]
				}
				if want == "" != (err == nil) || err != nil && err.Error() != want {
					res.Same = fmt.Sprintf("row %%d, hooks %%d: error %%v, want %%q", i+1, mode, err, want)
				}
				if order == "" && res.Reads[i].Err != "" {
					continue // a row that is no record has no message
				}
				if order != ran || saw != sees {
					res.Same = fmt.Sprintf("row %%d, hooks %%d: hooks ran as %%q and saw %%q, want %%q", i+1, mode, order, saw, sees)
				}
				if err == nil && m != seen || by != r {
					res.Same = fmt.Sprintf("row %%d: the hook got another message than the caller, or another reader", i+1)
				}
			}
			if len(res.Reads) == 0 {
				break
			}
			// reading everything stops at the first error
			r, _ = c%[1]d.NewReader(strings.NewReader(text))
			ms, err = r.ReadAll()
			if mode != 0 && (len(ms) != 0 || err == nil) {
				res.Same = fmt.Sprintf("with hooks %%d that fail, ReadAll gave %%d records and error %%v", mode, len(ms), err)
			}
		}
		if proto.Size(c%[1]d.Sample) != 0 {
			res.Same = "the sample is not empty"
		}
		return
	}
}
`

const driverMain = `
type Req struct {
	M    int
	Text string
}

type Res struct {
	Open  string
	Reads []Read
	All   []Read
	Same  string
	Panic string
}

type Read struct {
	Err    string
	Fields map[string]string
}

var table = map[int]func(string) Res{}

func one(m proto.Message, err error) Read {
	if err != nil {
		return Read{Err: "error: " + err.Error()}
	}
	r := Read{Fields: map[string]string{}}
	if m == nil || reflect.ValueOf(m).IsNil() {
		return r
	}
	rm := m.ProtoReflect()
	fs := rm.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Kind() == protoreflect.MessageKind {
			if !rm.Has(f) {
				continue
			}
			switch v := rm.Get(f).Message().Interface().(type) {
			case *timestamppb.Timestamp:
				r.Fields[string(f.Name())] = fmt.Sprintf("%d.%09d", v.GetSeconds(), v.GetNanos())
			case *durationpb.Duration:
				r.Fields[string(f.Name())] = fmt.Sprintf("%d/%d", v.GetSeconds(), v.GetNanos())
			default:
				r.Fields[string(f.Name())] = fmt.Sprintf("%T", v)
			}
			continue
		}
		if f.Name() == "get_b" && !rm.Has(f) {
			continue
		}
		v := rm.Get(f).Interface()
		if x, ok := v.(float32); ok {
			v = float64(x)
		}
		r.Fields[string(f.Name())] = fmt.Sprint(v)
	}
	return r
}

func main() {
	b, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var reqs []Req
	if err := json.Unmarshal(b, &reqs); err != nil {
		panic(err)
	}
	ress := make([]Res, len(reqs))
	byM := map[int][]int{}
	for i, r := range reqs {
		byM[r.M] = append(byM[r.M], i)
	}
	var wg sync.WaitGroup
	for _, idx := range byM {
		idx := idx
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range idx {
				func() {
					defer func() {
						if p := recover(); p != nil {
							ress[i].Panic = fmt.Sprint(p)
						}
					}()
					ress[i] = table[reqs[i].M](reqs[i].Text)
				}()
			}
		}()
	}
	wg.Wait()
	b, _ = json.Marshal(ress)
	if err := ioutil.WriteFile(os.Args[2], b, 0o644); err != nil {
		panic(err)
	}
}
`
