// Package csvref holds the row types the csvcoder checks decode into and an independent reference decoder.
package csvref

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/google/xtoproto/csvcoder"
	"github.com/google/xtoproto/textcoder"
)

// Celsius decodes itself from text like "21C".
type Celsius struct{ Deg int }

// UnmarshalText implements encoding.TextUnmarshaler.
func (c *Celsius) UnmarshalText(b []byte) error {
	s := string(b)
	if !strings.HasSuffix(s, "C") {
		return fmt.Errorf("temperature %q has no unit", s)
	}
	n, ok := RefInt(strings.TrimSuffix(s, "C"), 64)
	if !ok {
		return fmt.Errorf("temperature %q is not a number", s)
	}
	c.Deg = int(n)
	return nil
}

// Place is decoded by a function that is told the cell's context.
type Place struct{ Text, Where string }

// Where says where a row is.
func Where(path string, num int, header, values []string) string {
	return fmt.Sprintf("%q %d %q %q", path, num, header, values)
}

func init() {
	textcoder.MustRegister(reflect.TypeOf(Place{}), func(p Place) (string, error) { return p.Text, nil },
		func(ctx *textcoder.Context, s string, p *Place) error {
			p.Text = s
			p.Where = "no context"
			if v, ok := ctx.Value("csvcoder.CellContext"); ok {
				if c, ok := v.(*csvcoder.CellContext); ok {
					r := c.Row()
					p.Where = Where(r.Path(), r.Number().Offset(), r.Header().ColumnNames(), r.Strings())
				}
			}
			return nil
		})
}

// Count is a named basic type.
type Count int32

// Flag is a named bool.
type Flag bool

// The row types. Fields are written by csvcoder; Ref fills them independently.
type (
	// Two has explicit column names.
	Two struct {
		A string `csv:"A"`
		B int    `csv:"Bee"`
	}
	// Swapped is Two with the fields the other way round.
	Swapped struct {
		B int    `csv:"Bee"`
		A string `csv:"A"`
	}
	// Implicit takes the column name from the field.
	Implicit struct {
		A string
		C bool
	}
	// Skipping has fields that must stay untouched, and an unexported one.
	Skipping struct {
		A      string `csv:"A"`
		Bee    string `csv-skip:""`
		X      *int   `csv-skip:"true"`
		hidden int
		D      int8 `csv:"C"`
	}
	// Shared reads two fields from one column.
	Shared struct {
		A1 string `csv:"A"`
		A2 string `csv:"A"`
		N  Count  `csv:"Bee"`
		F  Flag   `csv:"C"`
	}
	// Own has a field that unmarshals itself.
	Own struct {
		T  Celsius `csv:"T"`
		F  float64 `csv:"Bee"`
		U8 uint8   `csv:"A"`
	}
	// Odd has odd column names.
	Odd struct {
		Space string `csv:"a b"`
		Empty string `csv:""`
		Upper int64  `csv:"bee"`
	}
	// Placed has a field whose decoder looks at the row it is in.
	Placed struct {
		P Place `csv:"T"`
		C bool
	}
	// None needs no column at all.
	None struct {
		A string `csv-skip:""`
	}
)

// Types lists a prototype of each row type.
var Types = []interface{}{&Two{}, &Swapped{}, &Implicit{}, &Skipping{}, &Shared{}, &Own{}, &Odd{}, &Placed{}, &None{}}

// Field describes what a type expects, written down by hand.
type Field struct {
	Name, Col string
	Kind      string
}

// Spec maps the type name to its fields in order.
var Spec = map[string][]Field{
	"Two":      {{"A", "A", "string"}, {"B", "Bee", "int64"}},
	"Swapped":  {{"B", "Bee", "int64"}, {"A", "A", "string"}},
	"Implicit": {{"A", "A", "string"}, {"C", "C", "bool"}},
	"Skipping": {{"A", "A", "string"}, {"D", "C", "int8"}},
	"Shared":   {{"A1", "A", "string"}, {"A2", "A", "string"}, {"N", "Bee", "int32"}, {"F", "C", "bool"}},
	"Own":      {{"T", "T", "celsius"}, {"F", "Bee", "float"}, {"U8", "A", "uint8"}},
	"Odd":      {{"Space", "a b", "string"}, {"Empty", "", "string"}, {"Upper", "bee", "int64"}},
	"Placed":   {{"P", "T", "place"}, {"C", "C", "bool"}},
	"None":     {},
}

// TypeName returns the name of the prototype's type.
func TypeName(proto interface{}) string { return reflect.TypeOf(proto).Elem().Name() }

// RefInt parses an optionally signed decimal integer that fits bits.
func RefInt(s string, bits uint) (int64, bool) {
	t := s
	if strings.HasPrefix(t, "+") || strings.HasPrefix(t, "-") {
		t = t[1:]
	}
	if t == "" || strings.Trim(t, "0123456789") != "" {
		return 0, false
	}
	n, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	if !ok {
		return 0, false
	}
	lim := new(big.Int).Lsh(big.NewInt(1), bits-1)
	if n.Cmp(lim) >= 0 || n.Cmp(new(big.Int).Neg(lim)) < 0 {
		return 0, false
	}
	return n.Int64(), true
}

// RefUint parses an unsigned decimal integer that fits bits.
func RefUint(s string, bits uint) (uint64, bool) {
	if s == "" || strings.Trim(s, "0123456789") != "" {
		return 0, false
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok || n.BitLen() > int(bits) {
		return 0, false
	}
	return n.Uint64(), true
}

var bools = map[string]bool{"true": true, "false": false, "1": true, "0": false, "on": true, "off": false, "yes": true, "no": false}

// floats the checks use, with their values.
var Floats = map[string]float64{"1.5": 1.5, "-2": -2, "7": 7, "1e3": 1000, "0": 0, ".5": .5, "21": 21, "300": 300, "-129": -129, "1": 1, "127": 127}

// Cell decodes one cell; ok is false when it must be refused, known is false when the reference does not define it.
func Cell(kind, s string) (v interface{}, ok, known bool) {
	switch kind {
	case "string":
		return s, true, true
	case "int64":
		n, ok := RefInt(s, 64)
		return n, ok, true
	case "int32":
		n, ok := RefInt(s, 32)
		return n, ok, true
	case "int8":
		n, ok := RefInt(s, 8)
		return n, ok, true
	case "uint8":
		n, ok := RefUint(s, 8)
		return n, ok, true
	case "bool":
		b, ok := bools[strings.ToLower(s)]
		return b, ok, true
	case "float":
		f, ok := Floats[s]
		if ok {
			return f, true, true
		}
		return nil, false, s == "" || s == "x" || s == "y z" || s == "21C" || s == "yes" || s == "tRuE"
	case "place":
		return Place{Text: s}, true, true
	case "celsius":
		if !strings.HasSuffix(s, "C") {
			return nil, false, true
		}
		n, ok := RefInt(strings.TrimSuffix(s, "C"), 64)
		return Celsius{int(n)}, ok, true
	}
	panic(kind)
}

// Missing lists the required columns a header lacks.
func Missing(proto interface{}, header []string) map[string]bool {
	m := map[string]bool{}
	for _, f := range Spec[TypeName(proto)] {
		if Index(header, f.Col) < 0 {
			m[f.Col] = true
		}
	}
	return m
}

// Index finds a column.
func Index(header []string, col string) int {
	for i, h := range header {
		if h == col {
			return i
		}
	}
	return -1
}

// Row decodes a row. bad is the value or column that must be refused first, in field order.
func Row(proto interface{}, header, values []string) (fields map[string]interface{}, ok, known bool, bad string) {
	fields = map[string]interface{}{}
	for _, f := range Spec[TypeName(proto)] {
		i := Index(header, f.Col)
		if i < 0 || i >= len(values) {
			return nil, false, true, f.Col
		}
		v, ok, known := Cell(f.Kind, values[i])
		if !known {
			return nil, false, false, ""
		}
		if !ok {
			return nil, false, true, values[i]
		}
		fields[f.Name] = v
	}
	return fields, true, true, ""
}

// Compare checks that got is exactly what Row says and that every other field is zero.
func Compare(got interface{}, want map[string]interface{}) string {
	v := reflect.ValueOf(got).Elem()
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		f := v.Field(i)
		w, ok := want[name]
		if !ok {
			if !f.IsZero() {
				return fmt.Sprintf("field %s is set though no column belongs to it", name)
			}
			continue
		}
		var g interface{}
		switch f.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			g = f.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			g = f.Uint()
		case reflect.Bool:
			g = f.Bool()
		case reflect.Float32, reflect.Float64:
			g = f.Float()
		case reflect.String:
			g = f.String()
		default:
			g = f.Interface()
		}
		if g != w {
			return fmt.Sprintf("field %s = %#v, want %#v", name, g, w)
		}
	}
	return ""
}
