// C07: the basic text coders accept exactly the values of their type and round-trip them (all short texts, all small
// values, every boundary).
package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"github.com/google/xtoproto/textcoder"
	"verif/mc/kit"
	"verif/mc/numref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C07", Level: "exploration",
		Rule: "for every basic type and a named type over it: (a) every text up to the length bound over the alphabet of digits, signs, point, exponent, underscore, space, hex and letters; (b) every integer within 3 of a power of two up to 2^65, plus and minus, in plain, zero-padded, signed and spaced spellings, powers of ten, exact halves between floats and up to a thousand digits; (c) every value of the 8 and 16 bit types and boundary values of the others encoded and decoded again; (d) every case variant and one-letter edit of the bool words. The oracle is an independent big-number parser. Non-trivial: the text contains a digit or is a bool word",
	}, run)
}

type (
	nInt     int
	nInt8    int8
	nInt16   int16
	nInt32   int32
	nInt64   int64
	nUint    uint
	nUint8   uint8
	nUint16  uint16
	nUint32  uint32
	nUint64  uint64
	nFloat32 float32
	nFloat64 float64
	nBool    bool
	nString  string
)

var basics = []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), false, "",
	nInt(0), nInt8(0), nInt16(0), nInt32(0), nInt64(0), nUint(0), nUint8(0), nUint16(0), nUint32(0), nUint64(0), nFloat32(0), nFloat64(0), nBool(false), nString("")}

var words = map[string]bool{"true": true, "false": false, "1": true, "0": false, "on": true, "off": false, "yes": true, "no": false}

func decodeCheck(c *kit.C, proto interface{}, s string) {
	typ := reflect.TypeOf(proto)
	c.CaseF(func() string { return fmt.Sprintf("decode %v %q", typ, s) }, func(t *kit.T) {
		if strings.Trim(s, "0123456789") == s {
			if _, isWord := words[strings.ToLower(s)]; !isWord {
				t.Trivial()
			}
		}
		p := reflect.New(typ)
		err := textcoder.Unmarshal(s, p.Interface())
		var ok bool
		known := true
		var cmp func() string
		v := p.Elem()
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			var n *big.Int
			n, ok = numref.Int(s, typ.Bits(), true)
			cmp = func() string { return diff(big.NewInt(v.Int()).String(), n.String()) }
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			var n *big.Int
			n, ok = numref.Int(s, typ.Bits(), false)
			cmp = func() string { return diff(new(big.Int).SetUint64(v.Uint()).String(), n.String()) }
		case reflect.Float32, reflect.Float64:
			var f float64
			f, ok, known = numref.Float(s, typ.Bits())
			cmp = func() string {
				if v.Float() == f || v.Float() != v.Float() && f != f { // -0 and 0 are one number
					return ""
				}
				return diff(fmt.Sprint(v.Float()), fmt.Sprint(f))
			}
		case reflect.Bool:
			var b bool
			b, ok = words[strings.ToLower(s)]
			for _, r := range s {
				if r > 127 {
					known = false
				}
			}
			cmp = func() string { return diff(fmt.Sprint(v.Bool()), fmt.Sprint(b)) }
		case reflect.String:
			ok = true
			cmp = func() string { return diff(v.String(), s) }
		}
		if !known {
			t.Trivial()
			return
		}
		if (err == nil) != ok {
			t.Failf("err=%v, want accepted=%v", err, ok)
			return
		}
		if ok {
			t.Outcome("accepted")
			if d := cmp(); d != "" {
				t.Failf("%s", d)
			}
		} else {
			t.Outcome("refused")
		}
	})
}

func diff(got, want string) string {
	if got == want {
		return ""
	}
	return fmt.Sprintf("decoded %s, want %s", got, want)
}

func roundTrip(c *kit.C, val reflect.Value) {
	c.CaseF(func() string { return fmt.Sprintf("round trip %v %#v", val.Type(), val.Interface()) }, func(t *kit.T) {
		s, err := textcoder.Marshal(val.Interface())
		if err != nil {
			t.Failf("encode: %v", err)
			return
		}
		want := ""
		switch val.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			want = big.NewInt(val.Int()).String()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			want = new(big.Int).SetUint64(val.Uint()).String()
		case reflect.Bool:
			want = "false"
			if val.Bool() {
				want = "true"
			}
		case reflect.String:
			want = val.String()
		case reflect.Float32, reflect.Float64:
			want = new(big.Float).SetFloat64(val.Float()).Text('f', 6)
		}
		if s != want {
			t.Failf("encoded %q, want %q", s, want)
			return
		}
		p := reflect.New(val.Type())
		if err := textcoder.Unmarshal(s, p.Interface()); err != nil {
			t.Failf("decoding %q: %v", s, err)
			return
		}
		exact := true
		if val.Kind() == reflect.Float32 || val.Kind() == reflect.Float64 {
			// six decimals are kept
			exact = false
			if math.Abs(p.Elem().Float()-val.Float()) > 0.0000006 && p.Elem().Float() != val.Float() && math.Abs(val.Float()) < 1e9 {
				t.Failf("%v came back as %v", val.Float(), p.Elem().Float())
			}
			if val.Float() == math.Trunc(val.Float()) && p.Elem().Float() != val.Float() {
				t.Failf("%v came back as %v", val.Float(), p.Elem().Float())
			}
		}
		if exact && p.Elem().Interface() != val.Interface() {
			t.Failf("%v came back as %v by way of %q", val.Interface(), p.Elem().Interface(), s)
		}
		t.Outcome("round trip " + val.Kind().String())
	})
}

func run(c *kit.C) {
	var texts []string
	kit.Strings([]string{"1", "0", "9", "-", "+", ".", "e", "_", " ", "x", "a"}, c.Pick(5, 6), func(p []string) bool {
		texts = append(texts, strings.Join(p, ""))
		return true
	})
	one := big.NewInt(1)
	for b := 0; b <= 65; b++ {
		for d := int64(-3); d <= 3; d++ {
			n := new(big.Int).Add(new(big.Int).Lsh(one, uint(b)), big.NewInt(d))
			for _, m := range []*big.Int{n, new(big.Int).Neg(n)} {
				s := m.String()
				texts = append(texts, s, " "+s, s+" ", s+".0", s+"\n")
				if m.Sign() >= 0 {
					texts = append(texts, "+"+s, "0"+s, "000000000000000000000000000"+s, "0x"+s, "-0"+s)
				} else {
					texts = append(texts, "-000"+s[1:], "+"+s, "--"+s[1:])
				}
			}
		}
	}
	for _, f := range []string{"3.4028235e38", "3.4028236e38", "340282346638528859811704183484516925440", "1.7976931348623157e308", "1.7976931348623159e308", "5e-324", "1e-46", "0.1", "16777217", "9007199254740993", "2.2250738585072011e-308", "123456.789e3", "1e400", "-1e39", "1.e5", "inf", "Infinity", "NaN", "INF", "nan", "infi", "e5", "1e", "1e+", "1e+05"} {
		texts = append(texts, f, "-"+f, "+"+f)
	}
	for w := range words {
		n := len(w)
		for m := 0; m < 1<<uint(n); m++ {
			b := []byte(w)
			for i := range b {
				if m>>uint(i)&1 == 1 {
					b[i] = strings.ToUpper(string(b[i]))[0]
				}
			}
			texts = append(texts, string(b))
		}
		for i := 0; i <= n; i++ {
			texts = append(texts, w[:i]+"s"+w[i:], w[:i]+" "+w[i:])
			if i < n {
				texts = append(texts, w[:i]+w[i+1:])
			}
		}
	}
	texts = append(texts, "", "t", "f", "y", "n", "T", "F", "é", "\x00", "\xff", "Yes!", "enabled", "１")
	texts = append(texts, numref.Hard()...)
	for _, sep := range []string{",", "_", " ", ".", "'", "\u00a0", "\n"} {
		for n := 1; n <= 40; n++ {
			for _, every := range []int{1, 3, 4} {
				var b strings.Builder
				for i := 0; i < n; i++ {
					if i > 0 && (n-i)%every == 0 {
						b.WriteString(sep)
					}
					b.WriteByte("10"[i%2])
				}
				texts = append(texts, b.String(), "-"+b.String(), strings.Repeat("0", 20)+b.String(), b.String()+sep, sep+b.String())
			}
		}
	}
	c.Part("texts", int64(len(texts)))
	c.Parallel(len(basics), func(i int) {
		for k, s := range texts {
			decodeCheck(c, basics[i], s)
			if k%1000 == 0 && c.Stop() {
				return
			}
		}
	})
	c.Parallel(len(basics), func(i int) {
		typ := reflect.TypeOf(basics[i])
		v := reflect.New(typ).Elem()
		switch typ.Kind() {
		case reflect.Int8, reflect.Int16:
			for n := -1 << uint(typ.Bits()-1); n < 1<<uint(typ.Bits()-1); n++ {
				v.SetInt(int64(n))
				roundTrip(c, v)
			}
		case reflect.Uint8, reflect.Uint16:
			for n := 0; n < 1<<uint(typ.Bits()); n++ {
				v.SetUint(uint64(n))
				roundTrip(c, v)
			}
		case reflect.Int, reflect.Int32, reflect.Int64:
			for b := uint(0); b < uint(typ.Bits()); b++ {
				for d := int64(-5); d <= 5; d++ {
					for _, s := range []int64{1, -1} {
						n := s * (int64(1)<<b + d)
						if !v.OverflowInt(n) {
							v.SetInt(n)
							roundTrip(c, v)
						}
					}
				}
			}
		case reflect.Uint, reflect.Uint32, reflect.Uint64:
			for b := uint(0); b < uint(typ.Bits()); b++ {
				for d := int64(-5); d <= 5; d++ {
					n := uint64(int64(uint64(1)<<b) + d)
					if !v.OverflowUint(n) {
						v.SetUint(n)
						roundTrip(c, v)
					}
				}
			}
			v.SetUint(1<<uint(typ.Bits()-1)*2 - 1)
			roundTrip(c, v)
		case reflect.Bool:
			roundTrip(c, v)
			v.SetBool(true)
			roundTrip(c, v)
		case reflect.String:
			kit.Strings([]string{"a", " ", "\"", "\n", "é", "\xff", "%", "\\", "\x00", ","}, 4, func(p []string) bool {
				v.SetString(strings.Join(p, ""))
				roundTrip(c, v)
				return true
			})
		case reflect.Float32, reflect.Float64:
			for m := -2000; m <= 2000; m++ {
				for _, s := range []float64{1, 0.5, 0.25, 0.1, 1000, 1 << 20} {
					v.SetFloat(float64(m) * s)
					roundTrip(c, v)
				}
			}
			for b := uint(0); b < 62; b++ {
				for _, s := range []float64{1, -1} {
					v.SetFloat(s * float64(uint64(1)<<b))
					roundTrip(c, v)
				}
			}
		}
	})
}
