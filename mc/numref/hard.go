package numref

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Hard returns spellings of numbers on which careless parsers go wrong: powers of ten and their neighbours, exact halves
// between adjacent floats with a digit more or less far out, and many digits.
func Hard() (out []string) {
	add := func(s string) { out = append(out, s, "-"+s) }
	p := big.NewInt(1)
	for k := 0; k <= 25; k++ {
		for d := int64(-1); d <= 1; d++ {
			n := new(big.Int).Add(p, big.NewInt(d))
			if n.Sign() >= 0 {
				add(n.String())
			}
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	half := func(a, b float64) {
		x := new(big.Float).SetPrec(2200).SetFloat64(a)
		x.Add(x, new(big.Float).SetPrec(2200).SetFloat64(b))
		x.Quo(x, big.NewFloat(2))
		s := x.Text('f', 1200)
		if strings.Contains(s, ".") {
			s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
		}
		up, down := s, s
		if strings.Contains(s, ".") {
			up += "1"
		} else {
			up += ".0000001"
		}
		if i := strings.LastIndexAny(down, "123456789"); i >= 0 {
			b := []byte(down)
			b[i]--
			down = string(b)
			if strings.Contains(s, ".") {
				down += "99999"
			} else {
				down = down[:i+1] + strings.Repeat("9", len(down)-i-1)
			}
		}
		for _, t := range []string{s, up, down} {
			if len(t) < 1000 {
				add(t)
			}
		}
		add(x.Text('e', 40))
	}
	for _, f := range []float32{1, 1.5, 16777216, 33554434, 0.1, 123456.78, math.MaxFloat32, 1.17549435e-38, 1e-45, 3e-45, 9.99e9, 1e10, 1e20, 7.038531e-26, 8.41e21} {
		g := math.Nextafter32(f, float32(math.Inf(1)))
		b := float64(g)
		if math.IsInf(b, 0) {
			b = math.Ldexp(1, 128)
		}
		half(float64(f), b)
		half(float64(f), float64(math.Nextafter32(f, 0)))
	}
	for _, f := range []float64{1, 1.5, 1 << 53, 1 << 60, 0.1, 0.3, 123456789.123456789, 1e22, 1e23, 8.41e21, 5e-324, 1e-323, 2.2250738585072014e-308, 9007199254740993, 1e-7, 6.02214076e23} {
		half(f, math.Nextafter(f, math.Inf(1)))
		half(f, math.Nextafter(f, 0))
	}
	// short texts that a double holds exactly and that lie just above or below the middle of two floats
	for e := uint(8); e <= 29; e++ {
		for _, m := range []int64{1<<23 + 2, 1<<23 + 4, 1<<24 - 2, 1<<23 + 123456} {
			for _, d := range []int64{-1, 0, 1} {
				add(fmt.Sprint(m<<e + 1<<(e-1) + d))
			}
		}
	}
	for e := uint(30); e <= 42; e++ {
		for _, m := range []int64{1 << 19, 1<<19 + 2, 1<<19 + 4} {
			for _, d := range []int64{-1, 1} {
				// in double the last unit vanishes or not, in float it decides
				add(fmt.Sprint(m<<e + 1<<(e-25) + d))
			}
		}
	}
	for _, n := range []int{9, 10, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 310, 400, 800, 801, 1000} {
		add(strings.Repeat("9", n))
		add("0." + strings.Repeat("0", n) + "1")
		add("1" + strings.Repeat("0", n))
		add(strings.Repeat("0", n) + "7")
		add("1." + strings.Repeat("0", n))
		add("0." + strings.Repeat("3", n))
		add(fmt.Sprintf("1%se-%d", strings.Repeat("0", n), n))
		add(fmt.Sprintf("0.%s1e%d", strings.Repeat("0", n), n))
		add("1e" + strings.Repeat("0", n) + "5")
		add(strings.Repeat("0", n))
		add(strings.Repeat(" ", n) + "1")
		add("1" + strings.Repeat(" ", n))
		add("1" + strings.Repeat("0", n) + "x")
	}
	return
}
