// Package numref is an independent reference for the texts that spell numbers.
package numref

import (
	"math"
	"math/big"
	"strings"
)

func digits(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }

// Int says whether s denotes an integer of the given size, and which.
func Int(s string, bits int, signed bool) (*big.Int, bool) {
	t := s
	if signed && (strings.HasPrefix(t, "-") || strings.HasPrefix(t, "+")) {
		t = t[1:]
	}
	if !digits(t) {
		return nil, false
	}
	n := new(big.Int)
	for _, r := range t {
		n.Mul(n, big.NewInt(10))
		n.Add(n, big.NewInt(int64(r-'0')))
	}
	if strings.HasPrefix(s, "-") {
		n.Neg(n)
	}
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		hi.Lsh(big.NewInt(1), uint(bits-1))
		lo.Neg(hi)
	} else {
		hi.Lsh(big.NewInt(1), uint(bits))
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
		return nil, false
	}
	return n, true
}

// Float parses plain decimal floats ([+-]digits[.digits][e[+-]digits]); known is false for spellings it leaves out.
func Float(s string, bits int) (v float64, ok, known bool) {
	low := strings.ToLower(s)
	switch unsigned := strings.TrimLeft(low, "+-"); {
	case len(low)-len(unsigned) > 1:
	case unsigned == "inf" || unsigned == "infinity":
		if low[0] == '-' {
			return math.Inf(-1), true, true
		}
		return math.Inf(1), true, true
	case low == "nan":
		return math.NaN(), true, true
	}
	for _, w := range []string{"inf", "nan", "x", "_"} {
		if strings.Contains(low, w) {
			return 0, false, false
		}
	}
	t := low
	if strings.HasPrefix(t, "-") || strings.HasPrefix(t, "+") {
		t = t[1:]
	}
	mant, exp := t, ""
	hasExp := false
	if i := strings.IndexByte(t, 'e'); i >= 0 {
		mant, exp, hasExp = t[:i], t[i+1:], true
	}
	ip, fp := mant, ""
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		ip, fp = mant[:i], mant[i+1:]
	}
	if ip+fp == "" || ip != "" && !digits(ip) || fp != "" && !digits(fp) {
		return 0, false, true
	}
	e := exp
	if hasExp {
		if strings.HasPrefix(e, "-") || strings.HasPrefix(e, "+") {
			e = e[1:]
		}
		if !digits(e) {
			return 0, false, true
		}
		if len(e) > 3 {
			return 0, false, false
		}
	}
	r, k := new(big.Rat).SetString(strings.TrimPrefix(low, "+"))
	if !k {
		return 0, false, false
	}
	if bits == 32 {
		f, _ := r.Float32()
		if math.IsInf(float64(f), 0) {
			return 0, false, true
		}
		return float64(f), true, true
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return 0, false, true
	}
	return f, true, true
}

var units = map[string]int64{"ns": 1, "us": 1e3, "µs": 1e3, "μs": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9}

// Duration reads [+-](number unit)+ or a bare 0.
func Duration(s string) (*big.Int, bool) {
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "0" {
		return new(big.Int), true
	}
	if s == "" {
		return nil, false
	}
	total := new(big.Int)
	for s != "" {
		n := 0
		for n < len(s) && (s[n] >= '0' && s[n] <= '9' || s[n] == '.') {
			n++
		}
		mant := s[:n]
		s = s[n:]
		if strings.Count(mant, ".") > 1 || strings.Trim(mant, ".") == "" {
			return nil, false
		}
		n = 0
		for n < len(s) && s[n] != '.' && (s[n] < '0' || s[n] > '9') {
			n++
		}
		u, ok := units[s[:n]]
		if !ok {
			return nil, false
		}
		s = s[n:]
		r, _ := new(big.Rat).SetString("0" + mant + map[bool]string{true: "0", false: ""}[strings.HasSuffix(mant, ".")])
		r.Mul(r, new(big.Rat).SetInt64(u))
		total.Add(total, new(big.Int).Quo(r.Num(), r.Denom()))
	}
	if neg {
		total.Neg(total)
	}
	if !total.IsInt64() {
		return nil, false
	}
	return total, true
}
