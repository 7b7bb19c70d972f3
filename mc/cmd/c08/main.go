// C08: the field parsers used by generated converters accept exactly the values of their type and yield them exactly.
package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/google/xtoproto/csvtoprotoparse"
	"verif/mc/kit"
	"verif/mc/numref"
	"verif/mc/timeref"
)

func main() {
	kit.Main(kit.Options{
		ID: "C08", Level: "model_checking",
		Rule: "numbers: every text up to the length bound over digits, signs, point, exponent, space, underscore and letters, every integer within 3 of a power of two, powers of ten, exact halves between floats and up to a thousand digits, for each of the four number parsers; timestamps: every layout x zone x day of the year range x time of day of the lists, plus every one-character deletion, insertion and replacement of each layout's sample text, and the year range 0-9999; durations: every text up to the bound over digits, sign, point and unit letters x every unit suffix; compared with independent parsers (big numbers, own calendar arithmetic, own zone rules, offsets of past rules of ten zones). Non-trivial: the text contains a digit",
	}, run)
}

func num(c *kit.C, s string) {
	digit := strings.ContainsAny(s, "0123456789")
	c.CaseF(func() string { return fmt.Sprintf("number %q", s) }, func(t *kit.T) {
		if !digit {
			t.Trivial()
		}
		t.States(4)
		for _, bits := range []int{32, 64} {
			want, ok := numref.Int(s, bits, true)
			var got int64
			var err error
			if bits == 32 {
				var v int32
				v, err = csvtoprotoparse.ParseInt32(s)
				got = int64(v)
			} else {
				got, err = csvtoprotoparse.ParseInt64(s)
			}
			if (err == nil) != ok {
				t.Failf("int%d: err=%v, want accepted=%v", bits, err, ok)
			} else if ok && big.NewInt(got).Cmp(want) != 0 {
				t.Failf("int%d: got %d, want %v", bits, got, want)
			}
			if ok {
				t.Outcome("integer")
			}
			wf, ok, known := numref.Float(s, bits)
			var gf float64
			if bits == 32 {
				var v float32
				v, err = csvtoprotoparse.ParseFloat(s)
				gf = float64(v)
			} else {
				gf, err = csvtoprotoparse.ParseDouble(s)
			}
			if !known {
				continue
			}
			if (err == nil) != ok {
				t.Failf("float%d: err=%v, want accepted=%v", bits, err, ok)
			} else if ok && gf != wf && !(gf != gf && wf != wf) {
				t.Failf("float%d: got %v, want %v", bits, gf, wf)
			}
		}
		if v, err := csvtoprotoparse.ParseString(s); err != nil || v != s {
			t.Failf("string: got %q, %v", v, err)
		}
	})
}

func stamp(c *kit.C, layout, text, zone string) {
	c.CaseF(func() string { return fmt.Sprintf("time layout=%q text=%q zone=%q", layout, text, zone) }, func(t *kit.T) {
		want, ok, known := timeref.Parse(layout, text, zone)
		if !known {
			t.Trivial()
			return
		}
		if ok && (want.Sec < timeref.Days(1, 1, 1)*86400 || want.Sec >= timeref.Days(10000, 1, 1)*86400) {
			ok = false
		}
		t.States(1)
		got, err := csvtoprotoparse.ParseTimestamp(text, layout, zone)
		if (err == nil) != ok {
			t.Failf("err=%v, want accepted=%v", err, ok)
			return
		}
		if !ok {
			t.Outcome("time refused")
			return
		}
		t.Outcome("time accepted")
		if got.GetSeconds() != want.Sec || int(got.GetNanos()) != want.Nano {
			t.Failf("got %d.%09d, want %d.%09d", got.GetSeconds(), got.GetNanos(), want.Sec, want.Nano)
		}
	})
}

func dur(c *kit.C, s, unit string) {
	c.CaseF(func() string { return fmt.Sprintf("duration %q unit %q", s, unit) }, func(t *kit.T) {
		if !strings.ContainsAny(s, "0123456789") {
			t.Trivial()
		}
		t.States(1)
		want, ok := numref.Duration(s + unit)
		got, err := csvtoprotoparse.ParseDuration(s, unit)
		if (err == nil) != ok {
			t.Failf("err=%v, want accepted=%v", err, ok)
			return
		}
		if !ok {
			t.Outcome("duration refused")
			return
		}
		t.Outcome("duration accepted")
		n := new(big.Int).Mul(big.NewInt(got.GetSeconds()), big.NewInt(1e9))
		n.Add(n, big.NewInt(int64(got.GetNanos())))
		if n.Cmp(want) != 0 {
			t.Failf("got %v ns, want %v", n, want)
		}
		if got.GetNanos() <= -1e9 || got.GetNanos() >= 1e9 || int64(got.GetNanos())*got.GetSeconds() < 0 {
			t.Failf("not a normal duration: %v", got)
		}
	})
}

func conv(c *kit.C, sec int64, ns int64) {
	c.CaseF(func() string { return fmt.Sprintf("to timestamp %d.%09d", sec, ns) }, func(t *kit.T) {
		t.States(1)
		ok := sec >= timeref.Days(1, 1, 1)*86400 && sec < timeref.Days(10000, 1, 1)*86400
		for _, loc := range []*time.Location{time.UTC, time.FixedZone("X", 3600*5), time.FixedZone("Y", -7*3600-1)} {
			got, err := csvtoprotoparse.TimeToTimestamp(time.Unix(sec, ns).In(loc))
			if (err == nil) != ok {
				t.Failf("err=%v, want accepted=%v", err, ok)
			} else if ok && (got.GetSeconds() != sec || int64(got.GetNanos()) != ns) {
				t.Failf("got %v", got)
			}
		}
	})
}

func convDur(c *kit.C, n int64) {
	c.CaseF(func() string { return fmt.Sprintf("to duration %d", n) }, func(t *kit.T) {
		t.States(1)
		got, err := csvtoprotoparse.DurationToDurationProto(time.Duration(n))
		if err != nil {
			t.Failf("%v", err)
			return
		}
		// n = sec*1e9 + nanos with both of one sign
		if got.GetSeconds() != n/1e9 || int64(got.GetNanos()) != n%1e9 {
			t.Failf("got %v", got)
		}
	})
}

var layouts = []struct{ layout, sample string }{
	{"2006-01-02", "2020-02-29"},
	{"2006-01-02 15:04:05", "2020-02-29 23:59:58"},
	{"01/02/2006", "12/31/2021"},
	{"1/2/2006 3:04 PM", "3/9/2021 12:07 AM"},
	{"2006-01-02T15:04:05Z07:00", "2020-02-29T23:59:58.25+05:30"},
	{"Jan 2, 2006", "May 3, 1999"},
	{"Mon, 02 Jan 2006 15:04:05 -0700", "Sat, 29 Feb 2020 01:02:03 -0800"},
	{"2006", "1998"},
	{"15:04", "23:07"},
	{"2006-01-02T15:04:05Z07:00", "2020-02-29T23:59:58Z"},
	{"2006-01-02T15:04:05Z0700", "2020-02-29T23:59:58Z"},
	{"20060102T150405Z0700", "20200229T235958-0930"},
	{"2006-01-02 15:04:05-07:00", "2020-02-29 23:59:58-09:30"},
	{"02.01.06 03:04pm", "29.02.20 12:31am"},
	{"Monday, January _2 2006 15:04:05.000", "Saturday, February  9 2019 04:05:06.789"},
	{"2006-002", "2020-366"},
	{"20060102", "20200229"},
	{"", ""},
}

// pastOffsets are offsets that were in force in the past under rules no longer used.
var pastOffsets = []struct {
	zone    string
	y, m, d int
	secs    int
}{
	{"Europe/Moscow", 2010, 1, 15, 3 * 3600}, {"Europe/Moscow", 2010, 7, 15, 4 * 3600}, {"Europe/Moscow", 2012, 1, 15, 4 * 3600}, {"Europe/Moscow", 2012, 7, 15, 4 * 3600}, {"Europe/Moscow", 2015, 1, 15, 3 * 3600}, {"Europe/Moscow", 2020, 7, 15, 3 * 3600},
	{"America/Sao_Paulo", 2018, 1, 15, -2 * 3600}, {"America/Sao_Paulo", 2018, 7, 15, -3 * 3600}, {"America/Sao_Paulo", 2021, 1, 15, -3 * 3600},
	{"Asia/Tokyo", 1950, 7, 15, 10 * 3600}, {"Asia/Tokyo", 1952, 7, 15, 9 * 3600},
	{"Europe/London", 1970, 1, 15, 3600}, {"Europe/London", 1975, 1, 15, 0}, {"Europe/London", 1975, 7, 15, 3600},
	{"America/New_York", 1974, 2, 1, -4 * 3600}, {"America/New_York", 1973, 2, 1, -5 * 3600}, {"America/New_York", 2005, 3, 20, -5 * 3600}, {"America/New_York", 2007, 3, 20, -4 * 3600}, {"America/New_York", 2005, 11, 2, -5 * 3600}, {"America/New_York", 2007, 11, 2, -4 * 3600},
	{"Asia/Kolkata", 1944, 1, 15, 6*3600 + 1800}, {"Asia/Kolkata", 1950, 1, 15, 5*3600 + 1800},
	{"Pacific/Apia", 2011, 12, 28, -10 * 3600}, {"Pacific/Apia", 2012, 1, 2, 14 * 3600},
	{"Asia/Pyongyang", 2016, 1, 15, 8*3600 + 1800}, {"Asia/Pyongyang", 2019, 1, 15, 9 * 3600},
	{"Asia/Kathmandu", 1985, 6, 1, 5*3600 + 1800}, {"Asia/Kathmandu", 1987, 6, 1, 5*3600 + 2700},
}

func past(c *kit.C) {
	for _, o := range pastOffsets {
		for _, h := range []int{0, 9, 12, 23} {
			c.CaseF(func() string { return fmt.Sprintf("past %s %04d-%02d-%02d %d o'clock", o.zone, o.y, o.m, o.d, h) }, func(t *kit.T) {
				t.States(1)
				got, err := csvtoprotoparse.ParseTimestamp(fmt.Sprintf("%04d-%02d-%02d %02d:30:05", o.y, o.m, o.d, h), "2006-01-02 15:04:05", o.zone)
				if err != nil {
					t.Failf("%v", err)
					return
				}
				if want := timeref.Days(o.y, o.m, o.d)*86400 + int64(h*3600+1805) - int64(o.secs); got.GetSeconds() != want || got.GetNanos() != 0 {
					t.Failf("got %d.%09d, want %d", got.GetSeconds(), got.GetNanos(), want)
				}
				t.Outcome("past rule")
			})
		}
	}
}

// The machine's own zone is read at its first use, which is after this.
var _ = os.Setenv("TZ", "Asia/Kathmandu")

// zones loads locations as generated readers do.
func zones(c *kit.C) {
	names := []string{"UTC", "Asia/Kolkata", "America/New_York", "Europe/Berlin", "Etc/GMT+5", "", "Local", "No/Such", "utc ", "../UTC", "Asia", "/etc/localtime", "Asia/Kolkata\x00", "asia\\kolkata", "UTC+1"}
	for _, name := range names {
		name := name
		c.Case(fmt.Sprintf("location %q", name), func(t *kit.T) {
			t.Transitions(1)
			want, err := time.LoadLocation(name)
			var got *time.Location
			panics := func() (p bool) {
				defer func() { p = recover() != nil }()
				got = csvtoprotoparse.MustLoadLocation(name)
				return
			}()
			t.Outcome(fmt.Sprint("panics: ", panics))
			if panics != (err != nil) {
				t.Failf("panics: %v, but the location gives %v", panics, err)
				return
			}
			if err != nil {
				return
			}
			for _, sec := range []int64{-1 << 34, -1, 0, 1 << 30, 1<<30 + 86400*180, 1 << 34} {
				if a, b := time.Unix(sec, 0).In(got).String(), time.Unix(sec, 0).In(want).String(); a != b {
					t.Failf("shows %s, want %s", a, b)
				}
			}
		})
	}
	c.Part("locations", int64(len(names)))
}

func run(c *kit.C) {
	if _, off := time.Unix(0, 0).Zone(); off == 0 {
		panic("the machine's own zone is still UTC")
	}
	// The machine's own zone must not matter.
	time.Local = time.FixedZone("here", 3*3600+1234)
	past(c)
	zones(c)
	var texts []string
	kit.Strings([]string{"1", "0", "9", "-", "+", ".", "e", "_", " ", "x", "5", "n"}, 6, func(p []string) bool {
		texts = append(texts, strings.Join(p, ""))
		return true
	})
	one := big.NewInt(1)
	for b := 0; b <= 65; b++ {
		for d := int64(-3); d <= 3; d++ {
			n := new(big.Int).Add(new(big.Int).Lsh(one, uint(b)), big.NewInt(d))
			for _, m := range []*big.Int{n, new(big.Int).Neg(n)} {
				s := m.String()
				texts = append(texts, s, " "+s, s+" ", s+".0", s+".5", s+"e0", s+"\n", strings.Replace(s, "-", "-0", 1), "+"+s)
			}
		}
	}
	for _, f := range []string{"3.4028235e38", "3.4028235677973366e38", "3.4028236e38", "340282346638528859811704183484516925440", "1.7976931348623157e308", "1.7976931348623159e308", "5e-324", "1e-46", "0.1", "16777217", "9007199254740993", "2.2250738585072011e-308", "1e400", "1e39", "Inf", "infinity", "nan", "NaN", "é", "", "\x00", "a,b", "\"q\"", " lead", "trail ", "line\nbreak"} {
		texts = append(texts, f, "-"+f, "+"+f)
	}
	texts = append(texts, numref.Hard()...)
	c.Part("number texts", int64(len(texts)))
	c.Parallel(64, func(i int) {
		for k := i; k < len(texts); k += 64 {
			num(c, texts[k])
		}
	})
	// timestamps over the calendar
	zones := []string{"", "UTC", "Asia/Kolkata", "Asia/Tokyo", "America/New_York", "America/Los_Angeles", "Europe/Berlin", "Australia/Sydney", "Asia/Kathmandu", "Etc/GMT+5"}
	hours := []string{"00:00:00", "00:59:59", "01:30:00", "02:00:00", "02:30:00", "03:00:00", "12:00:00", "23:59:59.999999999", "24:00:00", "12:60:00"}
	y0, y1 := 2019, c.Pick(2024, 2037)
	c.Parallel(len(zones), func(i int) {
		for y := y0; y <= y1; y++ {
			for m := 1; m <= 12; m++ {
				for d := 0; d <= 32; d++ {
					for _, h := range hours {
						stamp(c, "2006-01-02 15:04:05", fmt.Sprintf("%04d-%02d-%02d %s", y, m, d, h), zones[i])
					}
					stamp(c, "1/2/2006 3:04 PM", fmt.Sprintf("%d/%d/%d 11:05 PM", m, d, y), zones[i])
					stamp(c, "1/2/2006 3:04 PM", fmt.Sprintf("%d/%d/%d 12:05 AM", m, d, y), zones[i])
				}
			}
			if c.Stop() {
				return
			}
		}
	})
	for y := 0; y <= 9999; y++ {
		for _, md := range []string{"01-01", "02-28", "02-29", "12-31"} {
			stamp(c, "2006-01-02", fmt.Sprintf("%04d-%s", y, md), "UTC")
			stamp(c, "2006-01-02T15:04:05Z07:00", fmt.Sprintf("%04d-%sT23:00:00-01:30", y, md), "Asia/Tokyo")
			stamp(c, "2006-01-02T15:04:05Z07:00", fmt.Sprintf("%04d-%sT00:30:00+01:30", y, md), "")
			stamp(c, "2006-01-02T15:04:05Z07:00", fmt.Sprintf("%04d-%sT05:06:07Z", y, md), "Asia/Tokyo")
			stamp(c, "2006-01-02", fmt.Sprintf("%04d-%s", y, md), "Etc/GMT+5")
			stamp(c, "02.01.06", fmt.Sprintf("%s.%02d", md[3:]+"."+md[:2], y%100), "UTC")
		}
	}
	alpha := []string{"0", "1", "9", "-", " ", ":", "Z", "a", "."}
	for _, l := range layouts {
		for _, z := range []string{"UTC", "America/New_York", "Asia/Tokyo", "No/Such_Zone"} {
			if z == "No/Such_Zone" {
				c.Case(fmt.Sprintf("unknown zone layout=%q", l.layout), func(t *kit.T) {
					if _, err := csvtoprotoparse.ParseTimestamp(l.sample, l.layout, z); err == nil {
						t.Failf("accepted")
					}
				})
				continue
			}
			stamp(c, l.layout, l.sample, z)
			for i := 0; i <= len(l.sample); i++ {
				if i < len(l.sample) {
					stamp(c, l.layout, l.sample[:i]+l.sample[i+1:], z)
				}
				for _, a := range alpha {
					stamp(c, l.layout, l.sample[:i]+a+l.sample[i:], z)
					if i < len(l.sample) {
						stamp(c, l.layout, l.sample[:i]+a+l.sample[i+1:], z)
					}
				}
			}
		}
	}
	// durations
	var ds []string
	kit.Strings([]string{"1", "0", "9", "-", "+", ".", "h", "m", "s", " "}, c.Pick(5, 6), func(p []string) bool {
		ds = append(ds, strings.Join(p, ""))
		return true
	})
	for b := uint(30); b <= 65; b++ {
		for d := int64(-2); d <= 2; d++ {
			n := new(big.Int).Add(new(big.Int).Lsh(one, b), big.NewInt(d))
			// past this the standard library's own overflow check works on prefixes
			ds = append(ds, n.String(), "-"+n.String())
		}
	}
	for _, k := range []int64{1, 2, 999999999, 2147483647, 2147483648, 4294967296, 4611686018, 4611686019, 4611686020, 9000000000, 9007199254, 9223372035, 9223372036} {
		for _, d := range []int64{-999, -512, -100, -1, 0, 1, 100, 512} {
			n := k*1000000000 + d
			ds = append(ds, fmt.Sprint(n), fmt.Sprint(-n))
		}
	}
	ds = append(ds, "1h2m3.5s", "-1.5h", "2562047", "2562048", "9223372036", "9223372037", "9223372036854775807ns1ns", "0.000000001", "0.0000000001", "1e3")
	sfx := []string{"", "s", "h", "m", "ms", "us", "µs", "ns", "x", "d"}
	c.Parallel(len(sfx), func(i int) {
		for _, s := range ds {
			dur(c, s, sfx[i])
		}
	})
	for _, sec := range []int64{timeref.Days(1, 1, 1) * 86400, timeref.Days(10000, 1, 1) * 86400, 0, 1 << 31, 1 << 33, -(1 << 31), 951782400} {
		for d := int64(-3); d <= 3; d++ {
			for _, ns := range []int64{0, 1, 999999999, 500000000} {
				conv(c, sec+d, ns)
			}
		}
	}
	for b := uint(0); b < 63; b++ {
		for d := int64(-2); d <= 2; d++ {
			convDur(c, int64(1)<<b+d)
			convDur(c, -(int64(1)<<b + d))
		}
	}
	for k := int64(-5); k <= 5; k++ {
		for d := int64(-2); d <= 2; d++ {
			convDur(c, k*1e9+d)
		}
	}
	convDur(c, math.MaxInt64)
	convDur(c, math.MinInt64)
}
