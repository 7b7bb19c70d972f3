// Package timeref is an independent reference for Go time layouts, calendar arithmetic and a few zones' rules.
package timeref

import (
	"strconv"
	"strings"
)

// Days is the number of days from 1970-01-01 to the given proleptic Gregorian date.
func Days(y, m, d int) int64 {
	if m <= 2 {
		y--
		m += 12
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	doy := (153*(m-3)+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// MonthLen is the number of days of a month.
func MonthLen(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// Weekday is 0 for Sunday.
func Weekday(y, m, d int) int {
	w := (Days(y, m, d) + 4) % 7
	if w < 0 {
		w += 7
	}
	return int(w)
}

// nth returns the day of the n-th Sunday (n>0) or the last one (n<0).
func nthSunday(y, m, n int) int {
	if n > 0 {
		d := 1 + (7-Weekday(y, m, 1))%7
		return d + 7*(n-1)
	}
	d := MonthLen(y, m)
	return d - Weekday(y, m, d)
}

// Offset gives the offset from UTC, in seconds, of a local time in a zone; ok is false where the rule is not known or
// the local time does not exist or exists twice.
func Offset(zone string, y, mo, d, h, mi int) (int, bool) {
	switch zone {
	case "", "UTC":
		return 0, true
	case "Asia/Kolkata":
		return 19800, y >= 1950
	case "Asia/Tokyo":
		return 9 * 3600, y >= 1952
	case "Asia/Kathmandu":
		return 20700, y >= 1987
	case "Etc/GMT+5":
		return -5 * 3600, true
	case "Australia/Sydney":
		if y < 2009 || y > 2037 {
			return 0, false
		}
		a, b := nthSunday(y, 4, 1), nthSunday(y, 10, 1)
		key := mo*100 + d
		switch {
		case key == 400+a && h == 2, key == 1000+b && h == 2:
			return 0, false
		case key < 400+a || key == 400+a && h < 3, key > 1000+b || key == 1000+b && h > 2:
			return 11 * 3600, true
		}
		return 10 * 3600, true
	case "America/New_York", "America/Los_Angeles":
		std := -5 * 3600
		if zone == "America/Los_Angeles" {
			std = -8 * 3600
		}
		if y < 2007 || y > 2037 {
			return 0, false
		}
		a, b := nthSunday(y, 3, 2), nthSunday(y, 11, 1)
		key := mo*100 + d
		switch {
		case key == 300+a && h == 2, key == 1100+b && h == 1:
			return 0, false
		case key < 300+a || key == 300+a && h < 2, key > 1100+b || key == 1100+b && h >= 2:
			return std, true
		}
		return std + 3600, true
	case "Europe/Berlin":
		if y < 1997 || y > 2037 {
			return 0, false
		}
		a, b := nthSunday(y, 3, -1), nthSunday(y, 10, -1)
		key := mo*100 + d
		switch {
		case key == 300+a && h == 2, key == 1000+b && h == 2:
			return 0, false
		case key < 300+a || key == 300+a && h < 2, key > 1000+b || key == 1000+b && h > 2:
			return 3600, true
		}
		return 7200, true
	}
	return 0, false
}

// Instant is seconds since 1970 and nanoseconds.
type Instant struct {
	Sec  int64
	Nano int
}

// Parse reads text by layout. Known layout elements: 2006 01 02 15 04 05 (with an optional fraction after the
// seconds), .000, Z07:00, Z0700, -07:00, -0700, 06, 03, _2, pm, 002 (alone), Jan, January, Mon, 1, 2, 3, PM. known is false for texts whose zone rule is not known.
func Parse(layout, text, zone string) (in Instant, ok, known bool) {
	y, mo, d, h, mi, s, ns := 0, 1, 1, 0, 0, 0, 0
	off, hasOff := 0, false
	pm, hasPM := false, false
	hour12 := false
	num := func(min, max int) (int, bool) {
		n := 0
		for n < max && n < len(text) && text[n] >= '0' && text[n] <= '9' {
			n++
		}
		if n < min {
			return 0, false
		}
		v, _ := strconv.Atoi(text[:n])
		text = text[n:]
		return v, true
	}
	months := []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
	days := []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
	name := func(list []string, n int) (int, bool) {
		for i, w := range list {
			if n > 0 {
				w = w[:n]
			}
			if len(text) >= len(w) && strings.EqualFold(text[:len(w)], w) {
				text = text[len(w):]
				return i, true
			}
		}
		return 0, false
	}
	daySet := false
	yday := -1
	for layout != "" {
		good := true
		has := func(e string) bool {
			if strings.HasPrefix(layout, e) {
				layout = layout[len(e):]
				return true
			}
			return false
		}
		switch {
		case has("2006"):
			y, good = num(4, 4)
		case has("002"):
			yday, good = num(3, 3)
		case has("01"):
			mo, good = num(2, 2)
			good = good && mo >= 1 && mo <= 12
		case has("02"):
			d, good = num(2, 2)
			daySet = true
		case has("15"):
			h, good = num(1, 2) // Go takes one digit too
			good = good && h < 24
		case has("03"):
			h, good = num(2, 2)
			good = good && h <= 12
		case has("06"):
			if len(text) > 1 && (text[0] == '-' || text[0] == '+') {
				return in, false, false // the library reads a sign here
			}
			y, good = num(2, 2)
			if y >= 69 {
				y += 1900
			} else {
				y += 2000
			}
		case has("04"):
			mi, good = num(2, 2)
			good = good && mi < 60
		case has("05"):
			s, good = num(2, 2)
			good = good && s < 60
			if good && len(text) > 1 && (text[0] == '.' || text[0] == ',') && text[1] >= '0' && text[1] <= '9' && !strings.HasPrefix(layout, ".0") {
				text = text[1:]
				ns, text = frac(text)
			}
		case has(".000"):
			if len(text) < 4 || text[0] != '.' && text[0] != ',' || strings.Trim(text[1:4], "0123456789") != "" {
				good = false
				break
			}
			ns, _ = frac(text[1:4])
			text = text[4:]
		case has("-07:00"):
			off, text, good = offset(text, true)
			hasOff = good
		case has("Z0700"):
			if strings.HasPrefix(text, "Z") {
				text = text[1:]
				off, hasOff = 0, true
				break
			}
			off, text, good = offset(text, false)
			hasOff = good
		case has("Z07:00"):
			if strings.HasPrefix(text, "Z") {
				text = text[1:]
				off, hasOff = 0, true
				break
			}
			off, text, good = offset(text, true)
			hasOff = good
		case has("-0700"):
			off, text, good = offset(text, false)
			hasOff = good
		case has("January"):
			mo, good = name(months, 0)
			mo++
		case has("Jan"):
			mo, good = name(months, 3)
			mo++
		case has("Monday"):
			_, good = name(days, 0)
		case has("Mon"):
			_, good = name(days, 3)
		case strings.HasPrefix(layout, "PM"), strings.HasPrefix(layout, "pm"):
			am := string([]byte{layout[0] - 'P' + 'A', layout[1]})
			hasPM = true
			if strings.HasPrefix(text, layout[:2]) {
				pm = true
			} else if !strings.HasPrefix(text, am) {
				good = false
				break
			}
			layout, text = layout[2:], text[2:]
		case has("1"):
			mo, good = num(1, 2)
			good = good && mo >= 1 && mo <= 12
		case has("_2"):
			if strings.HasPrefix(text, " ") {
				text = text[1:]
			}
			d, good = num(1, 2)
			daySet = true
		case has("2"):
			d, good = num(1, 2)
			daySet = true
		case has("3"):
			h, good = num(1, 2)
			hour12 = true
			good = good && h <= 12
		case has(" "): // a run of spaces stands for any run of spaces, or for the end of the text
			layout = strings.TrimLeft(layout, " ")
			good = text == "" || text[0] == ' '
			text = strings.TrimLeft(text, " ")
		default:
			good = text != "" && text[0] == layout[0]
			layout = layout[1:]
			if good {
				text = text[1:]
			}
		}
		if !good {
			return in, false, true
		}
	}
	if text != "" {
		return in, false, true
	}
	if yday >= 0 {
		if yday < 1 || yday > 365 && !(yday == 366 && leap(y)) {
			return in, false, true
		}
		for mo = 1; yday > MonthLen(y, mo); mo++ {
			yday -= MonthLen(y, mo)
		}
		d = yday
	}
	if daySet && (d < 1 || d > MonthLen(y, mo)) {
		return in, false, true
	}
	if hasPM {
		if pm && h < 12 {
			h += 12
		} else if !pm && h == 12 {
			h = 0
		}
	}
	_ = hour12
	if !hasOff {
		var k bool
		if off, k = Offset(zone, y, mo, d, h, mi); !k {
			return in, false, false
		}
	}
	return Instant{Days(y, mo, d)*86400 + int64(h*3600+mi*60+s-off), ns}, true, true
}

func frac(t string) (int, string) {
	n := 0
	v := 0
	for n < len(t) && t[n] >= '0' && t[n] <= '9' {
		if n < 9 {
			v = v*10 + int(t[n]-'0')
		}
		n++
	}
	for i := n; i < 9; i++ {
		v *= 10
	}
	return v, t[n:]
}

func offset(t string, colon bool) (int, string, bool) {
	n := 5
	if colon {
		n = 6
	}
	if len(t) < n || t[0] != '+' && t[0] != '-' {
		return 0, t, false
	}
	hm := t[1:3] + t[n-2:n]
	if colon && t[3] != ':' || strings.Trim(hm, "0123456789") != "" {
		return 0, t, false
	}
	h, _ := strconv.Atoi(hm[:2])
	m, _ := strconv.Atoi(hm[2:])
	if h > 24 || m > 59 {
		return 0, t, false
	}
	v := h*3600 + m*60
	if t[0] == '-' {
		v = -v
	}
	return v, t[n:], true
}
