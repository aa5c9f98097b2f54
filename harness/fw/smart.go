package fw

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

var smartForms = []*regexp.Regexp{
	regexp.MustCompile(`^([0-9]{4})$`),
	regexp.MustCompile(`^([0-9]{4})([/.-])([0-9]{2})$`),
	regexp.MustCompile(`^([0-9]{2})([/.-])([0-9]{2})$`),
	regexp.MustCompile(`^([0-9]{4})([/.-])([0-9]{2})([/.-])([0-9]{2})$`),
}

func daysIn(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// SmartDate is the model of the short date forms
func SmartDate(s string, thisYear int) (string, bool) {
	n := func(x string) int { v, _ := strconv.Atoi(x); return v }
	y, m, d := 0, 1, 1
	if g := smartForms[0].FindStringSubmatch(s); g != nil {
		y = n(g[1])
	} else if g := smartForms[1].FindStringSubmatch(s); g != nil {
		y, m = n(g[1]), n(g[3])
	} else if g := smartForms[2].FindStringSubmatch(s); g != nil {
		y, m, d = thisYear, n(g[1]), n(g[3])
	} else if g := smartForms[3].FindStringSubmatch(s); g != nil && g[2] == g[4] {
		y, m, d = n(g[1]), n(g[3]), n(g[5])
	} else {
		return "", false
	}
	if m < 1 || m > 12 || d < 1 || d > daysIn(y, m) {
		return "", false
	}
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d), true
}

// SmartText draws a short date or nearly one
func SmartText(t *rapid.T) string {
	sep := OneOf(t, "sep", "/", ".", "-")
	y := OneOf(t, "year", "2020", "2019", "2021", "2000", "1900", "2100", "1999", "2024", strconv.Itoa(Int(t, 1000, 9998, "anyyear")))
	m := fmt.Sprintf("%02d", Int(t, 1, 12, "month"))
	d := fmt.Sprintf("%02d", OneOf(t, "day", Int(t, 1, 28, "anyday"), 1, 28, 29, 30, 31))
	if Chance(t, 5, "february") {
		m = "02"
	}
	if Chance(t, 8, "badmonth") {
		m = OneOf(t, "badmonth", "00", "13", "99", "1", "012", "6", "")
	}
	if Chance(t, 8, "badday") {
		d = OneOf(t, "badday", "00", "32", "99", "1", "001", "9", "", "31")
	}
	if Chance(t, 12, "badyear") {
		y = OneOf(t, "badyear", "20", "202", "20200", "+202", "-202", "2O20", "", "٢٠٢٠", " 202", "1e3x", "+999")
	}
	var s string
	switch Int(t, 0, 3, "form") {
	case 0:
		s = y
	case 1:
		s = y + sep + m
	case 2:
		s = m + sep + d
	case 3:
		s2 := sep
		if Chance(t, 10, "mixed") {
			s2 = OneOf(t, "sep2", "/", ".", "-", "", " ", ":")
		}
		s = y + sep + m + s2 + d
	}
	if Chance(t, 8, "odd") {
		switch Int(t, 0, 4, "oddity") {
		case 0:
			s = OneOf(t, "prefix", " ", "+", "-", "/", "0", "x", ".") + s
		case 1:
			s += OneOf(t, "suffix", " ", "/", "-", "0", "x", "/01", ".", "T00:00", "\n")
		case 2:
			i := Int(t, 0, len(s), "at")
			s = s[:i] + OneOf(t, "inserted", "0", "1", "/", "-", ".", " ", "é") + s[i:]
		case 3:
			if len(s) > 0 {
				i := Int(t, 0, len(s)-1, "at")
				s = s[:i] + s[i+1:]
			}
		case 4:
			s = strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return r - '0' + '٠'
				}
				return r
			}, s)
		}
	}
	// the first years of the calendar are out of the domain
	if d, ok := SmartDate(s, 2020); ok && d < "1000" {
		return "1000"
	}
	return s
}
