package h

import (
	"math"
	"time"

	"verif/harness/v"
)

// asOctets sends a value as a statement argument or in an expression position
// and returns the text the server gets.
func asOctets(a interface{}) []byte {
	x := pipe()
	var s *scalar
	switch k := v.Choose("place", nPlaces+2); k {
	case nPlaces:
		x.StmtExecute("SELECT ?", a)
		got := decStmtExecute(one(sent(x), cStmtExecute)).args
		v.Assert(len(got) == 1, "one argument")
		s = got[0]
	case nPlaces + 1:
		x.Execute(3, a)
		got := decExecute(one(sent(x), cExecute)).args
		v.Assert(len(got) == 1, "one argument")
		s = got[0]
	default:
		val := place(k, x, a)
		s = lit(val(sent(x)), "value")
	}
	v.Assert(s.typ == vOctets, "octets")
	v.Assert(s.content == 0, "plain content")
	return s.val
}

// num is any number of n decimal digits, as its value and its digits.
func num(name string, n int, max ...int) (x int, ds []int) {
	for i := 0; i < n; i++ {
		hi := 9
		if i < len(max) {
			hi = max[i]
		}
		d := v.Int(name+names[i], 0, hi)
		x = x*10 + d
		ds = append(ds, d)
	}
	return x, ds
}

// spells: b[i:] begins with the given digits.
func spells(b []byte, i int, ds []int, msg string) {
	for k, d := range ds {
		v.Assert(int(b[i+k]) == '0'+d, msg)
	}
}

func isTime(b []byte, y, mo, d, h, mi, s, ns []int) {
	v.Assert(len(b) == 29, "YYYY-MM-DD HH:MM:SS.fffffffff")
	v.Assert(b[4] == '-' && b[7] == '-' && b[10] == ' ' && b[13] == ':' && b[16] == ':' && b[19] == '.', "separators")
	spells(b, 0, y, "year")
	spells(b, 5, mo, "month")
	spells(b, 8, d, "day")
	spells(b, 11, h, "hour")
	spells(b, 14, mi, "minute")
	spells(b, 17, s, "second")
	spells(b, 20, ns, "nanosecond")
}

var monthDays = [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// dayNumber is the number of days from 1970-01-01 to a date.
func dayNumber(y, m, d int) int {
	return int(time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Unix() / 86400)
}

func monthLen(y, m int) int {
	if m == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		return 29
	}
	return monthDays[m-1]
}

// C04_Time: every nanosecond of every day of years 0 to 9999, in any zone.
func C04_Time() {
	y, yd := num("year", 4)
	m, md := num("month", 2, 1)
	d, dd := num("day", 2, 3)
	v.Assume(m >= 1 && m <= 12 && d >= 1 && d <= 31)
	h := v.Int("hour", 0, 23)
	mi, mid := num("minute", 2, 5)
	s, sd := num("second", 2, 5)
	ns, nd := num("nano", 9)
	zone := time.UTC
	off := 0
	if v.Choose("zone", 2) == 1 {
		off = v.Int("offset", -14*3600, 14*3600)
		zone = time.FixedZone("Z", off)
	}
	var days int
	if v.Symbolic() {
		// The calendar is Go's, not the code's: the engine takes the day number
		// and its date as related by an arbitrary function.
		days = v.Int("daynumber", -719528, 2932896)
		// Go counts days from 1 March of the absolute year 0.
		v.RegDate(uint64(days)+(292277022400*365.2425+306+719162), y, m, d)
	} else {
		v.Assume(d <= monthLen(y, m))
		days = dayNumber(y, m, d)
	}
	t := time.Unix(int64(days)*86400+int64(h)*3600+int64(mi)*60+int64(s)-int64(off), int64(ns)).In(zone)
	isTime(asOctets(t), yd, md, dd, []int{h / 10, h % 10}, mid, sd, nd)
}

func isDuration(b []byte, neg bool, h, m, s []int) {
	i := 0
	zero := true
	for _, d := range m {
		zero = zero && d == 0
	}
	for _, d := range s {
		zero = zero && d == 0
	}
	for _, d := range h {
		zero = zero && d == 0
	}
	if len(b) > 0 && b[0] == '-' {
		i = 1
		v.Assert(neg || zero, "no minus sign for a positive duration")
	} else {
		v.Assert(!neg || zero, "minus sign for a negative duration")
	}
	for len(h) > 1 && h[0] == 0 && len(b)-i-6 < len(h) {
		h = h[1:]
	}
	n := len(b) - i - 6
	v.Assert(n == len(h), "[-]H:MM:SS")
	v.Assert(b[i+n] == ':' && b[i+n+3] == ':', "separators")
	spells(b, i, h, "hours")
	spells(b, i+n+1, m, "minutes")
	spells(b, i+n+4, s, "seconds")
}

// hours is any number of hours below 2562047, in ranges that keep the digits
// independent of each other.
func hours() (int, []int) {
	pre := [][]int{{}, {2}, {2, 5}, {2, 5, 6}, {2, 5, 6, 2, 0}, {2, 5, 6, 2, 0, 4}}
	hi := []int{1, 4, 5, 1, 3, 6}
	k := v.Choose("range", len(pre))
	x, ds := num("hours", 7-len(pre[k]), hi[k])
	ds = append(append([]int{}, pre[k]...), ds...)
	for i, d := range pre[k] {
		for j := i; j < 6; j++ {
			d *= 10
		}
		x += d
	}
	return x, ds
}

// C04_Duration: every duration.
func C04_Duration() {
	h, hd := hours()
	m, md := num("minutes", 2, 5)
	s, sd := num("seconds", 2, 5)
	ns := v.Int("nanos", 0, 999999999)
	neg := v.Choose("negative", 2) == 1
	d := time.Duration((((h*60+m)*60)+s)*1000000000 + ns)
	if neg {
		d = -d
	}
	isDuration(asOctets(d), neg, hd, md, sd)
}

var lastHour = []int{2, 5, 6, 2, 0, 4, 7}

// C04_DurationEnds: the last, incomplete, hour of the range and both extremes.
func C04_DurationEnds() {
	m, md := num("minutes", 2, 4)
	s, sd := num("seconds", 2, 5)
	v.Assume(m < 47 || m == 47 && s <= 16)
	ns := v.Int("nanos", 0, 999999999)
	v.Assume(m < 47 || s < 16 || ns <= 854775807)
	neg := v.Choose("negative", 2) == 1
	d := time.Duration((((2562047*60+m)*60)+s)*1000000000 + ns)
	if neg {
		d = -d
	}
	isDuration(asOctets(d), neg, lastHour, md, sd)
}

// C04_DurationMin: the one duration whose negation overflows.
func C04_DurationMin() {
	isDuration(asOctets(time.Duration(math.MinInt64)), true, lastHour, []int{4, 7}, []int{1, 6})
}

// C04_Pointer: pointers to times and durations as statement arguments.
func C04_Pointer() {
	sec, sd := num("sec", 2, 5)
	ns, nd := num("nano", 9)
	n, dd := num("dur", 2, 5)
	t := time.Unix(int64(sec), int64(ns)).UTC()
	d := time.Duration(n) * time.Second
	null := v.Choose("null", 2) == 1
	x := pipe()
	if null {
		x.StmtExecute("SELECT ?,?", (*time.Time)(nil), (*time.Duration)(nil))
	} else {
		x.StmtExecute("SELECT ?,?", &t, &d)
	}
	got := decStmtExecute(one(sent(x), cStmtExecute)).args
	v.Assert(len(got) == 2, "two arguments")
	if null {
		isNull(got[0], "time")
		isNull(got[1], "duration")
		return
	}
	v.Assert(got[0].typ == vOctets && got[1].typ == vOctets, "octets")
	zz := []int{0, 0}
	isTime(got[0].val, []int{1, 9, 7, 0}, []int{0, 1}, []int{0, 1}, zz, zz, sd, nd)
	isDuration(got[1].val, false, []int{0}, zz, dd)
}
