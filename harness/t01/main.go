// T01: time truncation gives the start of the enclosing UTC unit.
package main

import (
	"fmt"
	"math"
	"time"

	"github.com/unsafe-risk/utilx/timex/truncatex"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// The oracle counts days of the proleptic Gregorian calendar itself.

func leap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y int64, m int) int64 {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// yearStart is the day number (1970-01-01 is 0) of January 1st of year y.
func yearStart(y int64) int64 {
	p := y - 1
	return p*365 + floorDiv(p, 4) - floorDiv(p, 100) + floorDiv(p, 400) - 719162
}

const (
	day  = 86400
	week = 7 * day
	// seconds from the epoch to the start of year 1, a Monday
	yearOne = -719162 * day
)

type unit struct {
	name string
	f    func(int64) int64
	size int64
}

var units = []unit{
	{"TruncateSec", truncatex.TruncateSec, 1},
	{"TruncateMin", truncatex.TruncateMin, 60},
	{"TruncateHour", truncatex.TruncateHour, 3600},
	{"TruncateDay", truncatex.TruncateDay, day},
	{"TruncateWeek", truncatex.TruncateWeek, week},
}

func eq(name string, sec, got, want int64) {
	if got != want {
		vsched.Fail("%s(%d) [%s] is %d, want %d", name, sec, time.Unix(sec, 0).UTC().Format(time.RFC3339), got, want)
	}
}

func call(name string, f func(int64) int64, sec int64) (r int64) {
	drv.NoPanic(name, func() { r = f(sec) })
	return
}

// instant checks every unit at one instant of the given date.
func instant(sec, y0, m0 int64) {
	for _, u := range units {
		want := floorDiv(sec-yearOne, u.size)*u.size + yearOne
		got := call(u.name, u.f, sec)
		eq(u.name, sec, got, want)
		if got > sec || sec-got >= u.size {
			vsched.Fail("%s(%d) is %d", u.name, sec, got)
		}
		eq(u.name, got, call(u.name, u.f, got), got)
	}
	eq("TruncateMonth", sec, call("TruncateMonth", truncatex.TruncateMonth, sec), m0)
	eq("TruncateYear", sec, call("TruncateYear", truncatex.TruncateYear, sec), y0)
}

var moments = []int64{0, 1, 59, 60, 61, 3599, 3600, 43199, 43200, 86340, 86399}

// years checks all (or the outer) days of a year.
func years(from, n int64, all bool, moments []int64) func() {
	return func() {
		y := from + int64(vsched.Choose(int(n)))
		first := yearStart(y)
		d := first
		y0 := first * day
		for m := 1; m <= 12; m++ {
			m0 := d * day
			k := monthDays(y, m)
			for i := int64(0); i < k; i++ {
				if all || i < 2 || i >= k-3 || m == 1 && i < 8 || m == 12 && i >= k-8 {
					for _, s := range moments {
						instant((d+i)*day+s, y0, m0)
					}
				}
			}
			d += k
		}
		if d != yearStart(y+1) {
			vsched.Fail("harness: year %d", y)
		}
		// the seconds around the turn of the year
		instant(y0-1, yearStart(y-1)*day, (first-31)*day)
		eq("TruncateYear", d*day, truncatex.TruncateYear(d*day), d*day)
	}
}

// seconds: every second of one day, and of the hours around some midnights.
func seconds(days []int64) func() {
	return func() {
		d := days[vsched.Choose(len(days))]
		h := int64(vsched.Choose(24))
		t := time.Unix(d*day, 0).UTC()
		y0 := yearStart(int64(t.Year())) * day
		m0 := (d - int64(t.Day()) + 1) * day
		for s := h * 3600; s < (h+1)*3600; s++ {
			instant(d*day+s, y0, m0)
		}
	}
}

// general: Truncate with every width at instants around its multiples.
func general(widths []int64) func() {
	return func() {
		w := widths[vsched.Choose(len(widths))]
		var at []int64
		for _, base := range []int64{yearOne, yearOne + w, 0, -1, 1, 951782400, 1700000000, 4102444800, 32503680000, 253402300799, 16725225600} {
			k := floorDiv(base-yearOne, w)
			for j := int64(-2); j <= 2; j++ {
				m := (k+j)*w + yearOne
				at = append(at, m-1, m, m+1, m+w/2, m+w-1)
			}
			at = append(at, base)
		}
		for _, sec := range at {
			if sec < yearOne || sec > 1<<53 {
				continue
			}
			want := floorDiv(sec-yearOne, w)*w + yearOne
			var got int64
			drv.NoPanic("Truncate", func() { got = truncatex.Truncate(sec, w) })
			eq(fmt.Sprintf("Truncate by %d", w), sec, got, want)
			if got > sec || sec-got >= w {
				vsched.Fail("Truncate(%d, %d) is %d", sec, w, got)
			}
			eq(fmt.Sprintf("Truncate by %d", w), got, truncatex.Truncate(got, w), got)
		}
	}
}

// small: every width and every instant of a range (monotone, multiples).
func small(max int64, span int64) func() {
	return func() {
		w := 1 + int64(vsched.Choose(int(max)))
		from := []int64{yearOne, -span / 2, 1700000000}[vsched.Choose(3)]
		last := int64(math.MinInt64)
		for s := from; s < from+span; s++ {
			got := truncatex.Truncate(s, w)
			eq(fmt.Sprintf("Truncate by %d", w), s, got, floorDiv(s-yearOne, w)*w+yearOne)
			if got < last {
				vsched.Fail("Truncate by %d is not monotone at %d", w, s)
			}
			last = got
		}
	}
}

// zones: the local zone does not matter.
func zones(hours []int) func() {
	return func() {
		old := time.Local
		defer func() { time.Local = old }()
		h := hours[vsched.Choose(len(hours))]
		time.Local = time.FixedZone("zone", h*1800)
		years(1970+int64(vsched.Choose(60)), 1, false, []int64{0, 43200, 86399})()
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "T01",
		Level:       "model_checking",
		Rule:        "every year of a range: every day (or every day near a month's, year's edge) at eleven moments around second, minute, hour, noon and midnight boundaries, every unit, against day counting by the calendar rules; every second of chosen days; every small width over every instant of three ranges; larger widths around their multiples; 49 local zones",
		Bounds:      "all days of years 1601..2400 (1..4800), edges of years 1..9998; widths 1..130 (1..700) over 3 x 2000 instants and 40 larger ones up to 9.2e9 seconds",
		Assumptions: []string{"instants of the years 1 to 9998"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			var hours []int
			for h := -24; h <= 28; h++ {
				hours = append(hours, h)
			}
			widths := []int64{1, 2, 3, 5, 7, 10, 59, 60, 61, 90, 100, 999, 1000, 1800, 3599, 3600, 3601, 5400, 7200, 43200, 86399, 86400, 86401, 172800, 604799, 604800, 604801, 1209600, 2592000, 2629746, 31536000, 31556952, 31622400, 315360000, 1000000000, 4294967295, 4294967296, 9000000000, 9223372035, 9223372036}
			us := []drv.Unit{
				{Name: "days", Shards: 8, Split: 1, Body: years(1601, 800, true, []int64{0, 1, 43200, 86399})},
				{Name: "moments", Shards: 8, Split: 1, Body: years(1890, 220, true, moments)},
				{Name: "edges", Shards: 8, Split: 1, Body: years(2, 9997, false, []int64{0, 86399})},
				{Name: "seconds", Shards: 8, Split: 2, Body: seconds([]int64{0, 19782, 11016, -1, 10956})},
				{Name: "general", Body: general(widths)},
				{Name: "small", Shards: 8, Split: 1, Body: small(int64(x(130, 700)), int64(x(2000, 4000)))},
				{Name: "zones", Shards: 8, Split: 1, Body: zones(hours)},
			}
			if th {
				us = append(us, drv.Unit{Name: "all-days", Shards: 8, Split: 1, Body: years(2, 4799, true, moments)})
			}
			return us
		},
	})
}
