// T03: the time differ measures the last start to the last end, in UTC.
package main

import (
	"math"
	"time"

	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

func inUTC(what string, t time.Time) {
	if t.Location() != time.UTC {
		vsched.Fail("%s is in zone %v", what, t.Location())
	}
}

func same(what string, got, want time.Time) {
	if !got.Equal(want) || got.IsZero() != want.IsZero() {
		vsched.Fail("%s is %v, want %v", what, got, want)
	}
	inUTC(what, got)
}

type world struct {
	d          *diffx.Differ
	start, end time.Time
}

func (w *world) observe() {
	drv.NoPanic("reading the differ", func() {
		same("GetStart", w.d.GetStart(), w.start)
		same("GetEnd", w.d.GetEnd(), w.end)
		if !w.start.IsZero() && !w.end.IsZero() {
			drv.Eq("GetDiff", w.d.GetDiff(), w.end.Sub(w.start))
		}
	})
}

// readClock: the instant a call returns must be one between its beginning and
// its end; the clock moves at every read.
func between(what string, f func(), got func() time.Time) time.Time {
	a := vsched.Now()
	drv.NoPanic(what, f)
	t := got()
	if t.Before(a) || t.After(vsched.Now()) {
		vsched.Fail("%s took the instant %v, it ran from %v to %v", what, t, a, vsched.Now())
	}
	return t
}

var steps = []time.Duration{1, time.Second, -1, 36 * time.Hour} // -1: several units of everything

func advance(i int) {
	d := steps[i]
	if d < 0 {
		d = 400*24*time.Hour + 7*time.Hour + 11*time.Minute + 13*time.Second + 123456789
	}
	vsched.Advance(d)
}

// history: every sequence of Start, End, clock steps and reads on two differs.
func history(depth, differs int, stepping int64) func() {
	return func() {
		vsched.ClockStep = stepping
		defer func() { vsched.ClockStep = 0 }()
		ws := make([]*world, differs)
		for i := range ws {
			ws[i] = &world{d: diffx.New()}
		}
		for i := 0; i < depth; i++ {
			w := ws[0]
			if differs > 1 {
				w = ws[vsched.Choose(differs)]
			}
			switch op := vsched.Choose(2 + len(steps)); op {
			case 0:
				w.start = between("Start", w.d.Start, w.d.GetStart)
			case 1:
				w.end = between("End", w.d.End, w.d.GetEnd)
			default:
				advance(op - 2)
			}
			for _, v := range ws {
				v.observe()
			}
		}
	}
}

// zones: in every local zone.
func zones() {
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("zone", (vsched.Choose(53)-24)*1800)
	history(3, 1, 0)()
	same("Now", timex.Now(), vsched.Now())
	same("Custom", timex.Custom(86399, 5), time.Date(1970, 1, 1, 23, 59, 59, 5, time.UTC))
}

func now() {
	vsched.ClockStep = []int64{0, 1, 1e9}[vsched.Choose(3)]
	defer func() { vsched.ClockStep = 0 }()
	for i := 0; i < 4; i++ {
		t := between("Now", func() {}, timex.Now)
		inUTC("Now", t)
		advance(vsched.Choose(len(steps)))
	}
}

// custom: every pair of boundary seconds and nanoseconds.
func custom() {
	secs := []int64{math.MinInt64 / 2, -62135596801, -62135596800, -1 << 40, -1 << 32, -86401, -86400, -2, -1, 0, 1, 2, 59, 86399, 86400, 1<<31 - 1, 1 << 31, 1 << 32, 253402300799, 253402300800, math.MaxInt64 / 2}
	nsecs := []int64{math.MinInt64, math.MinInt64 + 1, -2e9 - 1, -2e9, -1e9 - 1, -1e9, -1e9 + 1, -2, -1, 0, 1, 2, 999, 1e3, 1e6, 5e8, 1e9 - 1, 1e9, 1e9 + 1, 2e9 - 1, 2e9, 1 << 32, math.MaxInt64 - 1, math.MaxInt64}
	sec := secs[vsched.Choose(len(secs))]
	nsec := nsecs[vsched.Choose(len(nsecs))]
	var t time.Time
	drv.NoPanic("Custom", func() { t = timex.Custom(sec, nsec) })
	inUTC("Custom", t)
	q, r := nsec/1e9, nsec%1e9
	if r < 0 {
		q, r = q-1, r+1e9
	}
	if t.Unix() != sec+q || int64(t.Nanosecond()) != r {
		vsched.Fail("Custom(%d, %d) is %d seconds and %d nanoseconds, want %d and %d", sec, nsec, t.Unix(), t.Nanosecond(), sec+q, r)
	}
	if sec >= 0 && sec <= 1e12 && nsec >= 0 && nsec < 1e9 {
		// its clock face is that of UTC
		h, m, s := t.Clock()
		if int64(h*3600+m*60+s) != sec%86400 {
			vsched.Fail("Custom(%d, %d) shows %02d:%02d:%02d", sec, nsec, h, m, s)
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "T03",
		Level:       "model_checking",
		Rule:        "every sequence of Start, End and four clock steps under a virtual clock that stands still or moves at every read, on one and two differs, all getters compared after each step; in 53 local zones; Now at every point; Custom for every pair of boundary seconds and nanoseconds",
		Bounds:      "sequences of 6 (8) on one differ and 4 (5) on two",
		Assumptions: []string{"the difference before the first Start or End is not judged"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "history", Shards: 8, Split: 2, Body: history(x(6, 8), 1, 0)},
				{Name: "history-moving", Shards: 8, Split: 2, Body: history(x(6, 7), 1, 1e9)},
				{Name: "two", Shards: 8, Split: 2, Body: history(x(4, 5), 2, 7)},
				{Name: "zones", Body: zones},
				{Name: "now", Body: now},
				{Name: "custom", Body: custom},
			}
		},
	})
}
