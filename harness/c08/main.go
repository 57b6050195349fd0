// C08: the sleeper.
package main

import (
	"fmt"
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/lin"
	"verif.local/mc/mc/vsched"
	"verif.local/mc/mc/vtime"
)

const (
	forever = iota
	forN
	until
)

type call struct {
	kind int
	n    int64 // seconds, relative
}

func (c call) String() string {
	return [...]string{"SleepForever", fmt.Sprintf("SleepFor(%d)", c.n), fmt.Sprintf("SleepUntil(+%ds)", c.n)}[c.kind]
}

func do(s *sleepx.Sleeper, c call) bool {
	switch c.kind {
	case forever:
		return s.SleepForever()
	case forN:
		return s.SleepFor(time.Duration(c.n))
	}
	return s.SleepUntil(vsched.Now().Add(time.Duration(c.n) * time.Second))
}

const never = int64(1) << 62

func due(c call, now int64) int64 {
	switch {
	case c.kind == forever:
		return never
	case c.n <= 0:
		return now
	}
	return now + c.n*int64(time.Second)
}

// history: every sequence of operations in virtual time against an exact model.
func history(depth int) func() {
	calls := []call{{forever, 0}, {forN, 1}, {forN, 3}, {forN, 0}, {forN, -1}, {until, 2}, {until, 0}, {until, -5}}
	return func() {
		s := sleepx.New()
		type slp struct {
			t      *vsched.Thread
			res    vsched.Counter // 1 true 2 false
			at     vsched.Counter
			due    int64
			ending bool
		}
		var cur *slp // the model's sleep in progress
		settle := func(what string) {
			vsched.Quiesce(0)
			now := vsched.NowNanos()
			if cur == nil {
				return
			}
			if cur.ending || cur.due <= now {
				end := cur.due
				if cur.ending {
					end = now
				}
				if !cur.t.Done() {
					vsched.Fail("after %s: the sleep did not end", what)
				}
				if cur.res.Get() != 1 {
					vsched.Fail("after %s: the sleep returned false", what)
				}
				if cur.at.Get() != end {
					vsched.Fail("after %s: the sleep ended at %dns, want %dns", what, cur.at.Get(), end)
				}
				cur = nil
			} else if cur.t.Done() {
				vsched.Fail("after %s: the sleep ended at %dns without reason (due %dns)", what, cur.at.Get(), cur.due)
			}
		}
		for i := 0; i < depth; i++ {
			c := vsched.Choose(len(calls) + 3)
			switch {
			case c < len(calls):
				k := &slp{due: due(calls[c], vsched.NowNanos())}
				op := calls[c]
				start := vsched.NowNanos()
				k.t = vsched.GoNamed(op.String(), func() {
					r := do(s, op)
					if vsched.Aborting() {
						return
					}
					if r {
						k.res.Set(1)
					} else {
						k.res.Set(2)
					}
					k.at.Set(vsched.NowNanos())
				})
				if cur != nil {
					vsched.Quiesce(0)
					if !k.t.Done() {
						vsched.Fail("%s while a sleep is in progress blocks", op)
					}
					if k.res.Get() != 2 || k.at.Get() != start {
						vsched.Fail("%s while a sleep is in progress: returned %v at +%dns", op, k.res.Get() == 1, k.at.Get()-start)
					}
					settle("a refused " + op.String())
				} else {
					cur = k
					settle(op.String())
				}
			case c == len(calls):
				got := s.Wakeup()
				if want := cur != nil; got != want {
					vsched.Fail("Wakeup returned %v, sleep in progress: %v", got, want)
				}
				if got {
					cur.ending = true
				}
				settle("Wakeup")
			case c == len(calls)+1:
				vtime.Sleep(700 * time.Millisecond)
				settle("0.7s")
			case c == len(calls)+2:
				vtime.Sleep(2100 * time.Millisecond)
				settle("2.1s")
			}
		}
		// reusable afterwards
		if cur != nil && !s.Wakeup() {
			vsched.Fail("Wakeup fails with a sleep in progress")
		}
		vsched.Quiesce(0)
		var ok vsched.Counter
		t := vsched.GoNamed("last", func() {
			if s.SleepForever() {
				ok.Set(1)
			}
		})
		vsched.Quiesce(0)
		if t.Done() {
			vsched.Fail("a fresh SleepForever ended by itself")
		}
		if !s.Wakeup() {
			vsched.Fail("Wakeup fails with a sleep in progress")
		}
		vsched.Quiesce(0)
		if !t.Done() || ok.Get() != 1 {
			vsched.Fail("a fresh SleepForever cannot be woken")
		}
		vsched.Outcome("t=%d", vsched.NowNanos())
	}
}

// instants: one sleep of every length of a list, begun at odd times, looked at
// a nanosecond before its end and at it.
func instants() {
	const year = 365 * 24 * time.Hour
	units := []time.Duration{1, 2, 499, 500, 999, 1000, 1001, 1499, 99999, 100000, 500000, 999999, 1000000, 1000001, 1499999, 1500000, 1999999, 9999999, 15600000, 99999999, 499999999, 500000000, 999999999, 1000000000, 1000000001, 1499999999, 1999999999, 59999999999, 60000000001, time.Hour - 1, time.Hour + 1, 25*time.Hour + 1, 40*24*time.Hour + 1, year + 1, 100*year + 1, 200 * year}
	secs := []int64{1, 2, 59, 60, 61, 3599, 3601, 86399, 86401, 1 << 20, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 6 * 1e9}
	huge := []int64{10 * 1e9, 18446744073, 18446744074, 18446744075, 1 << 34, 1 << 40, 1<<55 + 1, 1 << 62, 1<<63 - 1}
	vtime.Sleep([]time.Duration{0, 1, 999999999, 1234567891, 86400*1e9 - 1}[vsched.Choose(5)])
	s := sleepx.New()
	var run func() bool
	now := vsched.NowNanos()
	end := now
	name := ""
	switch vsched.Choose(4) {
	case 0:
		n := secs[vsched.Choose(len(secs))]
		end += n * int64(time.Second)
		name, run = fmt.Sprintf("SleepFor(%d)", n), func() bool { return s.SleepFor(time.Duration(n)) }
	case 1:
		n := huge[vsched.Choose(len(huge))]
		end = never
		name, run = fmt.Sprintf("SleepFor(%d)", n), func() bool { return s.SleepFor(time.Duration(n)) }
		if vsched.Choose(2) == 1 {
			end = now
			name, run = fmt.Sprintf("SleepFor(%d)", -n), func() bool { return s.SleepFor(time.Duration(-n)) }
			if n == 1<<63-1 {
				run = func() bool { return s.SleepFor(time.Duration(-n - 1)) }
			}
		}
	case 2:
		d := units[vsched.Choose(len(units))]
		t := vsched.Now().Add(d)
		end += int64(d)
		if vsched.Choose(2) == 1 {
			t = vsched.Now().Add(-d)
			end = now
		}
		switch vsched.Choose(5) {
		case 1:
			t = t.UTC()
		case 2:
			t = t.In(time.FixedZone("x", 14*3600))
		case 3:
			t = t.In(time.FixedZone("y", -12*3600-1800))
		case 4:
			t = t.Round(0)
		}
		name, run = fmt.Sprintf("SleepUntil(%v), %v from now", t, d), func() bool { return s.SleepUntil(t) }
	case 3:
		t := []time.Time{{}, time.Unix(0, 0), time.Unix(-1<<40, 0), time.Unix(1<<40, 0), time.Unix(1<<55, 5), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC)}[vsched.Choose(7)]
		if t.After(vsched.Now()) {
			end = never
		}
		name, run = fmt.Sprintf("SleepUntil(%v)", t), func() bool { return s.SleepUntil(t) }
	}
	var res, at vsched.Counter
	th := vsched.GoNamed(name, func() {
		r := run()
		if vsched.Aborting() {
			return
		}
		at.Set(vsched.NowNanos())
		res.Set(2)
		if r {
			res.Set(1)
		}
	})
	vsched.Quiesce(0)
	if end == never {
		vtime.Sleep(100 * year)
		vsched.Quiesce(0)
		if th.Done() {
			vsched.Fail("%s ended after %dns by itself", name, at.Get()-now)
		}
		if !s.Wakeup() {
			vsched.Fail("Wakeup returned false during %s", name)
		}
		vsched.Quiesce(0)
		if !th.Done() || res.Get() != 1 {
			vsched.Fail("%s cannot be woken", name)
		}
		return
	}
	if end > now {
		if left := end - 1 - vsched.NowNanos(); left > 0 {
			vtime.Sleep(time.Duration(left))
		}
		vsched.Quiesce(0)
		if th.Done() {
			vsched.Fail("%s ended %dns early", name, end-at.Get())
		}
		vtime.Sleep(1)
		vsched.Quiesce(0)
	}
	if !th.Done() || res.Get() != 1 {
		vsched.Fail("%s did not end in time (returned: %v)", name, th.Done())
	}
	if at.Get() != end {
		vsched.Fail("%s ended at %dns, want %dns", name, at.Get(), end)
	}
	if s.Wakeup() {
		vsched.Fail("Wakeup returned true after %s", name)
	}
}

// st is the model of the concurrent units: which sleep is in progress and
// whether a Wakeup has ended it.
type st struct {
	id    int
	woken bool
}

type scenario struct {
	sleepers [][]call
	wakers   []int
}

func racing(sc scenario) func() {
	return func() {
		s := sleepx.New()
		h := &lin.History{}
		var ts, ws []*vsched.Thread
		next := 0
		sleeper := func(cs []call, first int) func() {
			return func() {
				for i, c := range cs {
					id := first + i
					start := h.Call(fmt.Sprintf("%s#%d begins", c, id))
					end := h.Call(fmt.Sprintf("%s#%d ends", c, id))
					dl := due(c, vsched.NowNanos())
					r := do(s, c)
					now := vsched.NowNanos()
					if !r {
						h.Return(start, "false", func(a any) (any, bool) { return a, a.(st).id != 0 })
						h.Return(end, "-", func(a any) (any, bool) { return a, true })
						continue
					}
					h.Return(start, "true", func(a any) (any, bool) { return st{id, false}, a.(st).id == 0 })
					h.Return(end, fmt.Sprintf("+%d", now), func(a any) (any, bool) {
						x := a.(st)
						return st{}, x.id == id && (x.woken || now >= dl)
					})
				}
			}
		}
		wake := func() bool {
			o := h.Call("Wakeup")
			r := s.Wakeup()
			h.Return(o, fmt.Sprint(r), func(a any) (any, bool) {
				x := a.(st)
				if !r {
					return x, x.id == 0
				}
				return st{x.id, true}, x.id != 0
			})
			return r
		}
		for _, cs := range sc.sleepers {
			first := next + 1
			next += len(cs)
			ts = append(ts, vsched.GoNamed("sleeper", sleeper(cs, first)))
		}
		for _, k := range sc.wakers {
			k := k
			ws = append(ws, vsched.GoNamed("waker", func() {
				for i := 0; i < k; i++ {
					wake()
				}
			}))
		}
		vsched.Join(ws...)
		vsched.EarlyClock(false)
		// every sleep can be ended from here on by waking it
		for round := 0; ; round++ {
			vsched.Quiesce(0)
			alive := 0
			for _, t := range ts {
				if !t.Done() {
					alive++
				}
			}
			if alive == 0 {
				break
			}
			if round > next {
				vsched.Fail("a sleep survives a Wakeup that reported true: %s", h.String())
			}
			if !wake() {
				vsched.Fail("Wakeup returned false with a sleep in progress: %s", h.String())
			}
		}
		if wake() {
			vsched.Fail("Wakeup returned true with nothing asleep: %s", h.String())
		}
		h.Require(st{}, nil)
		vsched.Outcome("%s", h.Results())
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C08",
		Level:       "model_checking",
		Rule:        "every sequence of sleep, wake-up and waiting operations to the depth bound in virtual time against an exact model; one sleep of each of a list of lengths, from a nanosecond to beyond what a Duration can tell, observed a nanosecond before its end and at it; every interleaving within the bounds of sleepers, wakers and timers, each history checked for linearizability against a sleep in progress / woken model",
		Bounds:      "operation sequences of length 5 (quick) or 6 (thorough) over 8 sleep calls, Wakeup and two waits; 1-2 sleepers with 1-2 sleeps, 1-2 wakers with 1-2 wake-ups; deviation bounds per unit",
		Assumptions: []string{"a sleep longer than 200 years counts as one that does not end by itself", "virtual time passes only when every goroutine is blocked, except for the early timers each unit allows"},
		Units: func(th bool) []drv.Unit {
			d := 5
			x := 0
			if th {
				d, x = 6, 1
			}
			us := []drv.Unit{{Name: "history", Thread: true, Delay: true, Shards: 4, Body: history(d)},
				{Name: "instants", Thread: true, Delay: true, Shards: 2, Split: 2, Body: instants}}
			add := func(name string, delay, preempt, early int, sc scenario) {
				us = append(us, drv.Bounds(drv.Unit{Exact: true, Name: name, Early: early, Steps: 3000, Body: racing(sc)}, delay+x, preempt+x)...)
			}
			fe, f1, u1 := call{forever, 0}, call{forN, 1}, call{until, 1}
			add("forever-two-wakers", 7, 4, 0, scenario{[][]call{{fe}}, []int{1, 1}})
			add("forever-twice", 7, 4, 0, scenario{[][]call{{fe, fe}}, []int{2}})
			add("forever-twice-two-wakers", 4, 1, 0, scenario{[][]call{{fe, fe}}, []int{1, 2}})
			add("two-sleepers", 6, 3, 0, scenario{[][]call{{fe}, {fe}}, []int{1}})
			add("two-sleepers-two-wakers", 4, 1, 0, scenario{[][]call{{fe}, {fe}}, []int{1, 1}})
			add("timed", 6, 3, 1, scenario{[][]call{{f1}}, []int{1}})
			add("timed-then-forever", 6, 3, 1, scenario{[][]call{{f1, fe}}, []int{2}})
			add("timed-twice", 6, 3, 2, scenario{[][]call{{f1, f1}}, []int{1}})
			add("until-then-timed", 4, 2, 2, scenario{[][]call{{u1, f1}}, []int{1, 1}})
			add("timed-and-until", 4, 1, 1, scenario{[][]call{{f1}, {u1}}, []int{1}})
			add("timed-and-forever", 4, 1, 1, scenario{[][]call{{f1}, {fe}}, []int{1, 1}})
			return us
		},
	})
}
