// C03: the worker pool never exceeds its limit and refuses only when full or
// stopped.
package main

import (
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"verif.local/mc/harness/gp"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
	"verif.local/mc/mc/vtime"
)

// clocks: the idle timeout and the collection period, in either order.
var clocks = [][2]time.Duration{{100, 10}, {100, 1000}, {10, 100}, {100, 100}, {1000, 7}, {1 << 40, 10}}

func ctor() {
	max := drv.Pick[int64](-1<<63, -1, 0, 1, 2, 5, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<62, 1<<63-1)
	it := drv.Pick[time.Duration](-1<<63, -1, 0, 1, time.Second, 1<<63-1)
	gc := drv.Pick[time.Duration](-1<<63, -1, 0, 1, time.Second, 1<<63-1)
	pre := drv.Pick(-1<<63, -1, 0, 1, 2, 7)
	var h func(int)
	nilH := vsched.Choose(2) == 1
	if !nilH {
		h = func(int) {}
	}
	p, err := gopoolx.NewTimedPool(max, h, it, gc, pre)
	bad := max <= 0 || it <= 0 || gc <= 0 || nilH
	if bad {
		drv.Require(err != nil, "constructor accepted max=%d idle=%d period=%d nil handler=%v", max, it, gc, nilH)
		vsched.Outcome("refused: %v", err)
		return
	}
	drv.Require(err == nil && p != nil, "constructor refused max=%d idle=%d period=%d preheat=%d: %v", max, it, gc, pre, err)
	vsched.Quiesce(0)
	if w := p.Workers(); w < 0 || w > max {
		vsched.Fail("limit %d, preheat %d: %d workers", max, pre, w)
	}
	p.Stop()
	vsched.Outcome("built")
}

// history runs every operation sequence of the given length with handlers that
// the history releases one by one.
func history(n int64, preheat, depth, nclocks int) func() {
	return func() {
		ci := vsched.Choose(nclocks)
		ck := clocks[ci]
		depth := depth
		if ci > 0 {
			depth--
		}
		var inflight vsched.Counter
		gates := make([]vsched.Gate, depth+1)
		p, err := gopoolx.NewTimedPool(n, func(id int) {
			if k := inflight.Add(1); k > n {
				vsched.Fail("%d handlers run at once, limit %d", k, n)
			}
			gates[id].Wait()
			inflight.Add(-1)
		}, ck[0], ck[1], preheat)
		if err != nil {
			vsched.Fail("constructor: %v", err)
		}
		vsched.Quiesce(0)
		var live []int
		next := 0
		for i := 0; i < depth; i++ {
			switch vsched.Choose(5) {
			case 0:
				ok := p.Run(next)
				vsched.Trace("Run -> %v with %d in progress", ok, len(live))
				if want := int64(len(live)) < n; ok != want {
					vsched.Fail("limit %d, preheat %d, %d tasks in progress: Run returned %v", n, preheat, len(live), ok)
				}
				if ok {
					live = append(live, next)
				}
				next++
			case 1:
				if len(live) > 0 {
					gates[live[0]].Open()
					live = live[1:]
				}
			case 2:
				if len(live) > 1 {
					gates[live[len(live)-1]].Open()
					live = live[:len(live)-1]
				}
			case 3:
				vtime.Sleep(45)
			case 4:
				vtime.Sleep(155)
			}
			vsched.Quiesce(0)
			if inflight.Get() != int64(len(live)) {
				vsched.Fail("%d tasks in progress, %d handlers running", len(live), inflight.Get())
			}
			if w := p.Workers(); w > n || w < int64(len(live)) {
				vsched.Fail("limit %d, preheat %d: %d workers reported with %d tasks in progress", n, preheat, w, len(live))
			}
		}
		vsched.Outcome("peak=%d", inflight.Max())
	}
}

// crowd: pools of many workers, filled, part of them released, any time
// passing, and filled again.
func crowd(rounds int, sizes ...int64) func() {
	return func() { crowdOf(rounds, drv.Pick(sizes...)) }
}

func crowdOf(rounds int, n int64) {
	ck := clocks[vsched.Choose(len(clocks))]
	pre := []int{0, 3, 50}[vsched.Choose(3)]
	var inflight vsched.Counter
	var gates [200]vsched.Gate
	p, err := gopoolx.NewTimedPool(n, func(id int) {
		if k := inflight.Add(1); k > n {
			vsched.Fail("%d handlers run at once, limit %d", k, n)
		}
		gates[id].Wait()
		inflight.Add(-1)
	}, ck[0], ck[1], pre)
	if err != nil {
		vsched.Fail("constructor: %v", err)
	}
	vsched.Quiesce(0)
	next := 0
	var live []int
	for round := 0; round < rounds; round++ {
		for int64(len(live)) < n {
			if !p.Run(next) {
				vsched.Fail("limit %d, idle timeout %d, period %d: %d tasks in progress, Run is refused", n, ck[0], ck[1], len(live))
			}
			live = append(live, next)
			next++
			vsched.Quiesce(0)
		}
		if p.Run(199) {
			vsched.Fail("limit %d: a further task is accepted", n)
		}
		if w := p.Workers(); w != n {
			vsched.Fail("limit %d, all busy: %d workers reported", n, w)
		}
		k := []int{1, len(live) / 2, len(live)}[vsched.Choose(3)]
		for _, id := range live[:k] {
			gates[id].Open()
		}
		live = live[k:]
		vsched.Quiesce(0)
		vtime.Sleep([]time.Duration{0, 1, 45, 155, 2100}[vsched.Choose(5)])
		vsched.Quiesce(0)
		if w := p.Workers(); w > n || w < int64(len(live)) {
			vsched.Fail("limit %d: %d workers reported with %d tasks in progress", n, w, len(live))
		}
		if inflight.Get() != int64(len(live)) {
			vsched.Fail("%d tasks in progress, %d handlers running", len(live), inflight.Get())
		}
	}
}

type cfg struct {
	n       int64
	preheat int
	seqPre  int
	subs    []int
	monitor bool
	stop    bool
}

func racing(c cfg) func() {
	return func() {
		var inflight vsched.Counter
		p, err := gopoolx.NewTimedPool(c.n, func(id int) {
			if k := inflight.Add(1); k > c.n {
				vsched.Fail("%d handlers run at once, limit %d", k, c.n)
			}
			vsched.Point("handler")
			inflight.Add(-1)
		}, 1, 10, c.preheat)
		if err != nil {
			vsched.Fail("constructor: %v", err)
		}
		for i := 0; i < c.seqPre; i++ {
			p.Run(i)
			vsched.Quiesce(0)
		}
		check := func() {
			if w := p.Workers(); w > c.n || w < 0 {
				vsched.Fail("limit %d: %d workers reported", c.n, w)
			}
		}
		var ts []*vsched.Thread
		for _, k := range c.subs {
			k := k
			ts = append(ts, vsched.GoNamed("submitter", func() {
				for i := 0; i < k; i++ {
					p.Run(i)
				}
			}))
		}
		if c.monitor {
			ts = append(ts, vsched.GoNamed("monitor", func() { check(); check() }))
		}
		if c.stop {
			ts = append(ts, vsched.GoNamed("stopper", p.Stop))
		}
		vsched.Join(ts...)
		vsched.Quiesce(2)
		check()
		if !c.stop {
			// settled with nothing in progress: it must take a task
			if !p.Run(0) {
				vsched.Fail("limit %d: nothing in progress, yet Run is refused", c.n)
			}
		} else if p.Run(0) {
			vsched.Fail("stopped, yet Run is accepted")
		}
		vsched.Quiesce(0)
		check()
		vsched.Outcome("peak=%d", inflight.Max())
	}
}

func main() {
	drv.Main(drv.Check{
		ID:     "C03",
		Level:  "model_checking",
		Rule:   "every constructor argument combination from boundary values; every history of submit/release/wait operations to the depth bound against a counter of tasks in progress; every interleaving within the bounds of submitters, workers, collector, Stop and a Workers() monitor",
		Bounds: "limit 1-3, preheat 0-3; histories of 6 (quick) or 8 (thorough) operations (one less for the other clocks), idle timeouts shorter than, equal to and longer than the collection period; pools of 5 and 17 (and 40) workers filled two (three) times; 2-3 submitters; deviation bounds per unit; " + gp.Bounds,
		Assumptions: []string{"scheduling points at every lock, channel, clock and pool operation",
			"'settled' means that no goroutine of the pool can move without the clock"},
		Units: func(th bool) []drv.Unit {
			us := []drv.Unit{{Name: "constructor", Thread: true, Delay: true, Shards: 8, Split: 2, Body: ctor}}
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			us = append(us, drv.Unit{Name: "crowd", Thread: true, Delay: true, Steps: 100000, Pool: 0, Shards: 8, Split: 3, Body: crowd(x(2, 3), []int64{5, 17, 40}[:x(2, 3)]...)})
			depth := 6
			if th {
				depth = 8
			}
			for n := int64(1); n <= 2; n++ {
				for pre := 0; pre <= 3; pre++ {
					us = append(us, drv.Unit{Name: "history-" + string(rune('0'+n)) + "-preheat-" + string(rune('0'+pre)), Thread: true, Delay: true, Shards: 2, Pool: 0, Body: history(n, pre, depth, x(3, 6))})
				}
			}
			if th {
				us = append(us, drv.Unit{Name: "history-3", Thread: true, Delay: true, Shards: 4, Pool: 0, Body: history(3, 0, depth, 3)})
				us = append(us, drv.Unit{Name: "history-3-preheat-2", Thread: true, Delay: true, Shards: 4, Pool: 0, Body: history(3, 2, depth, 3)})
			}
			add := func(name string, delay, preempt, early int, c cfg) {
				if th {
					delay++
					preempt++
				}
				us = append(us, drv.Bounds(drv.Unit{Name: name, Early: early, Steps: 4000, Pool: 1, PoolDev: true, Body: racing(c)}, delay, preempt)...)
			}
			add("limit-1", 3, 1, 1, cfg{n: 1, subs: []int{1, 1}, monitor: true})
			add("limit-2", 3, 0, 1, cfg{n: 2, subs: []int{1, 1, 1}, monitor: true})
			add("limit-1-reuse", 3, 0, 1, cfg{n: 1, seqPre: 1, subs: []int{2, 1}, monitor: true})
			add("limit-1-preheat-2", 3, 0, 1, cfg{n: 1, preheat: 2, subs: []int{2}, monitor: true})
			add("limit-2-preheat-2", 3, 0, 1, cfg{n: 2, preheat: 2, subs: []int{1, 2}})
			add("stopping", 3, 0, 1, cfg{n: 1, seqPre: 1, subs: []int{1, 1}, stop: true})
			us = append(us, gp.Unit(gp.Limit, th), gp.Marathon(gp.Limit, th))
			return us
		},
	})
}
