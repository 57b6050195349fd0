// C02: the worker pool runs every accepted task exactly once.
package main

import (
	"fmt"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"verif.local/mc/harness/gp"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type task struct{ id, val int }

// world is one pool with its bookkeeping.
type world struct {
	pool *gopoolx.TimedPool[task]
	ran  [16]vsched.Counter
	acc  [16]vsched.Counter // 1 accepted, 2 refused
	bad  vsched.Counter
	gate vsched.Gate
	sub  func(w *world, t task)
}

func newWorld(max int64, preheat int, idle, gc time.Duration) *world {
	w := &world{}
	p, err := gopoolx.NewTimedPool(max, func(t task) {
		if t.id < 0 || t.id >= 16 || t.val != t.id*7+1 {
			vsched.Fail("handler got %+v, a task nobody submitted", t)
		}
		n := w.ran[t.id].Add(1)
		if vsched.Tracing() {
			vsched.Trace("HANDLER task %d", t.id)
		}
		if n > 1 {
			vsched.Fail("task %d handled twice", t.id)
		}
		if w.sub != nil {
			w.sub(w, t)
		}
	}, idle, gc, preheat)
	if err != nil || p == nil {
		vsched.Fail("constructor failed: %v", err)
	}
	w.pool = p
	return w
}

func (w *world) run(id int) bool {
	ok := w.pool.Run(task{id, id*7 + 1})
	if ok {
		w.acc[id].Set(1)
	} else {
		w.acc[id].Set(2)
	}
	if vsched.Tracing() {
		vsched.Trace("Run(task %d) = %v", id, ok)
	}
	return ok
}

func (w *world) finish() {
	w.gate.Open()
	vsched.Quiesce(3)
	out := ""
	for i := range w.ran {
		a, r := w.acc[i].Get(), w.ran[i].Get()
		switch {
		case a == 1 && r != 1:
			vsched.Fail("task %d was accepted but handled %d times; threads: %s", i, r, vsched.LiveNames())
		case a == 2 && r != 0:
			vsched.Fail("task %d was refused but handled", i)
		case a == 0 && r != 0:
			vsched.Fail("task %d was never submitted but handled", i)
		}
		if a != 0 {
			out += fmt.Sprintf("%d", a)
		}
	}
	vsched.Outcome("accepted=%s", out)
}

const (
	gcP  = 10 * time.Nanosecond
	idle = 1 * time.Nanosecond
)

type cfg struct {
	max     int64
	preheat int
	subs    []int // tasks per submitter
	stops   int
	seqPre  int // tasks run to completion before the concurrent phase
	block   bool
	reent   bool
	late    bool // submit again after everything settled
}

func scenario(c cfg) func() {
	return func() {
		w := newWorld(c.max, c.preheat, idle, gcP)
		id := 0
		for i := 0; i < c.seqPre; i++ {
			w.run(id)
			id++
			vsched.Quiesce(0)
		}
		if c.block {
			w.sub = func(w *world, t task) { w.gate.Wait() }
		}
		if c.reent {
			w.sub = func(w *world, t task) {
				if t.id < 8 {
					w.run(t.id + 8)
				}
			}
		}
		var ts []*vsched.Thread
		for _, n := range c.subs {
			first := id
			id += n
			n := n
			ts = append(ts, vsched.GoNamed("submitter", func() {
				for k := 0; k < n; k++ {
					w.run(first + k)
				}
			}))
		}
		for i := 0; i < c.stops; i++ {
			ts = append(ts, vsched.GoNamed("stopper", func() { w.pool.Stop() }))
		}
		vsched.Join(ts...)
		if c.late {
			w.gate.Open()
			vsched.Quiesce(2)
			w.run(id)
			w.run(id + 1)
		}
		w.finish()
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C02",
		Level:       "model_checking",
		Rule:        "every interleaving, within the deviation bound, of submitters, workers, the idle collector (its ticker fires at any moment) and Stop; every pool reuse answer; the outcome is which submissions were accepted",
		Bounds:      "1-3 submitters, 1-3 tasks, limit 1-2, preheat 0-2, 0-2 Stop callers; deviations = preemptions + early ticks, bound per unit; " + gp.Bounds + "; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"scheduling points at every lock, channel, clock and pool operation; unsynchronised accesses are reported by the race detector on every explored schedule", "handlers terminate"},
		Units: func(th bool) []drv.Unit {
			var us []drv.Unit
			add := func(name string, delay, preempt, early int, c cfg) {
				if th {
					delay++
					preempt++
				}
				us = append(us, drv.Bounds(drv.Unit{Name: name, Early: early, Steps: 4000, Pool: 1, PoolDev: true, Body: scenario(c)}, delay, preempt)...)
			}
			add("two-submitters", 4, 1, 1, cfg{max: 2, subs: []int{1, 1}})
			add("two-submitters-limit-1", 4, 1, 1, cfg{max: 1, subs: []int{1, 1}, late: true})
			add("reuse-under-collection", 3, 1, 2, cfg{max: 2, seqPre: 1, subs: []int{2}, late: true})
			add("reuse-two-submitters", 3, 1, 2, cfg{max: 2, seqPre: 2, subs: []int{1, 1}})
			add("preheat-1", 3, 1, 2, cfg{max: 2, preheat: 1, subs: []int{1, 1}})
			add("preheat-2", 3, 0, 1, cfg{max: 2, preheat: 2, subs: []int{2, 1}})
			add("preheat-over-limit", 3, 0, 1, cfg{max: 1, preheat: 2, subs: []int{1, 1}})
			add("stop-racing", 3, 0, 1, cfg{max: 2, subs: []int{1, 1}, stops: 1})
			add("stop-racing-idle", 3, 1, 1, cfg{max: 2, seqPre: 1, subs: []int{2}, stops: 1, late: true})
			add("stop-preheat", 3, 0, 1, cfg{max: 2, preheat: 2, subs: []int{1}, stops: 1})
			add("two-stops", 3, 0, 1, cfg{max: 1, subs: []int{1}, stops: 2})
			add("blocked-handlers", 3, 0, 1, cfg{max: 2, subs: []int{2, 1}, block: true, late: true})
			add("reentrant", 3, 0, 1, cfg{max: 2, subs: []int{1, 1}, reent: true})
			if th {
				add("three-submitters", 3, -1, 1, cfg{max: 2, subs: []int{1, 1, 1}, late: true})
				add("three-tasks-stop", 3, -1, 2, cfg{max: 2, seqPre: 2, subs: []int{2, 1}, stops: 1})
				add("deep-collection", 4, 1, 2, cfg{max: 1, seqPre: 1, subs: []int{2}})
			}
			us = append(us, gp.Unit(gp.Once, th), gp.Marathon(gp.Once, th), drv.Unit{Name: "shapes", Thread: true, Delay: true, Steps: 100000, Body: func() { everyShape[vsched.Choose(len(everyShape))]() }})
			return us
		},
	})
}
