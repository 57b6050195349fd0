// C04: the worker pool drains.
package main

import (
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"verif.local/mc/harness/gp"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
	"verif.local/mc/mc/vtime"
)

// clocks: the idle timeout and the collection period.
var clocks = [][2]time.Duration{{100, 10}, {10, 100}, {100, 60}, {100, 100}, {1000, 7}, {30, 1000}}

type world struct {
	p      *gopoolx.TimedPool[int]
	n      int64
	gates  []vsched.Gate
	worker []vsched.Counter // task -> thread
	since  []vsched.Counter // thread -> end of its last task
	busy   []vsched.Counter // thread
}

func build(n int64, preheat, tasks int, it, gc time.Duration) *world {
	w := &world{n: n, gates: make([]vsched.Gate, tasks+1), worker: make([]vsched.Counter, tasks+1)}
	w.since = make([]vsched.Counter, 256)
	w.busy = make([]vsched.Counter, 256)
	p, err := gopoolx.NewTimedPool(n, func(id int) {
		t := vsched.ThreadID()
		w.busy[t].Set(1)
		w.worker[id].Set(int64(t))
		w.gates[id].Wait()
		w.busy[t].Set(0)
		w.since[t].Set(vsched.NowNanos())
	}, it, gc, preheat)
	if err != nil {
		vsched.Fail("constructor: %v", err)
	}
	w.p = p
	return w
}

func (w *world) drained(when string) {
	vsched.Quiesce(4)
	if k := vsched.Live(); k != 0 {
		vsched.Fail("%s: goroutines remain: %s", when, vsched.LiveNames())
	}
	if k := w.p.Workers(); k != 0 {
		vsched.Fail("%s: Workers() reports %d", when, k)
	}
	for i := 0; i < 2; i++ {
		if w.p.Run(len(w.gates) - 1) {
			vsched.Fail("%s: Run is accepted", when)
		}
		w.p.Stop()
	}
	vsched.Quiesce(4)
	if k := vsched.Live(); k != 0 {
		vsched.Fail("%s, after further calls: goroutines remain: %s", when, vsched.LiveNames())
	}
	if k := w.p.Workers(); k != 0 {
		vsched.Fail("%s, after further calls: Workers() reports %d", when, k)
	}
}

// stopHistory: any history, then Stop at any point of it.
func stopHistory(n int64, preheat, depth, nclocks int) func() {
	return func() {
		ci := vsched.Choose(nclocks)
		depth := depth
		if ci > 0 {
			depth--
		}
		w := build(n, preheat, depth, clocks[ci][0], clocks[ci][1])
		if vsched.Choose(2) == 1 {
			vsched.Quiesce(0)
		}
		var live []int
		next := 0
		stops := 0
		for i := 0; i < depth; i++ {
			switch vsched.Choose(6) {
			case 0:
				if w.p.Run(next) {
					if stops > 0 {
						vsched.Fail("Run is accepted by a stopped, settled pool")
					}
					live = append(live, next)
				}
				next++
			case 1:
				if len(live) > 0 {
					w.gates[live[0]].Open()
					live = live[1:]
				}
			case 2:
				if len(live) > 1 {
					w.gates[live[len(live)-1]].Open()
					live = live[:len(live)-1]
				}
			case 3:
				vtime.Sleep(45)
			case 4:
				vtime.Sleep(155)
			case 5:
				w.p.Stop()
				stops++
			}
			vsched.Quiesce(0)
		}
		if stops == 0 {
			w.p.Stop()
		}
		for i := range live {
			w.gates[live[i]].Open()
		}
		w.drained("stopped and all tasks finished")
		vsched.Outcome("stops=%d tasks=%d", stops, next)
	}
}

// retire: workers' idle times against Workers().
func retire(n int64, preheat, depth, nclocks int) func() {
	return func() {
		ci := vsched.Choose(nclocks)
		idle, gcP := int64(clocks[ci][0]), int64(clocks[ci][1])
		depth := depth
		if ci > 0 {
			depth--
		}
		w := build(n, preheat, depth, clocks[ci][0], clocks[ci][1])
		vsched.Quiesce(0)
		var live []int
		next := 0
		lastBusy := int64(0) // last moment at which anything ran
		bounds := func() (lo, hi int64) {
			lo, hi = int64(len(live)), int64(len(live))
			now := vsched.NowNanos()
			seen := map[int]bool{}
			for id := 0; id < next; id++ {
				t := int(w.worker[id].Get())
				if t == 0 || seen[t] || w.busy[t].Get() == 1 {
					continue
				}
				seen[t] = true
				d := now - w.since[t].Get()
				if d < idle {
					lo++
				}
				if d <= idle+2*gcP {
					hi++
				}
			}
			if preheat > 0 { // workers that never ran a task have no identity here
				lo = int64(len(live))
				hi = n
			}
			return
		}
		check := func(what string) {
			lo, hi := bounds()
			if k := w.p.Workers(); k < lo || k > hi {
				vsched.Fail("%s, %d tasks in progress at %dns: Workers() is %d, want %d..%d (idle timeout %d, period %d)", what, len(live), vsched.NowNanos(), k, lo, hi, idle, gcP)
			}
			if len(live) == 0 && vsched.NowNanos()-lastBusy > idle+2*gcP {
				if k := w.p.Workers(); k != 0 {
					vsched.Fail("%s: nothing ran for %dns, Workers() is %d", what, vsched.NowNanos()-lastBusy, k)
				}
				if vsched.Live() > 1 { // the collector stays
					vsched.Fail("%s: nothing ran for %dns, goroutines remain: %s", what, vsched.NowNanos()-lastBusy, vsched.LiveNames())
				}
			}
		}
		for i := 0; i < depth; i++ {
			if len(live) > 0 {
				lastBusy = vsched.NowNanos()
			}
			what := ""
			switch vsched.Choose(5) {
			case 0:
				lo, _ := bounds()
				before := w.p.Workers()
				ok := w.p.Run(next)
				what = "submit"
				if want := int64(len(live)) < n; ok != want {
					vsched.Fail("%d of %d in progress: Run returned %v", len(live), n, ok)
				}
				if ok && lo > int64(len(live)) && w.p.Workers() != before {
					vsched.Fail("a worker was idle for less than the timeout, yet Workers() went from %d to %d", before, w.p.Workers())
				}
				if ok {
					live = append(live, next)
				}
				next++
			case 1:
				what = "finish oldest"
				if len(live) > 0 {
					w.gates[live[0]].Open()
					live = live[1:]
				}
			case 2:
				what = "finish newest"
				if len(live) > 1 {
					w.gates[live[len(live)-1]].Open()
					live = live[:len(live)-1]
				}
			case 3:
				what = "wait 45"
				vtime.Sleep(45)
			case 4:
				what = "wait 155"
				vtime.Sleep(155)
			}
			vsched.Quiesce(0)
			if len(live) > 0 {
				lastBusy = vsched.NowNanos()
			}
			check(what)
		}
		for i := range live {
			w.gates[live[i]].Open()
		}
		live = nil
		vsched.Quiesce(0)
		lastBusy = vsched.NowNanos()
		vtime.Sleep(time.Duration(idle + 2*gcP + 35))
		vsched.Quiesce(0)
		check("everything idle")
		if !w.p.Run(depth) {
			vsched.Fail("all workers retired: Run is refused")
		}
		vsched.Outcome("tasks=%d", next)
	}
}

// crowd: many workers become idle at different times; each is retired in
// its time, none earlier.
func crowd() {
	n := []int{5, 12, 40}[vsched.Choose(3)]
	ck := clocks[vsched.Choose(len(clocks))]
	idle, gcP := int64(ck[0]), int64(ck[1])
	w := build(int64(n), 0, n, ck[0], ck[1])
	for i := 0; i < n; i++ {
		if !w.p.Run(i) {
			vsched.Fail("%d of %d in progress: Run is refused", i, n)
		}
		vsched.Quiesce(0)
	}
	parts := []int{1, n / 3, n / 2, n - 1}
	a := parts[vsched.Choose(4)]
	b := a + (n-a)*vsched.Choose(3)/2
	order := vsched.Choose(3)
	at := func(i int) int {
		switch order {
		case 1:
			return n - 1 - i
		case 2:
			return (i*7 + 3) % n // 5, 12, 40: coprime to 7
		}
		return i
	}
	ended := make([]int64, n)
	check := func(done int) {
		lo, hi := int64(n-done), int64(n-done)
		for i := 0; i < done; i++ {
			d := vsched.NowNanos() - ended[at(i)]
			if d < idle {
				lo++
			}
			if d <= idle+2*gcP {
				hi++
			}
		}
		if k := w.p.Workers(); k < lo || k > hi {
			vsched.Fail("idle timeout %d, period %d: %d tasks in progress, the others ended %v, now %d: Workers() is %d, want %d..%d", idle, gcP, n-done, ended, vsched.NowNanos(), k, lo, hi)
		}
		if k := int64(vsched.Live()); k < lo || k > hi+1 { // the collector
			vsched.Fail("%d goroutines, want %d..%d", k, lo, hi+1)
		}
	}
	done := 0
	for _, to := range []int{a, b, n} {
		for done < to {
			w.gates[at(done)].Open()
			ended[at(done)] = vsched.NowNanos()
			done++
			vsched.Quiesce(0)
		}
		check(done)
		steps := vsched.Choose(4)
		for i := 0; i < steps; i++ {
			vtime.Sleep(time.Duration(idle/3 + 3*gcP/4))
			vsched.Quiesce(0)
			check(done)
		}
	}
	vtime.Sleep(time.Duration(idle + 2*gcP + 1))
	vsched.Quiesce(0)
	check(done)
	w.p.Stop()
	w.drained("a crowd retired and the pool stopped")
}

type cfg struct {
	n       int64
	preheat int
	seqPre  int
	subs    []int
	stops   int
	inside  bool // a handler calls Stop
	blocked bool
}

func racing(c cfg) func() {
	return func() {
		tasks := c.seqPre
		for _, k := range c.subs {
			tasks += k
		}
		var p *gopoolx.TimedPool[int]
		var gate vsched.Gate
		gate.Open()
		var started vsched.Gate
		w := &world{n: c.n, gates: make([]vsched.Gate, tasks+1)}
		p, err := gopoolx.NewTimedPool(c.n, func(id int) {
			if c.inside && started.IsOpen() && id == c.seqPre {
				w.p.Stop()
			}
			gate.Wait()
		}, 1, 10, c.preheat)
		if err != nil {
			vsched.Fail("constructor: %v", err)
		}
		w.p = p
		for i := 0; i < c.seqPre; i++ {
			p.Run(i)
			vsched.Quiesce(0)
		}
		started.Open()
		if c.blocked {
			gate.Close()
		}
		var ts []*vsched.Thread
		next := c.seqPre
		for _, k := range c.subs {
			k := k
			base := next
			next += k
			ts = append(ts, vsched.GoNamed("submitter", func() {
				for i := 0; i < k; i++ {
					p.Run(base + i)
				}
			}))
		}
		for i := 0; i < c.stops; i++ {
			ts = append(ts, vsched.GoNamed("stopper", p.Stop))
		}
		vsched.Join(ts...)
		gate.Open()
		vsched.Quiesce(0)
		if c.inside {
			w.p.Stop()
		}
		w.drained("stopped and all tasks finished")
	}
}

func main() {
	drv.Main(drv.Check{
		ID:     "C04",
		Level:  "model_checking",
		Rule:   "every history of submit/finish/wait/Stop operations to the depth bound in virtual time, checked against the idle time of every worker; every interleaving within the bounds of submitters, workers, collector and one or two Stop callers, ending with a census of goroutines",
		Bounds: "limit 1-2, preheat 0-2; histories of 6 (quick) or 8 (thorough) operations (one less for the other clocks) with idle timeouts shorter than, equal to and longer than the collection period; 5, 12 and 40 workers becoming idle in three groups and three orders; histories with waits of 0.45 and 1.55 idle timeouts; 1-2 submitters, 1-2 Stop callers; deviation bounds per unit; " + gp.Bounds,
		Assumptions: []string{"a worker is retired at the latest two collection periods after its timeout",
			"scheduling points at every lock, channel, clock and pool operation"},
		Units: func(th bool) []drv.Unit {
			var us []drv.Unit
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			us = append(us, drv.Unit{Name: "crowd", Thread: true, Delay: true, Steps: 100000, Pool: 0, Shards: 4, Split: 3, Body: crowd})
			depth := 6
			if th {
				depth = 8
			}
			for n := int64(1); n <= 2; n++ {
				for pre := 0; pre <= 2; pre++ {
					sfx := string(rune('0'+n)) + "-preheat-" + string(rune('0'+pre))
					us = append(us, drv.Unit{Name: "stop-history-" + sfx, Thread: true, Delay: true, Shards: 2, Pool: 0, Body: stopHistory(n, pre, depth-1, x(2, 6))})
					us = append(us, drv.Unit{Name: "retire-" + sfx, Thread: true, Delay: true, Shards: 2, Pool: 0, Body: retire(n, pre, depth, x(3, 6))})
				}
			}
			us = append(us, drv.Unit{Name: "retire-3", Thread: true, Delay: true, Shards: 2, Pool: 0, Body: retire(3, 0, depth, x(3, 6))})
			add := func(name string, delay, preempt, early int, c cfg) {
				if th {
					delay++
					preempt++
				}
				us = append(us, drv.Bounds(drv.Unit{Name: name, Early: early, Steps: 4000, Pool: 1, PoolDev: true, Body: racing(c)}, delay, preempt)...)
			}
			add("stop-racing", 3, 0, 1, cfg{n: 2, subs: []int{1, 1}, stops: 1})
			add("stop-racing-reuse", 3, 0, 1, cfg{n: 2, seqPre: 1, subs: []int{2}, stops: 1})
			add("two-stops", 3, 0, 1, cfg{n: 1, subs: []int{1}, stops: 2})
			add("three-stops", 3, 0, 1, cfg{n: 1, stops: 3})
			add("stop-preheated", 3, 0, 1, cfg{n: 2, preheat: 2, subs: []int{1}, stops: 1})
			add("stop-inside", 3, 0, 1, cfg{n: 2, subs: []int{1, 1}, stops: 1, inside: true})
			add("stop-blocked", 3, 0, 1, cfg{n: 2, seqPre: 1, subs: []int{2}, stops: 1, blocked: true})
			us = append(us, gp.Unit(gp.Drain, th), gp.Marathon(gp.Drain, th))
			return us
		},
	})
}
