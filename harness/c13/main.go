// C13: the termination-signal handler runs once and never crashes.
package main

import (
	"io"
	"log"
	"os"
	"syscall"

	"github.com/unsafe-risk/utilx/osx/closex"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
	"verif.local/mc/mc/vsignal"
)

var sigs = []os.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGUSR1, syscall.SIGPIPE}

func terminating(s os.Signal) bool {
	return s == syscall.SIGINT || s == syscall.SIGQUIT || s == syscall.SIGTERM
}

// send delivers one signal; the process dies if nobody is registered for it.
func send(s os.Signal) {
	reg, _ := vsignal.Deliver(s)
	if terminating(s) && reg == 0 {
		vsched.Fail("nobody is registered for %v: it kills the process", s)
	}
	if !terminating(s) && reg != 0 {
		vsched.Fail("%v is captured: its default action is lost", s)
	}
}

// closed looks at the channel without being a step of the schedule.
func closed(c any) bool { return c.(interface{ IsClosed() bool }).IsClosed() }

type lw struct{}

func (lw) Write(p []byte) (int, error) { return len(p), nil }

// scenario: senders deliver the given numbers of freely chosen signals at any
// time; waiters watch the channel.
func scenario(counts []int, kinds, points, waiters int) func() {
	return func() {
		var began, ended, term vsched.Counter
		logger := log.New(io.Writer(lw{}), "", 0)
		c := closex.HandleKillSig(func() {
			if began.Add(1) > 1 {
				vsched.Fail("the handler runs again")
			}
			if term.Get() == 0 {
				vsched.Fail("the handler runs without a terminating signal")
			}
			for i := 0; i < points; i++ {
				vsched.Point("handling")
			}
			ended.Add(1)
		}, logger)
		var ts []*vsched.Thread
		for _, n := range counts {
			plan := make([]os.Signal, n)
			for i := range plan {
				plan[i] = sigs[vsched.Choose(kinds)]
			}
			ts = append(ts, vsched.GoNamed("os", func() {
				for _, s := range plan {
					if terminating(s) {
						term.Add(1)
					}
					send(s)
					if closed(c.C) && ended.Get() == 0 {
						vsched.Fail("C is closed before the handler finished")
					}
				}
			}))
		}
		var woken vsched.Counter
		for i := 0; i < waiters; i++ {
			vsched.GoNamed("waiter", func() {
				if ok := recv(c.C); ok {
					vsched.Fail("C carried a value")
				}
				if ended.Get() != 1 {
					vsched.Fail("C was closed before the handler finished")
				}
				woken.Add(1)
			})
		}
		vsched.Join(ts...)
		vsched.Quiesce(0)
		want := int64(0)
		if term.Get() > 0 {
			want = 1
		}
		if began.Get() != want || ended.Get() != want {
			vsched.Fail("%d terminating signals: the handler ran %d times", term.Get(), began.Get())
		}
		if closed(c.C) != (want == 1) {
			vsched.Fail("%d terminating signals: C closed is %v", term.Get(), closed(c.C))
		}
		if woken.Get() != want*int64(waiters) {
			vsched.Fail("%d of %d waiters were woken", woken.Get(), waiters)
		}
		// still protected afterwards
		late := sigs[vsched.Choose(kinds)]
		if terminating(late) {
			term.Add(1)
		}
		send(late)
		send(late)
		vsched.Quiesce(0)
		if terminating(late) {
			want = 1
		}
		if began.Get() != want || ended.Get() != want || closed(c.C) != (want == 1) {
			vsched.Fail("after a late %v: handler runs %d, C closed %v", late, began.Get(), closed(c.C))
		}
		vsched.Outcome("%d", want)
	}
}

// many: long runs of signals, at once or while the handler is busy.
func many(sizes []int) func() {
	return func() {
		var began, ended, term vsched.Counter
		logger := log.New(io.Writer(lw{}), "", 0)
		n := sizes[vsched.Choose(len(sizes))]
		shape := vsched.Choose(6)
		busy := []int{0, 5, 3 * n}[vsched.Choose(3)]
		pause := vsched.Choose(2) == 1
		c := closex.HandleKillSig(func() {
			if began.Add(1) > 1 {
				vsched.Fail("the handler runs again")
			}
			if term.Get() == 0 {
				vsched.Fail("the handler runs without a terminating signal")
			}
			for i := 0; i < busy; i++ {
				vsched.Point("handling")
			}
			ended.Add(1)
		}, logger)
		for i := 0; i < n; i++ {
			var s os.Signal
			switch shape {
			case 0, 1, 2:
				s = sigs[shape]
			case 3:
				s = sigs[i%3]
			case 4:
				s = sigs[i%6]
			case 5: // others, then one that ends
				s = sigs[3+i%3]
				if i == n-1 {
					s = sigs[i%3]
				}
			}
			if terminating(s) {
				term.Add(1)
			}
			send(s)
			if closed(c.C) && ended.Get() == 0 {
				vsched.Fail("C is closed before the handler finished")
			}
			if pause {
				vsched.Point("between signals")
			}
		}
		vsched.Quiesce(0)
		if began.Get() != 1 || ended.Get() != 1 || !closed(c.C) {
			vsched.Fail("%d signals: the handler ran %d times, C closed is %v", n, began.Get(), closed(c.C))
		}
		for _, s := range sigs {
			send(s)
		}
		vsched.Quiesce(0)
		if began.Get() != 1 {
			vsched.Fail("the handler ran %d times", began.Get())
		}
	}
}

// again: handlers installed one after another, some after signals came.
func again(max int) func() {
	return func() {
		logger := log.New(io.Writer(lw{}), "", 0)
		ran := make([]vsched.Counter, max)
		var cs []any
		for i := 0; i < max; i++ {
			i := i
			cs = append(cs, closex.HandleKillSig(func() { ran[i].Add(1) }, logger).C)
			for k := vsched.Choose(3); k > 0; k-- {
				send(sigs[vsched.Choose(4)])
			}
			vsched.Quiesce(0)
		}
		send(sigs[vsched.Choose(3)])
		vsched.Quiesce(0)
		for i := range cs {
			if ran[i].Get() != 1 || !closed(cs[i]) {
				vsched.Fail("handler %d ran %d times, closed is %v", i, ran[i].Get(), closed(cs[i]))
			}
		}
	}
}

// two: two handlers installed at once are independent.
func two() {
	logger := log.New(io.Writer(lw{}), "", 0)
	var a, b vsched.Counter
	ca := closex.HandleKillSig(func() { a.Add(1); vsched.Point("a") }, logger)
	cb := closex.HandleKillSig(func() { b.Add(1); vsched.Point("b") }, logger)
	n := vsched.Choose(3)
	for i := 0; i < n; i++ {
		send(sigs[vsched.Choose(3)])
	}
	vsched.Quiesce(0)
	want := int64(0)
	if n > 0 {
		want = 1
	}
	if a.Get() != want || b.Get() != want || closed(ca.C) != (n > 0) || closed(cb.C) != (n > 0) {
		vsched.Fail("%d signals: handlers ran %d and %d times, closed %v %v", n, a.Get(), b.Get(), closed(ca.C), closed(cb.C))
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C13",
		Level:       "model_checking",
		Rule:        "every sequence of signals (3 terminating, 3 others) from 1-2 sources and every interleaving, within the bounds, with the handler, the library goroutine and waiters on C",
		Bounds:      "up to 3 signals from one source or 2+2 from two, then a late pair; runs of up to 1025 signals of six kinds; 3 handlers installed one after another; deviation bounds per unit",
		Assumptions: []string{"the operating system's signal delivery is replaced by a model of os/signal: a signal nobody registered for would kill the process, a full channel drops it"},
		Units: func(th bool) []drv.Unit {
			x := 0
			if th {
				x = 2
			}
			var us []drv.Unit
			add := func(name string, d, p int, f func()) {
				us = append(us, drv.Bounds(drv.Unit{Name: name, Body: f}, d+x, p+x)...)
			}
			add("none", 2, 2, scenario(nil, 6, 1, 1))
			add("one", 8, 8, scenario([]int{1}, 6, 2, 1))
			add("two", 5, 3, scenario([]int{2}, 6, 1, 1))
			add("three", 4, 3, scenario([]int{3}, 4, 1, 0))
			add("two-sources", 4, 2, scenario([]int{1, 1}, 4, 1, 1))
			add("two-sources-twice", 4, 3, scenario([]int{2, 2}, 2, 1, 0))
			add("two-handlers", 4, 3, two)
			us = append(us, drv.Unit{Name: "many", Thread: true, Steps: 1 << 20, Body: many([]int{1, 2, 9, 17, 65, 129, 257, 1025})},
				drv.Unit{Name: "again", Thread: true, Body: again(3)})
			return us
		},
	})
}

// recv receives from C, whatever its declared direction.
func recv(c any) bool {
	_, ok := c.(interface{ Recv2() (struct{}, bool) }).Recv2()
	return ok
}
