// Package gp drives worker pools of many workers for C02, C03 and C04.
package gp

import (
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
	"verif.local/mc/mc/vtime"
)

// Which property's assertions are on.
type Mode int

const (
	Once  Mode = 2 // C02
	Limit Mode = 3 // C03
	Drain Mode = 4 // C04
)

const Bounds = "pools of 63 to 257 (1025) workers filled and emptied twice; 2000 (20000) tasks one after another or in pairs through limits from 1 to the largest int64"

// Unit fills and empties pools of many workers twice and stops them.
func Unit(mode Mode, th bool) drv.Unit {
	sizes := []int{63, 64, 65, 129, 257}
	if th {
		sizes = append(sizes, 300, 513, 1025)
	}
	return drv.Unit{Name: "wide", Thread: true, Delay: true, Steps: 5000000, Pool: 0, Shards: 8, Split: 3, Body: func() { wide(mode, sizes[vsched.Choose(len(sizes))]) }}
}

// Marathon runs many tasks through one pool, with any pause between them.
func Marathon(mode Mode, th bool) drv.Unit {
	count := 2000
	if th {
		count = 20000
	}
	return drv.Unit{Name: "marathon", Thread: true, Delay: true, Steps: 50000000, Pool: 0, Shards: 8, Split: 3, Body: func() { marathon(mode, count) }}
}

func marathon(mode Mode, count int) {
	limit := []int64{1, 2, 3, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1}[vsched.Choose(7)]
	ck := [][2]time.Duration{{1000, 100}, {100, 1000}, {1<<63 - 1, 100}}[vsched.Choose(3)]
	preheat := []int{0, 2}[vsched.Choose(2)]
	pause := vsched.Choose(4)
	pair := limit > 1 && vsched.Choose(2) == 1
	idle, gc := ck[0], ck[1]
	ran := make([]vsched.Counter, count+1)
	var inflight vsched.Counter
	p, err := gopoolx.NewTimedPool(limit, func(id int) {
		k := inflight.Add(1)
		if mode == Limit && k > 2 {
			vsched.Fail("%d handlers run", k)
		}
		if r := ran[id].Add(1); mode == Once && r > 1 {
			vsched.Fail("task %d handled twice", id)
		}
		inflight.Add(-1)
	}, idle, gc, preheat)
	if err != nil {
		vsched.Fail("constructor: limit %d: %v", limit, err)
	}
	vsched.Quiesce(0)
	for id := 0; id < count; {
		n := 1
		if pair {
			n = 2
		}
		for ; n > 0 && id < count; n-- {
			ok := p.Run(id)
			if !ok && mode == Limit {
				vsched.Fail("limit %d, at most 1 task in progress: Run of task %d is refused", limit, id)
			}
			if !ok && mode == Once {
				ran[id].Add(1)
			}
			id++
		}
		vsched.Quiesce(0)
		if r := ran[id-1].Get(); mode == Once && r != 1 {
			vsched.Fail("task %d handled %d times", id-1, r)
		}
		if w := p.Workers(); mode == Limit && (w > limit || w < 0) {
			vsched.Fail("limit %d: %d workers after task %d", limit, w, id)
		}
		switch {
		case pause == 1:
			vtime.Sleep(1)
		case pause == 2 && idle < 1<<40:
			vtime.Sleep(idle/2 + 7)
		case pause == 3 && id%50 < 2 && idle < 1<<40:
			vtime.Sleep(idle + 2*gc + 1)
			vsched.Quiesce(0)
			if w := p.Workers(); mode == Drain && w != 0 {
				vsched.Fail("idle for longer than the timeout after task %d: Workers() is %d", id, w)
			}
		}
	}
	for id := range ran[:count] {
		if r := ran[id].Get(); mode == Once && r != 1 {
			vsched.Fail("task %d handled %d times", id, r)
		}
	}
	stopped := vsched.GoNamed("stopper", p.Stop)
	vsched.Quiesce(2)
	vsched.Join(stopped)
	vsched.Quiesce(4)
	if k := vsched.Live(); mode == Drain && k != 0 {
		vsched.Fail("stopped after %d tasks: %d goroutines remain", count, k)
	}
	if k := p.Workers(); mode == Drain && k != 0 {
		vsched.Fail("stopped after %d tasks: Workers() is %d", count, k)
	}
	if p.Run(count) && mode != Once {
		vsched.Fail("Run is accepted after Stop")
	}
}

func wide(mode Mode, n int) {
	ck := [][2]time.Duration{{1000, 100}, {100, 1000}}[vsched.Choose(2)]
	preheat := []int{0, n / 2, n + 1}[vsched.Choose(3)]
	idle, gc := ck[0], ck[1]
	var inflight vsched.Counter
	gates := make([]vsched.Gate, 4*n+8)
	ran := make([]vsched.Counter, 4*n+8)
	acc := make([]bool, 4*n+8)
	p, err := gopoolx.NewTimedPool(int64(n), func(id int) {
		k := inflight.Add(1)
		if mode == Limit && k > int64(n) {
			vsched.Fail("%d handlers run at once, limit %d", k, n)
		}
		if r := ran[id].Add(1); mode == Once && r > 1 {
			vsched.Fail("task %d handled twice", id)
		}
		gates[id].Wait()
		inflight.Add(-1)
	}, idle, gc, preheat)
	if err != nil {
		vsched.Fail("constructor: %v", err)
	}
	vsched.Quiesce(0)
	next, first := 0, 0
	run := func() bool {
		id := next
		next++
		acc[id] = p.Run(id)
		vsched.Quiesce(0)
		return acc[id]
	}
	fill := func() {
		first = next
		for i := 0; i < n; i++ {
			if !run() && mode == Limit {
				vsched.Fail("limit %d, %d tasks in progress: Run is refused", n, i)
			}
		}
		if run() && mode == Limit {
			vsched.Fail("limit %d: a further task is accepted", n)
		}
		if w := p.Workers(); mode == Limit && w != int64(n) {
			vsched.Fail("limit %d, all busy: %d workers reported", n, w)
		}
	}
	order := vsched.Choose(3)
	release := func() {
		k := next - first
		for i := 0; i < k; i++ {
			j := i
			switch order {
			case 1:
				j = k - 1 - i
			case 2:
				if j = 2 * i; j >= k {
					j = 2*(i-(k+1)/2) + 1
				}
			}
			gates[first+j].Open()
			if order > 0 {
				vsched.Quiesce(0)
			}
		}
		vsched.Quiesce(0)
		if mode != Once {
			return
		}
		for id := range ran[:next] {
			want := int64(0)
			if acc[id] {
				want = 1
			}
			if r := ran[id].Get(); r != want {
				vsched.Fail("pool of %d: Run(task %d) gave %v, handled %d times", n, id, acc[id], r)
			}
		}
	}
	for round := 0; round < 2; round++ {
		fill()
		release()
		switch vsched.Choose(3) {
		case 1:
			vtime.Sleep(idle / 2)
			vsched.Quiesce(0)
		case 2:
			vtime.Sleep(idle + 2*gc + 1)
			vsched.Quiesce(0)
			if w := p.Workers(); mode == Drain && w != 0 {
				vsched.Fail("pool of %d: all idle for longer than the timeout, Workers() is %d", n, w)
			}
			if l := vsched.Live(); mode == Drain && l > 1 { // the collector
				vsched.Fail("pool of %d: all idle for longer than the timeout, %d goroutines", n, l)
			}
		}
	}
	busy := vsched.Choose(2) == 1
	if busy {
		fill()
	}
	stopped := vsched.GoNamed("stopper", p.Stop)
	vsched.Quiesce(2)
	vsched.Join(stopped)
	if busy {
		release()
	}
	vsched.Quiesce(4)
	if mode == Drain {
		if k := vsched.Live(); k != 0 {
			vsched.Fail("pool of %d stopped and all tasks finished: %d goroutines remain", n, k)
		}
		if k := p.Workers(); k != 0 {
			vsched.Fail("pool of %d stopped and all tasks finished: Workers() is %d", n, k)
		}
	}
	if run() && mode != Once {
		vsched.Fail("pool of %d stopped, yet Run is accepted", n)
	}
	if mode == Once && (acc[next-1] || ran[next-1].Get() != 0) && acc[next-1] != (ran[next-1].Get() == 1) {
		vsched.Fail("Run after Stop gave %v, task handled %d times", acc[next-1], ran[next-1].Get())
	}
}
