// C14: the typed object pool hands an object to one holder at a time.
package main

import (
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type obj struct {
	id  int
	tag int // contents written by the last holder
	pad [4]int
}

// book is the harness's own view of every object, one counter set per id.
type book struct {
	made vsched.Counter
	held [64]vsched.Counter
	tag  [64]vsched.Counter
}

func (b *book) make() *obj {
	id := int(b.made.Add(1)) - 1
	if id >= len(b.held) {
		vsched.Fail("more objects built than Gets")
	}
	return &obj{id: id, tag: -1}
}

func (b *book) got(o *obj) {
	if o == nil {
		vsched.Fail("Get returned nil")
	}
	if b.held[o.id].Add(1) != 1 {
		vsched.Fail("object %d handed to a second holder", o.id)
	}
	want := b.tag[o.id].Get() - 1
	if int64(o.tag) != want {
		vsched.Fail("object %d holds %d, its contents were %d", o.id, o.tag, want)
	}
	for _, p := range o.pad {
		if p != o.tag+1 {
			vsched.Fail("object %d is damaged: %v with tag %d", o.id, o.pad, o.tag)
		}
	}
}

func (b *book) write(o *obj, tag int) {
	o.tag = tag
	for i := range o.pad {
		o.pad[i] = tag + 1
	}
	b.tag[o.id].Set(int64(tag) + 1)
}

func (b *book) check(o *obj, tag int) {
	if o.tag != tag {
		vsched.Fail("object %d changed while held: %d, wrote %d", o.id, o.tag, tag)
	}
}

// threads: each repeatedly gets hold objects, writes, and puts them back (or
// keeps one).
func threads(n, rounds, hold int, keep bool) func() {
	return func() {
		var p syncpoolx.Pool[obj]
		b := &book{}
		p.Init(b.make)
		var ts []*vsched.Thread
		for t := 0; t < n; t++ {
			ts = append(ts, vsched.GoNamed("user", func() {
				for r := 0; r < rounds; r++ {
					var os []*obj
					for h := 0; h < hold; h++ {
						o := p.Get()
						b.got(o)
						b.write(o, 100*t+10*r+h)
						os = append(os, o)
					}
					vsched.Point("using")
					for h, o := range os {
						b.check(o, 100*t+10*r+h)
						if keep && r == 0 && h == 0 && t == 0 {
							continue
						}
						b.held[o.id].Add(-1)
						p.Put(o)
					}
				}
			}))
		}
		vsched.Join(ts...)
	}
}

// sequences: every sequence of operations of one goroutine.
func sequences(depth int) func() {
	return func() {
		var p, q syncpoolx.Pool[obj]
		b, c := &book{}, &book{}
		p.Init(b.make)
		q.Init(c.make)
		var held []*obj
		made := 0
		for d := 0; d < depth; d++ {
			op := vsched.Choose(2 + len(held))
			switch {
			case op == 0:
				o := p.Get()
				made++
				b.got(o)
				b.write(o, d)
				held = append(held, o)
			case op == 1:
				// another pool: its objects are its own
				o := q.Get()
				if o.tag != -1 {
					vsched.Fail("a second pool handed out contents %d", o.tag)
				}
				c.got(o)
			default:
				o := held[op-2]
				held = append(append([]*obj{}, held[:op-2]...), held[op-1:]...)
				b.held[o.id].Add(-1)
				p.Put(o)
			}
		}
		if int(b.made.Get()) > made {
			vsched.Fail("%d objects built for %d Gets", b.made.Get(), made)
		}
	}
}

// crowd: many objects held at once, put back in several orders, and taken
// again, in rounds of different sizes.
func crowd(sizes []int) func() {
	return func() {
		var p syncpoolx.Pool[obj]
		made := 0
		held := map[*obj]bool{}
		tags := map[*obj]int{}
		p.Init(func() *obj {
			made++
			return &obj{id: made, tag: -1}
		})
		clock := 0
		for round := 0; round < 3; round++ {
			n := sizes[vsched.Choose(len(sizes))]
			var os []*obj
			for i := 0; i < n; i++ {
				before := made
				o := p.Get()
				if held[o] {
					vsched.Fail("object %d of %d is handed out twice", i, n)
				}
				if w, old := tags[o]; old && o.tag != w || !old && (o.tag != -1 || made != before+1) {
					vsched.Fail("object %d of %d holds %d, was left with %d (%v)", i, n, o.tag, w, old)
				}
				held[o] = true
				clock++
				o.tag, tags[o] = clock, clock
				os = append(os, o)
			}
			order := vsched.Choose(3)
			for i := range os {
				o := os[i]
				switch order {
				case 1:
					o = os[n-1-i]
				case 2:
					o = os[(i+n/2)%n]
				}
				if o.tag != tags[o] {
					vsched.Fail("an object changed while held")
				}
				delete(held, o)
				p.Put(o)
			}
		}
	}
}

// producer: objects put by one goroutine, taken by another.
func producer(n int) func() {
	return func() {
		var p syncpoolx.Pool[obj]
		b := &book{}
		p.Init(b.make)
		a := vsched.GoNamed("putter", func() {
			for i := 0; i < n; i++ {
				o := b.make()
				b.held[o.id].Add(1)
				b.write(o, 50+i)
				b.held[o.id].Add(-1)
				p.Put(o)
			}
		})
		c := vsched.GoNamed("getter", func() {
			for i := 0; i < n; i++ {
				o := p.Get()
				b.got(o)
				b.write(o, 70+i)
			}
		})
		vsched.Join(a, c)
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C14",
		Level:       "model_checking",
		Rule:        "every sequence of Get and Put of one goroutine and every interleaving, within the bounds, of 2-3 goroutines; every Get of the underlying pool may return any object put before (dropping others) or a fresh one",
		Bounds:      "sequences of 7 (9) operations; 2-3 goroutines, 2-3 rounds; up to 1025 objects held at once; deviation bounds per unit; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"sync.Pool is replaced by its specification: Get returns any previously put object not yet taken, or a new one", "every object is put back at most once per Get"},
		Units: func(th bool) []drv.Unit {
			d, x := 8, 0
			if th {
				d, x = 9, 1
			}
			us := []drv.Unit{{Name: "sequences", Pool: 2, Shards: 8, Split: 3, Thread: true, Delay: true, Body: sequences(d)},
				{Name: "shapes", Pool: 2, Thread: true, Delay: true, Body: func() { everyShape[vsched.Choose(len(everyShape))]() }}}
			us = append(us, drv.Unit{Name: "crowd", Steps: 1 << 30, Shards: 8, Split: 2, Body: crowd([]int{1, 9, 65, 1025})})
			add := func(name string, dl, p int, f func()) {
				us = append(us, drv.Bounds(drv.Unit{Name: name, Pool: 2, Shards: 8, Body: f}, dl+x, p+x)...)
			}
			add("two-users", 4, 3, threads(2, 3, 1, false))
			add("two-users-two-objects", 3, 2, threads(2, 2, 2, false))
			add("three-users", 3, 2, threads(3, 2, 1, false))
			add("keeping", 4, 3, threads(2, 3, 1, true))
			add("hand-over", 5, 4, producer(3))
			return us
		},
	})
}
