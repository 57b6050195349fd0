// C07: a lazy value is constructed once and published safely.
package main

import (
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type obj struct {
	serial int
	fields [3]int
	done   bool
}

func fill(o *obj, serial int) {
	o.serial = serial
	for i := range o.fields {
		o.fields[i] = serial*10 + i
		vsched.Point("constructing")
	}
	o.done = true
}

func whole(o obj) bool {
	if !o.done {
		return false
	}
	for i := range o.fields {
		if o.fields[i] != o.serial*10+i {
			return false
		}
	}
	return true
}

// pointer: the value is a pointer to an object built in steps.
func pointer(getters, gets int, idle bool) func() {
	return func() {
		var runs, finished vsched.Counter
		l := lazyx.New(func() *obj {
			if n := runs.Add(1); n > 1 {
				vsched.Fail("constructor runs a second time")
			}
			o := &obj{}
			fill(o, 7)
			finished.Add(1)
			return o
		})
		if idle {
			vsched.Quiesce(0)
		}
		if runs.Get() != 0 {
			vsched.Fail("constructor ran before the first Get")
		}
		var first vsched.Counter
		var ts []*vsched.Thread
		ptrs := make([]*obj, getters)
		for g := 0; g < getters; g++ {
			g := g
			ts = append(ts, vsched.GoNamed("getter", func() {
				for k := 0; k < gets; k++ {
					o := l.Get()
					if finished.Get() != 1 {
						vsched.Fail("Get returned before the constructor finished (%d runs finished)", finished.Get())
					}
					if o == nil || !whole(*o) {
						vsched.Fail("Get returned an incomplete value: %+v", o)
					}
					if k > 0 && ptrs[g] != o {
						vsched.Fail("two Gets returned different values")
					}
					ptrs[g] = o
					if first.Get() == 0 {
						first.Set(int64(g) + 1)
					}
				}
			}))
		}
		vsched.Join(ts...)
		for g := 1; g < getters; g++ {
			if ptrs[g] != ptrs[0] {
				vsched.Fail("goroutines got different values")
			}
		}
		if runs.Get() != 1 {
			vsched.Fail("constructor ran %d times", runs.Get())
		}
		if l.Get() != ptrs[0] || runs.Get() != 1 {
			vsched.Fail("a later Get differs")
		}
		vsched.Outcome("first=%d", first.Get())
	}
}

// value: the value is a large struct, copied out.
func value(getters int) func() {
	return func() {
		var runs vsched.Counter
		l := lazyx.New(func() obj {
			n := runs.Add(1)
			var o obj
			fill(&o, int(n))
			return o
		})
		var ts []*vsched.Thread
		for g := 0; g < getters; g++ {
			ts = append(ts, vsched.GoNamed("getter", func() {
				o := l.Get()
				if !whole(o) || o.serial != 1 {
					vsched.Fail("Get returned %+v", o)
				}
			}))
		}
		vsched.Join(ts...)
		if runs.Get() != 1 {
			vsched.Fail("constructor ran %d times", runs.Get())
		}
	}
}

// independent: two lazy values; the first one's constructor uses the second.
func independent() {
	var ra, rb vsched.Counter
	b := lazyx.New(func() *obj { rb.Add(1); o := &obj{}; fill(o, 2); return o })
	a := lazyx.New(func() *obj {
		ra.Add(1)
		if o := b.Get(); !whole(*o) || o.serial != 2 {
			vsched.Fail("inner value %+v", o)
		}
		o := &obj{}
		fill(o, 1)
		return o
	})
	var ts []*vsched.Thread
	for g := 0; g < 2; g++ {
		g := g
		ts = append(ts, vsched.GoNamed("getter", func() {
			x, y := a, b
			want := [2]int{1, 2}
			if g == 1 {
				x, y = b, a
				want = [2]int{2, 1}
			}
			if o := x.Get(); !whole(*o) || o.serial != want[0] {
				vsched.Fail("got %+v", o)
			}
			if o := y.Get(); !whole(*o) || o.serial != want[1] {
				vsched.Fail("got %+v", o)
			}
		}))
	}
	vsched.Join(ts...)
	if ra.Get() != 1 || rb.Get() != 1 {
		vsched.Fail("constructors ran %d and %d times", ra.Get(), rb.Get())
	}
}

// holding: one value's slow constructor must not block another value.
func holding() {
	var gate vsched.Gate
	slow := lazyx.New(func() int { gate.Wait(); return 1 })
	fast := lazyx.New(func() int { return 2 })
	t := vsched.GoNamed("slow", func() { slow.Get() })
	u := vsched.GoNamed("fast", func() {
		if v := fast.Get(); v != 2 {
			vsched.Fail("got %d", v)
		}
		gate.Open()
	})
	vsched.Join(u, t)
	if v := slow.Get(); v != 1 {
		vsched.Fail("got %d", v)
	}
}

// zeroes: constructors that return zero values still run once.
func zeroes() {
	k := 1 + vsched.Choose(4)
	n := 0
	check := func(what string, get func() bool) {
		n = 0
		for i := 0; i < k; i++ {
			if !get() {
				vsched.Fail("%s: wrong value at Get %d", what, i+1)
			}
			if n != 1 {
				vsched.Fail("%s: constructor ran %d times after %d Gets", what, n, i+1)
			}
		}
	}
	li := lazyx.New(func() int { n++; return 0 })
	lp := lazyx.New(func() *int { n++; return nil })
	ls := lazyx.New(func() string { n++; return "" })
	le := lazyx.New(func() error { n++; return nil })
	lf := lazyx.New(func() []int { n++; return nil })
	lb := lazyx.New(func() bool { n++; return false })
	if n != 0 {
		vsched.Fail("New ran a constructor")
	}
	check("int", func() bool { return li.Get() == 0 })
	check("pointer", func() bool { return lp.Get() == nil })
	check("string", func() bool { return ls.Get() == "" })
	check("error", func() bool { return le.Get() == nil })
	check("slice", func() bool { return lf.Get() == nil })
	check("bool", func() bool { return !lb.Get() })
	c := 0
	lc := lazyx.New(func() int { c++; return c + 41 })
	for i := 0; i < k; i++ {
		drv.Eq("counting constructor", lc.Get(), 42)
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C07",
		Level:       "model_checking",
		Rule:        "every interleaving, within the bounds, of getters on one or two lazy values whose constructors take several steps; the outcome names the getter that finished first",
		Bounds:      "2-3 getters, 1-2 Gets each, constructors of 3 steps; deviation bounds per unit; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"constructors return (a panicking constructor is outside the property)", "unsynchronised accesses are reported by the race detector on every explored schedule"},
		Units: func(th bool) []drv.Unit {
			us := []drv.Unit{{Name: "zero-values", Body: zeroes}, {Name: "shapes", Body: func() { everyShape[vsched.Choose(len(everyShape))]() }}}
			x := 0
			if th {
				x = 2
			}
			add := func(name string, delay, preempt int, f func()) {
				us = append(us, drv.Bounds(drv.Unit{Name: name, Body: f}, delay+x, preempt+x)...)
			}
			add("two-getters", 40, 40, pointer(2, 2, true))
			add("three-getters", 6, 4, pointer(3, 1, false))
			add("three-getters-twice", 5, 3, pointer(3, 2, false))
			add("struct-value", 6, 3, value(3))
			add("independent", 7, 5, independent)
			add("holding", 40, 40, holding)
			return us
		},
	})
}
