// C10: the pointer lock gives exclusive access and always completes.
package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/syncx/lockx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type pair struct{ a, b int }

// contend: threads increment one value, k times each.
func contend(threads, k int) func() {
	return func() {
		v := &pair{}
		var in, calls vsched.Counter
		var ts []*vsched.Thread
		for t := 0; t < threads; t++ {
			ts = append(ts, vsched.GoNamed("locker", func() {
				for i := 0; i < k; i++ {
					before := calls.Get()
					mine := 0
					lockx.Lock(v, func(p *pair) {
						mine++
						calls.Add(1)
						if p != v {
							vsched.Fail("f got another pointer")
						}
						if in.Add(1) != 1 {
							vsched.Fail("two calls for the same value overlap")
						}
						a := p.a
						vsched.Point("holding")
						if p.a != a || p.b != a {
							vsched.Fail("the value changed under the lock: %+v, was %d", *p, a)
						}
						p.a = a + 1
						p.b = a + 1
						in.Add(-1)
					})
					if mine != 1 {
						vsched.Fail("f ran %d times", mine)
					}
					if calls.Get() <= before {
						vsched.Fail("Lock returned before f")
					}
				}
			}))
		}
		vsched.Join(ts...)
		if *v != (pair{threads * k, threads * k}) {
			vsched.Fail("changes lost: %+v after %d calls", *v, threads*k)
		}
	}
}

// separate: a holder of one value waits for a holder of another.
func separate() {
	x, y := new(int), new(int)
	var gate vsched.Gate
	t := vsched.GoNamed("x", func() { lockx.Lock(x, func(p *int) { gate.Wait(); *p = 1 }) })
	u := vsched.GoNamed("y", func() { lockx.Lock(y, func(p *int) { *p = 2; gate.Open() }) })
	vsched.Join(t, u)
	if *x != 1 || *y != 2 {
		vsched.Fail("values %d %d", *x, *y)
	}
}

// nested: both threads lock x then y; a third locks y alone.
func nested(third bool) func() {
	return func() {
		x, y := &pair{}, &pair{}
		var inx, iny vsched.Counter
		hold := func(c *vsched.Counter, p *pair) {
			if c.Add(1) != 1 {
				vsched.Fail("two calls for the same value overlap")
			}
			p.a++
			vsched.Point("holding")
			p.b++
			if p.a != p.b {
				vsched.Fail("interference: %+v", *p)
			}
			c.Add(-1)
		}
		var ts []*vsched.Thread
		for i := 0; i < 2; i++ {
			ts = append(ts, vsched.GoNamed("nested", func() {
				lockx.Lock(x, func(p *pair) {
					if inx.Add(1) != 1 {
						vsched.Fail("two calls for the same value overlap")
					}
					lockx.Lock(y, func(q *pair) { hold(&iny, q) })
					p.a++
					p.b++
					inx.Add(-1)
				})
			}))
		}
		n := 2
		if third {
			n = 3
			ts = append(ts, vsched.GoNamed("inner", func() { lockx.Lock(y, func(q *pair) { hold(&iny, q) }) }))
		}
		vsched.Join(ts...)
		if *x != (pair{2, 2}) || *y != (pair{n, n}) {
			vsched.Fail("changes lost: %+v %+v", *x, *y)
		}
	}
}

// panics: a panicking f does not leave the lock held.
func panics() {
	v := new(int)
	var ts []*vsched.Thread
	for i := 0; i < 2; i++ {
		i := i
		ts = append(ts, vsched.GoNamed("locker", func() {
			if i == 0 {
				p := drv.Try(func() { lockx.Lock(v, func(p *int) { *p += 10; panic("boom") }) })
				if p != "boom" {
					vsched.Fail("the panic of f became %v", p)
				}
			}
			lockx.Lock(v, func(p *int) { *p++ })
		}))
	}
	vsched.Join(ts...)
	if *v != 12 {
		vsched.Fail("value %d, want 12", *v)
	}
}

// patient: the lock is held while waiters get many turns; nobody is let in.
func patient(turns ...int) func() {
	return func() {
		n := turns[vsched.Choose(len(turns))]
		waiters := 1 + vsched.Choose(3)
		v := &pair{}
		var in vsched.Counter
		var got vsched.Gate
		holder := vsched.GoNamed("holder", func() {
			lockx.Lock(v, func(p *pair) {
				in.Add(1)
				got.Open()
				for i := 0; i < n; i++ {
					p.a = i
					vsched.Gosched()
					if p.a != i || in.Get() != 1 {
						vsched.Fail("turn %d: interference with the holder: %+v", i, *p)
					}
				}
				p.a, p.b = 1, 1
				in.Add(-1)
			})
		})
		got.Wait()
		var ts []*vsched.Thread
		for i := 0; i < waiters; i++ {
			ts = append(ts, vsched.GoNamed("waiter", func() {
				lockx.Lock(v, func(p *pair) {
					if in.Add(1) != 1 {
						vsched.Fail("two calls for the same value overlap")
					}
					p.a++
					vsched.Point("holding")
					p.b++
					if p.a != p.b {
						vsched.Fail("interference: %+v", *p)
					}
					in.Add(-1)
				})
			}))
		}
		vsched.Join(append(ts, holder)...)
		if *v != (pair{1 + waiters, 1 + waiters}) {
			vsched.Fail("changes lost: %+v after %d calls", *v, 1+waiters)
		}
	}
}

// many: a row of values is locked at once, each by its own holder, or all
// by one; waiters for each.
func many(n int) func() {
	return func() {
		vs := make([]pair, n)
		nested := vsched.Choose(2) == 1
		ins := make([]vsched.Counter, n)
		inc := func(i int) func(*pair) {
			return func(p *pair) {
				if p != &vs[i] {
					vsched.Fail("f got another pointer")
				}
				if ins[i].Add(1) != 1 {
					vsched.Fail("two calls for the same value overlap")
				}
				p.a++
				vsched.Point("holding")
				p.b++
				ins[i].Add(-1)
			}
		}
		var all func(i int)
		all = func(i int) {
			if i == n {
				return
			}
			lockx.Lock(&vs[i], func(p *pair) {
				if ins[i].Add(1) != 1 {
					vsched.Fail("two calls for the same value overlap")
				}
				p.a++
				all(i + 1)
				p.b++
				ins[i].Add(-1)
			})
		}
		t := vsched.GoNamed("first", func() {
			if nested {
				all(0)
				return
			}
			for i := range vs {
				lockx.Lock(&vs[i], inc(i))
			}
		})
		u := vsched.GoNamed("second", func() {
			for i := range vs {
				lockx.Lock(&vs[n-1-i], inc(n-1-i))
			}
		})
		vsched.Join(t, u)
		for i, v := range vs {
			if v != (pair{2, 2}) {
				vsched.Fail("value %d: %+v after two calls", i, v)
			}
		}
	}
}

// overlaps: a value, its first part, that part's first part and a view of
// another type are different values: they are locked inside one another.
func overlaps() {
	type inner struct{ p pair }
	type outer struct {
		in   [2]inner
		last int
	}
	type view outer
	v := &outer{}
	calls := 0
	locks := []func(f func()){
		func(f func()) { lockx.Lock(v, func(p *outer) { calls++; p.last++; f() }) },
		func(f func()) { lockx.Lock(&v.in, func(p *[2]inner) { calls++; p[1].p.b++; f() }) },
		func(f func()) { lockx.Lock(&v.in[0], func(p *inner) { calls++; f() }) },
		func(f func()) { lockx.Lock(&v.in[0].p, func(p *pair) { calls++; p.b++; f() }) },
		func(f func()) { lockx.Lock(&v.in[0].p.a, func(p *int) { calls++; *p++; f() }) },
		func(f func()) { lockx.Lock((*view)(v), func(p *view) { calls++; f() }) },
	}
	// every order of every choice of them
	want := 0
	var nest func(used int)
	nest = func(used int) {
		k := vsched.Choose(len(locks) + 1)
		if k == len(locks) || used&(1<<k) != 0 {
			return
		}
		want++
		locks[k](func() { nest(used | 1<<k) })
	}
	nest(0)
	if calls != want {
		vsched.Fail("%d calls, want %d", calls, want)
	}
	// none is left held
	for _, l := range locks {
		l(func() {})
	}
}

type big [5]string
type self struct {
	me *self
	n  int
}

func one[T comparable](what string, init, next T, k int) {
	v := new(T)
	*v = init
	want := init
	for i := 0; i < k; i++ {
		calls := 0
		drv.NoPanic(what, func() {
			lockx.Lock(v, func(p *T) {
				calls++
				if p != v {
					vsched.Fail("%s: f got another pointer", what)
				}
				if *p != want {
					vsched.Fail("%s: f sees %v, want %v", what, *p, want)
				}
				*p = next
			})
		})
		if calls != 1 {
			vsched.Fail("%s: f ran %d times", what, calls)
		}
		want = next
		if *v != want {
			vsched.Fail("%s: value is %v afterwards, want %v", what, *v, want)
		}
	}
}

// kinds: values of every shape, with neighbours that must not change.
func kinds() {
	k := 1 + vsched.Choose(3)
	one("int", 0, 7, k)
	one("int set", 9, 0, k)
	one("int8", int8(-1), int8(3), k)
	one("bool", false, true, k)
	one("string", "", "x", k)
	one("string set", "abc", "", k)
	one("float", 1.5, 0, k)
	x := 5
	one("pointer", (*int)(nil), &x, k)
	one("pointer set", &x, nil, k)
	one("struct", pair{1, 2}, pair{}, k)
	one("array", big{"a"}, big{"", "b"}, k)
	one[any]("interface", nil, 3, k)
	one[error]("error", fmt.Errorf("e"), nil, k)
	s := &self{n: 1}
	s.me = s
	for i := 0; i < k; i++ {
		lockx.Lock(s, func(p *self) { p.n++ })
		if s.me != s || s.n != i+2 {
			vsched.Fail("self-referential value became %+v", *s)
		}
	}
	arr := [8]byte{1, 2, 3, 4, 5, 6, 7, 8}
	for i := range arr {
		lockx.Lock(&arr[i], func(p *byte) {
			for j := range arr {
				if j == i {
					continue
				}
				lockx.Lock(&arr[j], func(q *byte) { *q++; *q-- })
			}
			*p += 10
		})
	}
	if arr != [8]byte{11, 12, 13, 14, 15, 16, 17, 18} {
		vsched.Fail("neighbouring bytes became %v", arr)
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C10",
		Level:       "model_checking",
		Rule:        "every interleaving, within the bounds, of 2-3 lockers of one value, of nested lockers of two values, and of a panicking one; values of 13 shapes sequentially; a value, its parts and views of it nested in every order",
		Bounds:      "2-3 threads, 1-2 Lock calls each; deviation bounds per unit; 9 and 300 values locked together; a value held over up to 70000 (2^20) turns of 1-3 waiters; a Lock that spins alone is cut at 2000 steps and reported",
		Assumptions: []string{"values of non-zero size (distinct zero-size variables may share an address)", "the lock is not taken twice by one goroutine for the same value"},
		Units: func(th bool) []drv.Unit {
			us := []drv.Unit{{Name: "value-shapes", Steps: 20000, Body: kinds}, {Name: "overlaps", Steps: 2000, Body: overlaps}}
			x := 0
			if th {
				x = 1
			}
			add := func(name string, delay, preempt int, f func()) {
				us = append(us, drv.Bounds(drv.Unit{Name: name, Steps: 2000, Body: f}, delay+x, preempt+x)...)
			}
			add("two", 9, 6, contend(2, 2))
			add("three", 6, 4, contend(3, 1))
			add("three-twice", 5, 3, contend(3, 2))
			add("separate", 40, 40, separate)
			add("nested", 9, 6, nested(false))
			add("nested-three", 5, 3, nested(true))
			add("panicking", 40, 40, panics)
			turns := []int{1, 100, 1100, 20000, 70000, 1 << 20}
			us = append(us, drv.Unit{Name: "patient", Thread: true, Delay: true, Steps: 50 << 20, Body: patient(turns[:5+x]...)})
			us = append(us, drv.Unit{Name: "many", Thread: true, Delay: true, Bound: 2 + x, Steps: 20000, Body: many(9)})
			us = append(us, drv.Unit{Name: "many-large", Thread: true, Delay: true, Bound: 0, Steps: 200000, Body: many(300)})
			return us
		},
	})
}
