// I05: functions handed to the library may panic or end their goroutine.
package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/syncx/lockx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/typex/convx"
	"verif.local/mc/harness/comp"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

var sentinel = errors.New("sentinel")

type custom struct{ n int }

var pointer = &custom{7}

const (
	text = iota
	errval
	structure
	fault
	goexit
	endings
)

func boom(kind int) {
	switch kind {
	case text:
		panic("boom")
	case errval:
		panic(sentinel)
	case structure:
		panic(pointer)
	case fault:
		var a []int
		_ = a[kind]
	case goexit:
		runtime.Goexit()
	}
}

// outcome of a call that may not return.
type outcome struct {
	normal, exited bool
	val            any
}

// call runs f in a goroutine of its own.
func call(f func()) (o outcome) {
	o.exited = true
	vsched.Join(vsched.GoNamed("caller", func() {
		here(&o, f)
		o.exited = false
	}))
	return
}

func here(o *outcome, f func()) {
	defer func() {
		if !o.normal {
			if v := recover(); v != nil {
				if vsched.IsAbort(v) {
					panic(v)
				}
				o.val = v
			}
		}
	}()
	f()
	o.normal = true
}

func (o outcome) is(what string, kind int) {
	if o.normal {
		vsched.Fail("%s: the %s was swallowed", what, [...]string{"panic", "panic", "panic", "panic", "end of the goroutine"}[kind])
	}
	ok := !o.exited
	switch kind {
	case text:
		ok = ok && o.val == "boom"
	case errval:
		ok = ok && o.val == any(sentinel)
	case structure:
		ok = ok && o.val == any(pointer)
	case fault:
		_, r := o.val.(runtime.Error)
		ok = ok && r
	case goexit:
		ok = o.exited && o.val == nil
	}
	if !ok {
		vsched.Fail("%s: ending %d became %v (goroutine ended: %v)", what, kind, o.val, o.exited)
	}
}

// printing: package fmt itself swallows a panic of a value's String method.
func printing(op string) bool { return strings.Contains(op, "String") || op == "Join" }

func none() {}

// at ends the k-th call.
func at(k, kind int) func() {
	n := -1
	return func() {
		if n++; n == k {
			boom(kind)
		}
	}
}

func readings(s comp.Script) (r []string) {
	if s.Read == nil {
		return nil
	}
	for _, o := range s.Read() {
		r = append(r, o.Run(none))
	}
	return
}

// component: the operation ended at any call; then everything of the
// component still works, including the operations on the same value.
func component(s comp.Script) func() {
	return func() {
		vcrand.Reset()
		vcrand.Quiet, vargon2.Quiet = true, true
		defer func() { vcrand.Quiet, vargon2.Quiet = false, false }()
		model := s.Back()
		i := vsched.Choose(len(model))
		calls := 0
		var want []string
		for j, o := range model {
			cb := none
			if i == j {
				cb = func() { calls++ }
			}
			want = append(want, o.Run(cb))
		}
		if calls == 0 {
			vsched.Fail("%s never calls back", model[i].Name)
		}
		k := vsched.Choose(calls)
		kind := vsched.Choose(endings)
		reads := readings(s)
		ops := s.Back()
		what := fmt.Sprintf("%s ended at call %d", ops[i].Name, k)
		o := call(func() { ops[i].Run(at(k, kind)) })
		if !printing(ops[i].Name) || kind == goexit {
			o.is(what, kind)
		}
		drv.NoPanic("use after "+what, func() {
			for _, j := range []int{i, -1} {
				for l, x := range ops {
					if (j >= 0) != (l == i) {
						continue
					}
					if r := x.Run(none); r != want[l] {
						vsched.Fail("after %s, %s gives %q, want %q", what, x.Name, r, want[l])
					}
				}
			}
			for l, r := range readings(s) {
				if r != reads[l] {
					vsched.Fail("after %s, reading %d gives %q, want %q", what, l, r, reads[l])
				}
			}
			s.Run(1, none)
		})
	}
}

// same: an operation that only reads, ended at any call, leaves its value as it is.
func same() {
	pair := comp.Shared[vsched.Choose(len(comp.Shared))]
	twin := pair()
	calls := 0
	want := twin.Outer.Run(func() { calls++ })
	var alone []string
	for _, o := range twin.Reads {
		alone = append(alone, o.Run(nil))
	}
	k := vsched.Choose(calls)
	kind := vsched.Choose(endings)
	p := pair()
	what := fmt.Sprintf("%s ended at call %d", p.Outer.Name, k)
	o := call(func() { p.Outer.Run(at(k, kind)) })
	if !printing(p.Outer.Name) || kind == goexit {
		o.is(what, kind)
	}
	drv.NoPanic("use after "+what, func() {
		for l, r := range p.Reads {
			if got := r.Run(nil); got != alone[l] {
				vsched.Fail("after %s, %s gives %q, want %q", what, r.Name, got, alone[l])
			}
		}
		if got := p.Outer.Run(none); got != want {
			vsched.Fail("after %s, the same gives %q, want %q", what, got, want)
		}
	})
}

// editing: a Range whose function changes the map and then ends.
func editing() {
	m := ordmapx.New[int, int]()
	model := map[int]int{}
	set := func(k, v int) { m.Set(k, v); model[k] = v }
	for i := 0; i < 4; i++ {
		set(2*i, 10*i)
	}
	k := vsched.Choose(4)
	kind := vsched.Choose(endings)
	type edit struct{ del, key int }
	var edits []edit
	for i := vsched.Choose(3); i > 0; i-- {
		edits = append(edits, edit{vsched.Choose(2), vsched.Choose(9) - 1})
	}
	nested := vsched.Choose(2)
	n := -1
	o := call(func() {
		m.Range(func(key, v int) bool {
			if n++; n < k {
				return false
			}
			for _, e := range edits {
				if e.del == 1 {
					m.Del(e.key)
					delete(model, e.key)
				} else {
					set(e.key, 100+e.key)
				}
			}
			if nested == 1 {
				m.Range(func(int, int) bool { boom(kind); return true })
			}
			boom(kind)
			return false
		})
	})
	if !(nested == 1 && len(model) == 0) {
		o.is("Range", kind)
	}
	drv.NoPanic("use of the map after Range ended", func() {
		check := func() {
			if m.Len() != len(model) {
				vsched.Fail("Len is %d after %v, contents %v", m.Len(), edits, model)
			}
			var keys, values []int
			for i := -1; i < 10; i++ {
				v, ok := m.Get(i)
				w, in := model[i]
				if ok != in || v != w {
					vsched.Fail("Get(%d) is (%d, %v) after %v, contents %v", i, v, ok, edits, model)
				}
				if in {
					keys, values = append(keys, i), append(values, w)
				}
			}
			drv.EqSlice("Keys", m.Keys(), keys)
			drv.EqSlice("Values", m.Values(), values)
			var seen []int
			m.Range(func(k, v int) bool {
				if v != model[k] {
					vsched.Fail("Range visits (%d, %d), contents %v", k, v, model)
				}
				seen = append(seen, k)
				return false
			})
			drv.EqSlice("Range", seen, keys)
		}
		check()
		set(3, 33)
		check()
		for i := -1; i < 10; i++ {
			if _, in := model[i]; in {
				delete(model, i)
				m.Del(i)
				check()
			}
		}
	})
}

// partial: a slice whose filter or order was cut short still has its own
// elements only, and works.
func partial() {
	src := []int{5, 3, 8, 1, 9, 2}
	own := map[int]bool{}
	for _, v := range src {
		own[v] = true
	}
	s := slicex.New(append([]int(nil), src...)...)
	kind := vsched.Choose(endings)
	k := vsched.Choose(6)
	mask := vsched.Choose(64)
	i, n := 0, at(k, kind)
	op := vsched.Choose(3)
	call(func() {
		switch op {
		case 0:
			s.Filter(func(int) bool { n(); i++; return mask>>(i-1)&1 == 1 })
		case 1:
			sortx.SortCustom(*s, func(a, b int) bool { n(); return a < b })
		case 2:
			sortx.SortStableCustom(*s, func(a, b int) bool { n(); return a < b })
		}
	}).is("Filter or sort", kind)
	drv.NoPanic("use of the slice afterwards", func() {
		if s.Len() > len(src) || op > 0 && s.Len() != len(src) {
			vsched.Fail("%d elements of %d", s.Len(), len(src))
		}
		want := append([]int(nil), *s...)
		for _, v := range want {
			if !own[v] {
				vsched.Fail("%v has an element that was never there, from %v", *s, src)
			}
		}
		s.Push(77)
		drv.EqSlice("after Push", *s, append(want, 77))
		s.Filter(func(v int) bool { return v == 77 })
		drv.EqSlice("after Filter", *s, []int{77})
	})
}

// lock: a locked body ends; two others and the same goroutine still lock.
func lock(others int) func() {
	return func() {
		v, w := new(int), new(int)
		kind := vsched.Choose(endings)
		nested := vsched.Choose(2)
		var in vsched.Counter
		body := func(p *int, d int) {
			if in.Add(1) != 1 {
				vsched.Fail("two calls for the same value overlap")
			}
			*p += d
			vsched.Point("holding")
			in.Add(-1)
		}
		var ts []*vsched.Thread
		ts = append(ts, vsched.GoNamed("ended", func() {
			call(func() {
				lockx.Lock(v, func(p *int) {
					body(p, 10)
					if nested == 1 {
						lockx.Lock(w, func(*int) { boom(kind) })
					}
					boom(kind)
				})
			}).is("Lock", kind)
			lockx.Lock(w, func(p *int) { *p += 10 })
			lockx.Lock(v, func(p *int) { body(p, 1) })
		}))
		for i := 0; i < others; i++ {
			ts = append(ts, vsched.GoNamed("locker", func() {
				lockx.Lock(v, func(p *int) { body(p, 1) })
				lockx.Lock(w, func(p *int) { *p++ })
			}))
		}
		vsched.Join(ts...)
		if *v != 11+others || *w != 10+others {
			vsched.Fail("values %d %d", *v, *w)
		}
	}
}

type closer struct{ f func() error }

func (c closer) Close() error { return c.f() }

// manager: a closer ends; the manager can still be used.
func manager(concurrent bool) func() {
	return func() {
		m := closex.New()
		kind := vsched.Choose(endings)
		n := 1 + vsched.Choose(3)
		k := vsched.Choose(n)
		armed := true
		var ran [4]vsched.Counter
		for i := 0; i < n; i++ {
			m.Append(closer{func() error {
				if i == k && armed {
					boom(kind)
				}
				ran[i].Add(1)
				return sentinel
			}})
		}
		late := func() error { ran[3].Add(1); return nil }
		var ts []*vsched.Thread
		if concurrent {
			ts = append(ts, vsched.GoNamed("append", func() { m.Append(closer{late}) }))
		}
		call(func() { m.Close() }).is("Close", kind)
		vsched.Join(ts...)
		for i := 0; i < k; i++ {
			if ran[i].Get() != 1 {
				vsched.Fail("closer %d of %d ran %d times before the one that ended", i, k, ran[i].Get())
			}
		}
		armed = false
		drv.NoPanic("use of the manager afterwards", func() {
			if !concurrent {
				m.Append(closer{late})
			}
			if ran[3].Get() == 0 {
				m.Close()
			}
			if ran[3].Get() != 1 {
				vsched.Fail("a closer appended after the failure was closed %d times", ran[3].Get())
			}
		})
	}
}

// lazy: the constructor ends; nobody blocks, and only its value can come out.
func lazy(threads int) func() {
	return func() {
		kind := vsched.Choose(endings)
		var calls vsched.Counter
		l := lazyx.New(func() int {
			vsched.Point("building")
			if calls.Add(1) == 1 {
				boom(kind)
			}
			return 8
		})
		get := func() outcome {
			return call(func() {
				if v := l.Get(); v != 0 && v != 8 {
					vsched.Fail("Get gives %d", v)
				}
			})
		}
		var failed vsched.Counter
		var ts []*vsched.Thread
		for i := 0; i < threads; i++ {
			ts = append(ts, vsched.GoNamed("get", func() {
				if o := get(); !o.normal {
					o.is("Get", kind)
					failed.Add(1)
				}
			}))
		}
		vsched.Join(ts...)
		if failed.Get() == 0 {
			vsched.Fail("the constructor ended with %d, but every Get returned", kind)
		}
		if o := get(); !o.normal {
			o.is("later Get", kind)
		}
	}
}

// pool: the constructor of an object ends.
func pool(threads int) func() {
	return func() {
		kind := vsched.Choose(endings)
		fail := int64(1 + vsched.Choose(2))
		var calls vsched.Counter
		var p syncpoolx.Pool[[1]int]
		p.Init(func() *[1]int {
			if calls.Add(1) == fail {
				boom(kind)
			}
			return &[1]int{5}
		})
		use := func() {
			x := p.Get()
			if x[0] != 5 {
				vsched.Fail("object %v", *x)
			}
			x[0] = 6
			vsched.Point("holding")
			if x[0] != 6 {
				vsched.Fail("two holders of one object")
			}
			x[0] = 5
			p.Put(x)
		}
		var ts []*vsched.Thread
		var failed vsched.Counter
		for i := 0; i < threads; i++ {
			ts = append(ts, vsched.GoNamed("user", func() {
				for j := 0; j < 2; j++ {
					if o := call(use); !o.normal {
						o.is("Get", kind)
						failed.Add(1)
					}
				}
			}))
		}
		vsched.Join(ts...)
		if w := calls.Get() >= fail; w != (failed.Get() == 1) {
			vsched.Fail("%d calls of the constructor, number %d ended, %d Gets did", calls.Get(), fail, failed.Get())
		}
	}
}

// ring: the view or drop function ends.
func ring(writer bool) func() {
	return func() {
		kind := vsched.Choose(endings)
		inDrop := vsched.Choose(2) == 1
		k := vsched.Choose(3)
		size := 2 + vsched.Choose(2)
		drops := map[string]int{}
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
			drops[string(b)]++
			if inDrop {
				boom(kind)
			}
			return 3, io.ErrShortWrite
		})
		write := func(s string) {
			if n, err := d.Write([]byte(s)); n != len(s) || err != nil {
				vsched.Fail("Write(%s) with room gives (%d, %v)", s, n, err)
			}
		}
		for i := 0; i < size; i++ {
			write(fmt.Sprint("w", i))
		}
		if inDrop {
			call(func() { d.Write([]byte("x")) }).is("Write", kind)
			if drops["x"] != 1 || len(drops) != 1 {
				vsched.Fail("drops %v", drops)
			}
		}
		var t []*vsched.Thread
		var got []string
		viewed := at(k, kind)
		late := ""
		if writer {
			// One read makes room for the concurrent writer.
			if !d.Next(func(b []byte) { got = append(got, string(b)) }) {
				vsched.Fail("nothing to read")
			}
			late = "late"
			t = append(t, vsched.GoNamed("writer", func() { write(late) }))
		}
		next := func() bool {
			before := len(got)
			r := false
			o := call(func() {
				r = d.Next(func(b []byte) {
					got = append(got, string(b))
					if !inDrop {
						viewed()
					}
				})
			})
			if !o.normal {
				o.is("Next", kind)
				return true
			}
			if r != (len(got) == before+1) {
				vsched.Fail("Next is %v with %d views", r, len(got)-before)
			}
			return r
		}
		for next() {
		}
		vsched.Join(t...)
		for next() {
		}
		// Whatever was being viewed when it ended may come once more.
		want := []string{}
		for i := 0; i < size; i++ {
			want = append(want, fmt.Sprint("w", i))
		}
		if late != "" {
			want = append(want, late)
		}
		g := []string{}
		for i, v := range got {
			if i > 0 && v == got[i-1] && !inDrop {
				continue
			}
			g = append(g, v)
		}
		drv.EqSlice("payloads", g, want)
		if len(got) > len(g)+1 {
			vsched.Fail("payloads %v", got)
		}
		if len(drops) > 0 && !inDrop {
			vsched.Fail("drops %v", drops)
		}
		// The whole capacity is available again.
		for r := 0; r < 2; r++ {
			for i := 0; i < size; i++ {
				write(fmt.Sprint("again", i))
			}
			for i := 0; i < size; i++ {
				var s string
				if !d.Next(func(b []byte) { s = string(b) }) || s != fmt.Sprint("again", i) {
					vsched.Fail("payload %d of the next round is %q", i, s)
				}
			}
			if d.Next(nil) {
				vsched.Fail("more payloads than written")
			}
		}
	}
}

type from struct{ n int }
type to string
type other uint16

// registry: a converter ends while others use the registry.
func registry(concurrent bool) func() {
	return func() {
		kind := vsched.Choose(endings)
		or := vsched.Choose(2) == 1
		armed := true
		convx.Register(func(f from) to {
			vsched.Point("converting")
			if armed {
				boom(kind)
			}
			return to(fmt.Sprint("n", f.n))
		})
		use := func() {
			convx.Register(func(o other) to { return to(fmt.Sprint("o", o)) })
			if v, ok := convx.Into[other, to](5); v != "o5" || !ok {
				vsched.Fail("Into gives (%q, %v)", v, ok)
			}
			convx.Unregister[other, to]()
			if convx.Exists[other, to]() || !convx.Exists[from, to]() || convx.IntoOr(other(3), to("d")) != "d" {
				vsched.Fail("the registry's contents are wrong")
			}
		}
		var t []*vsched.Thread
		if concurrent {
			t = append(t, vsched.GoNamed("user", use))
		}
		call(func() {
			if or {
				convx.IntoOr(from{1}, to("d"))
			} else {
				convx.Into[from, to](from{1})
			}
		}).is("Into", kind)
		vsched.Join(t...)
		drv.NoPanic("use of the registry afterwards", func() {
			use()
			armed = false
			if v, ok := convx.Into[from, to](from{4}); v != "n4" || !ok {
				vsched.Fail("Into gives (%q, %v)", v, ok)
			}
			if v, ok := convx.Into[int, string](12); v != "12" || !ok {
				vsched.Fail("Into gives (%q, %v)", v, ok)
			}
		})
	}
}

// workers: a handler ends its goroutine; its place is free again.  (A panic
// ends the program.)
func workers(n int64, preheat int) func() {
	return func() {
		const tasks = 3
		var ran [8]vsched.Counter
		var gate [8]vsched.Gate
		ends := vsched.Choose(1 << tasks)
		p, err := gopoolx.NewTimedPool(n, func(v int) {
			ran[v].Add(1)
			gate[v].Wait()
			if ends>>v&1 == 1 {
				runtime.Goexit()
			}
		}, 100*time.Nanosecond, 10*time.Nanosecond, preheat)
		if err != nil {
			vsched.Fail("constructor: %v", err)
		}
		run := func(v int) {
			if !p.Run(v) {
				vsched.Fail("task %d is refused with none running", v)
			}
		}
		for v := 0; v < tasks; v++ {
			run(v)
			gate[v].Open()
			vsched.Quiesce(vsched.Choose(2) * 20)
		}
		// The full number of tasks can run at once.
		for v := 0; v < int(n); v++ {
			run(tasks + v)
		}
		vsched.Quiesce(0)
		if p.Run(7) {
			vsched.Fail("one task more than the limit is accepted")
		}
		if w := p.Workers(); w != n {
			vsched.Fail("Workers() is %d with %d tasks running", w, n)
		}
		stop := vsched.Choose(2)
		if stop == 0 {
			p.Stop()
		}
		for v := 0; v < int(n); v++ {
			gate[tasks+v].Open()
		}
		if stop == 1 {
			p.Stop()
		}
		vsched.Quiesce(4)
		for v := range ran {
			want := int64(1)
			if v >= tasks+int(n) {
				want = 0
			}
			if ran[v].Get() != want {
				vsched.Fail("task %d ran %d times", v, ran[v].Get())
			}
		}
		if w := p.Workers(); w != 0 {
			vsched.Fail("Workers() is %d after Stop", w)
		}
		if k := vsched.Live(); k != 0 {
			vsched.Fail("goroutines remain: %s", vsched.LiveNames())
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "I05",
		Level:       "fault_enumeration",
		Rule:        "every operation that takes a function is ended at each of its calls, by four kinds of panic and by the end of the goroutine: the caller sees exactly that, and afterwards every operation of the component, the readings of the same value included, gives what it gives without it; then, in all interleavings with other goroutines, bodies of the pointer lock, closers of a manager, constructors of lazy values and pooled objects, view and drop functions of a decoupler, registered converters and handlers of the worker pool end that way, and everybody else completes with the right results",
		Bounds:      "all calling operations of harness/comp, each call of each; up to two edits of an ordered map before its Range ends; 2-3 goroutines, delay and preemption bounds 3-5",
		Assumptions: []string{"package fmt replaces a panic of a String method by text", "a Filter or sort that was cut short may leave any of its own elements in any order", "a lazy value whose constructor ended may give the zero value or construct again", "the payload being viewed when the view function ended may be delivered once more", "a panic in a worker's handler or in the signal handler ends the program, as in any goroutine"},
		Units: func(th bool) (us []drv.Unit) {
			seq := func(name string, f func(), shards int) {
				us = append(us, drv.Unit{Name: name, Thread: true, Delay: true, Shards: shards, Split: 2, Body: f})
			}
			for _, s := range comp.All {
				if s.Back != nil {
					us = append(us, drv.Unit{Name: comp.Slug(s.Name), Thread: true, Delay: true, Shards: 4, Split: 2, NoReset: comp.NoReset(s), Body: component(s)})
				}
			}
			seq("same-value", same, 4)
			seq("ordered-map-edited", editing, 8)
			seq("slice-partial", partial, 4)
			d, p := 3, 2
			if th {
				d, p = 5, 4
			}
			add := func(name string, f func(), d, p int) {
				us = append(us, drv.Bounds(drv.Unit{Name: name, Shards: 4, Split: 2, Body: f, NoReset: nil}, d, p)...)
			}
			add("lock", lock(1), d+1, p)
			add("lock-3", lock(2), d-1, p-1)
			add("manager", manager(true), d+1, p)
			add("lazy", lazy(2), d+1, p)
			add("lazy-3", lazy(3), d-1, p-1)
			add("pool", pool(2), d, p)
			add("ring", ring(true), d, p)
			add("registry", registry(true), d-1, p-1)
			seq("manager-alone", manager(false), 1)
			seq("ring-alone", ring(false), 1)
			seq("registry-alone", registry(false), 1)
			add("workers-1", workers(1, 0), d-1, p-1)
			add("workers-2", workers(2, 1), d-2, max(p-2, 1))
			return
		},
	})
}
