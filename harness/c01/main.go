// C01: the synchronised map is linearizable and race-free.
package main

import (
	"fmt"
	"sort"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/lin"
	"verif.local/mc/mc/vsched"
)

const nk = 3 // keys 0..2; value 0 = absent

// state of the model: the three keys, and a block of further keys that only
// Clear touches (key 100+i has value 1000+i).
type state struct {
	v  [nk]int
	bg int
}

type mp = syncmapx.Map[int, int]

func absKeys(s state) string {
	var r []int
	for k, v := range s.v {
		if v != 0 {
			r = append(r, k)
		}
	}
	for i := 0; i < s.bg; i++ {
		r = append(r, 100+i)
	}
	return fmt.Sprint(r)
}

func absVals(s state) string {
	var r []int
	for _, v := range s.v {
		if v != 0 {
			r = append(r, v)
		}
	}
	for i := 0; i < s.bg; i++ {
		r = append(r, 1000+i)
	}
	sort.Ints(r)
	return fmt.Sprint(r)
}

// expect: the model must give this rendering and this next state.
func expect(got string, f func(s state) (string, state)) func(any) (any, bool) {
	return func(a any) (any, bool) {
		w, n := f(a.(state))
		return n, w == got
	}
}

type opDef struct {
	name string
	run  func(m *mp) string
	mod  func(s state) (string, state)
}

func scribble(xs []int) {
	// the caller owns the returned slice: overwriting it and its spare
	// capacity must not be visible anywhere else
	ys := xs[:cap(xs)]
	for i := range ys {
		ys[i] = -7
	}
}

func keys(m *mp) string {
	ks := m.Keys()
	c := append([]int(nil), ks...)
	scribble(ks)
	sort.Ints(c)
	return fmt.Sprint(c)
}

func vals(m *mp) string {
	ks := m.Values()
	c := append([]int(nil), ks...)
	scribble(ks)
	sort.Ints(c)
	return fmt.Sprint(c)
}

func get(k int) opDef {
	return opDef{fmt.Sprintf("Get(%d)", k), func(m *mp) string { return fmt.Sprint(m.Get(k)) },
		func(s state) (string, state) { return fmt.Sprint(s.v[k]), s }}
}
func has(k int) opDef {
	return opDef{fmt.Sprintf("Has(%d)", k), func(m *mp) string { return fmt.Sprint(m.Has(k)) },
		func(s state) (string, state) { return fmt.Sprint(s.v[k] != 0), s }}
}
func put(k, v int) opDef {
	return opDef{fmt.Sprintf("Set(%d,%d)", k, v), func(m *mp) string { m.Set(k, v); return "" },
		func(s state) (string, state) { s.v[k] = v; return "", s }}
}
func del(k int) opDef {
	return opDef{fmt.Sprintf("Delete(%d)", k), func(m *mp) string { m.Delete(k); return "" },
		func(s state) (string, state) { s.v[k] = 0; return "", s }}
}

var (
	clr  = opDef{"Clear", func(m *mp) string { m.Clear(); return "" }, func(s state) (string, state) { return "", state{} }}
	size = opDef{"Size", func(m *mp) string { return fmt.Sprint(m.Size()) }, func(s state) (string, state) {
		n := s.bg
		for _, v := range s.v {
			if v != 0 {
				n++
			}
		}
		return fmt.Sprint(n), s
	}}
	kys = opDef{"Keys", keys, func(s state) (string, state) { return absKeys(s), s }}
	vls = opDef{"Values", vals, func(s state) (string, state) { return absVals(s), s }}
)

var alpha = []opDef{get(0), has(0), put(0, 5), put(1, 6), del(0), clr, size, kys, vls}
var short = []opDef{get(0), put(0, 7), del(0), clr, size, kys}
var full = append(append([]opDef{}, alpha...), get(1), has(1), get(2), put(2, 9), del(1), put(0, 8), has(2), del(2))

func step(h *lin.History, m *mp, o opDef) {
	c := h.Call(o.name)
	r := o.run(m)
	h.Return(c, r, expect(r, o.mod))
}

func observe(h *lin.History, m *mp) {
	for _, o := range []opDef{size, kys, vls, get(0), has(0), get(1), has(1), get(2), has(2)} {
		step(h, m, o)
	}
}

func initial(h *lin.History, m *mp) state {
	var s state
	switch vsched.Choose(2) {
	case 1:
		m.Set(0, 3)
		m.Set(1, 4)
		s = state{v: [nk]int{3, 4, 0}}
	}
	return s
}

func program(al []opDef, n int) []opDef {
	var p []opDef
	for i := 0; i < n; i++ {
		p = append(p, al[vsched.Choose(len(al))])
	}
	return p
}

func conc(al []opDef, lens ...int) func() { return concOver(0, al, lens...) }

// concOver: with bg more keys in the map.
func concOver(bg int, al []opDef, lens ...int) func() {
	return func() {
		m := syncmapx.New[int, int]()
		h := &lin.History{}
		init := initial(h, m)
		for i := 0; i < bg; i++ {
			m.Set(100+i, 1000+i)
		}
		init.bg = bg
		var ts []*vsched.Thread
		var ps [][]opDef
		for _, n := range lens {
			ps = append(ps, program(al, n))
		}
		for _, p := range ps {
			p := p
			ts = append(ts, vsched.GoNamed("client", func() {
				for _, o := range p {
					step(h, m, o)
				}
			}))
		}
		vsched.Join(ts...)
		observe(h, m)
		h.Require(init, nil)
		vsched.Outcome("%s", h.Results())
	}
}

func sequential(depth int) func() {
	return func() {
		m := syncmapx.New[int, int]()
		other := syncmapx.New[int, int]()
		h := &lin.History{}
		var s any = initial(h, m)
		for i := 0; i < depth; i++ {
			o := full[vsched.Choose(len(full))]
			r := o.run(m)
			n, ok := expect(r, o.mod)(s)
			if !ok {
				vsched.Fail("%s = %s on model %v", o.name, r, s)
			}
			s = n
		}
		observe(h, m)
		h.Require(s, nil)
		drv.Eq("Size of an untouched second map", other.Size(), 0)
		vsched.Outcome("%v", s)
	}
}

// object under test and a plain map, for any types.
type pair[K comparable, V comparable] struct {
	m *syncmapx.Map[K, V]
	w map[K]V
}

func (p *pair[K, V]) observe(probe []K) {
	drv.NoPanic("reading the map", func() {
		drv.Eq("Size", p.m.Size(), len(p.w))
		for i, k := range probe {
			alive(i)
			v, ok := p.w[k]
			if h := p.m.Has(k); h != ok {
				vsched.Fail("Has(%v) is %v with contents %v", k, h, p.w)
			}
			if g := p.m.Get(k); g != v {
				vsched.Fail("Get(%v) is %v with contents %v", k, g, p.w)
			}
		}
		seen := map[K]bool{}
		ks := p.m.Keys()
		for _, k := range ks {
			if _, ok := p.w[k]; !ok || seen[k] {
				vsched.Fail("Keys are %v, contents %v", ks, p.w)
			}
			seen[k] = true
		}
		drv.Eq("number of Keys", len(ks), len(p.w))
		vs := p.m.Values()
		drv.Eq("number of Values", len(vs), len(p.w))
		count := map[V]int{}
		for _, v := range p.w {
			count[v]++
		}
		for _, v := range vs {
			if count[v]--; count[v] < 0 {
				vsched.Fail("Values are %v, contents %v", vs, p.w)
			}
		}
		// the slices are the caller's
		var zk K
		var zv V
		for i := range ks {
			ks[i] = zk
		}
		for i := range vs {
			vs[i] = zv
		}
	})
}

// typed: every sequence of operations over keys and values of a type, the
// zero values among them.
func typed[K comparable, V comparable](keys []K, vals []V, depth int) func() {
	return func() {
		p := &pair[K, V]{syncmapx.New[K, V](), map[K]V{}}
		for d := 0; d < depth; d++ {
			op := vsched.Choose(len(keys)*(len(vals)+1) + 1)
			switch {
			case op == 0:
				p.m.Clear()
				p.w = map[K]V{}
			case op <= len(keys):
				p.m.Delete(keys[op-1])
				delete(p.w, keys[op-1])
			default:
				op -= len(keys) + 1
				k, v := keys[op%len(keys)], vals[op/len(keys)]
				p.m.Set(k, v)
				p.w[k] = v
			}
			p.observe(keys)
		}
	}
}

func alive(i int) {
	if i%1000 == 999 {
		vsched.Alive()
	}
}

// large: from n keys, every sequence of operations, observed or not in
// between.
func large(sizes []int, depth int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		p := &pair[int, int]{syncmapx.New[int, int](), map[int]int{}}
		var probe []int
		for i := 0; i < n; i++ {
			alive(i)
			p.m.Set(i, i%7)
			p.w[i] = i % 7
			probe = append(probe, i)
		}
		probe = append(probe, -1, n, n+1, n+2)
		p.observe(probe)
		for d := 0; d < depth; d++ {
			op := vsched.Choose(6)
			switch op {
			case 0, 1, 2:
				k := []int{0, n / 2, n - 1}[op]
				p.m.Delete(k)
				delete(p.w, k)
			case 3:
				p.m.Set(n+d, -d)
				p.w[n+d] = -d
			case 4:
				p.m.Set(n/2, 100+d)
				p.w[n/2] = 100 + d
			case 5:
				p.m.Clear()
				p.w = map[int]int{}
			}
			if d == depth-1 || vsched.Choose(2) == 0 {
				p.observe(probe)
			}
		}
		for i := n + 3; i >= -1; i-- {
			alive(i)
			p.m.Delete(i)
			delete(p.w, i)
		}
		p.observe(probe)
		p.m.Set(1, 2)
		p.w[1] = 2
		p.observe(probe)
	}
}

type rec struct {
	a int
	s string
}

func main() {
	drv.Main(drv.Check{
		ID:          "C01",
		Level:       "model_checking",
		Rule:        "every program of the stated shape over Get/Has/Size/Keys/Values/Set/Delete/Clear on colliding keys, under every interleaving within the preemption bound, judged by an exhaustive linearizability search and by the race detector on each schedule; outcome = the results observed",
		Bounds:      "2-3 goroutines, 1-2 operations each, 3 keys, preemption bound as given per unit; sequential depth as given; also with 40 (140) more keys in the map; sequences of 3 (4) operations over zero and non-zero keys and values of four types, and from maps of up to 66000 (140000) keys; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"scheduling points at every lock operation suffice because unsynchronised accesses are reported by the happens-before race detector on every explored schedule"},
		Units: func(th bool) []drv.Unit {
			u := []drv.Unit{
				{Name: "two-by-two", Thread: true, Bound: 2, Shards: 8, Body: conc(alpha, 1, 2)},
				{Name: "three-by-one", Thread: true, Bound: 1, Shards: 8, Body: conc(short, 1, 1, 1)},
				{Name: "sequential", Body: sequential(3), Shards: 4},
			}
			if th {
				u = []drv.Unit{
					{Name: "two-by-two-all", Thread: true, Bound: 3, Shards: 8, Body: conc(alpha, 2, 2)},
					{Name: "three-by-one-all", Thread: true, Bound: 3, Shards: 8, Body: conc(alpha, 1, 1, 1)},
					{Name: "three-211", Thread: true, Bound: 2, Shards: 8, Body: conc(short, 2, 1, 1)},
					{Name: "sequential", Body: sequential(4), Shards: 8},
				}
			}
			x, y := 40, 3
			if th {
				x, y = 140, 4
			}
			u = append(u,
				drv.Stalled(drv.Unit{Name: "two-by-two", Shards: 8, Body: conc(alpha, 1, 2)}, 2),
				drv.Stalled(drv.Unit{Name: "three-by-one", Shards: 8, Body: conc(short, 1, 1, 1)}, 1),
				drv.Unit{Name: "crowded", Thread: true, Bound: 2, Shards: 8, Body: concOver(x, []opDef{get(0), put(1, 6), del(0), clr, size, kys, vls}, 1, 1)},
				drv.Unit{Name: "tens", Steps: 1 << 30, Shards: 8, Split: 3, Body: large([]int{66000, 140000}[:y-2], 1)},
				drv.Unit{Name: "large", Steps: 1 << 30, Shards: 8, Split: 3, Body: large([]int{9, 17, 33, 65, 129, 257, 1025}[:3+y], y)},
				drv.Unit{Name: "shapes", Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				drv.Unit{Name: "ints", Shards: 4, Split: 2, Body: typed([]int{0, -1, 5}, []int{0, 1, -1}, y)},
				drv.Unit{Name: "strings", Shards: 4, Split: 2, Body: typed([]string{"", "a", "A"}, []string{"", "x"}, y)},
				drv.Unit{Name: "structs", Shards: 4, Split: 2, Body: typed([]rec{{}, {1, ""}, {0, "a"}}, []*rec{nil, {}, {1, "b"}}, y)},
				drv.Unit{Name: "anys", Shards: 4, Split: 2, Body: typed([]any{nil, 0, "", int8(0)}, []any{nil, 0, false}, y)})
			return u
		},
	})
}
