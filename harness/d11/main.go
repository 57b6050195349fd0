// D11: the ordered map is a sorted map with consistent views.
package main

import (
	"fmt"
	"sort"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"golang.org/x/exp/constraints"
	"verif.local/mc/harness/skl"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// obj is a map under test and its model.
type obj[K constraints.Ordered, V comparable] struct {
	s *ordmapx.OrdMap[K, V]
	m map[K]V
}

func mk[K constraints.Ordered, V comparable]() *obj[K, V] {
	return &obj[K, V]{ordmapx.New[K, V](), map[K]V{}}
}

func (o *obj[K, V]) keys() []K {
	var r []K
	for k := range o.m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (o *obj[K, V]) set(k K, v V) {
	if skl.Late() {
		return
	}
	drv.NoPanic("Set", func() { o.s.Set(k, v) })
	o.m[k] = v
}

func (o *obj[K, V]) del(k K) {
	if skl.Late() {
		return
	}
	drv.NoPanic("Del", func() { o.s.Del(k) })
	delete(o.m, k)
}

func (o *obj[K, V]) clear() {
	drv.NoPanic("Clear", func() { o.s.Clear() })
	o.m = map[K]V{}
}

func (o *obj[K, V]) observe(probe []K) {
	for _, k := range probe {
		var v V
		var ok bool
		if skl.Late() {
			return
		}
		drv.NoPanic("Get", func() { v, ok = o.s.Get(k) })
		w, present := o.m[k]
		if ok != present || v != w {
			vsched.Fail("Get(%v) = (%v, %v), contents %v", k, v, ok, o.m)
		}
	}
	ks := o.keys()
	var vs []V
	for _, k := range ks {
		vs = append(vs, o.m[k])
	}
	drv.NoPanic("reading the map", func() {
		drv.Eq("Len", o.s.Len(), len(ks))
		drv.EqSlice("Keys", o.s.Keys(), ks)
		drv.EqSlice("Values", o.s.Values(), vs)
		// the returned collections are the caller's own
		a, b := o.s.Keys(), o.s.Values()
		for i := range a {
			var zk K
			var zv V
			a[i], b[i] = zk, zv
		}
		drv.EqSlice("Keys", o.s.Keys(), ks)
		drv.EqSlice("Values", o.s.Values(), vs)
		for stop := 0; stop <= len(ks); stop++ {
			n := 0
			o.s.Range(func(k K, v V) bool {
				if n >= len(ks) || n > stop || k != ks[n] || v != vs[n] {
					vsched.Fail("Range visit %d (to stop after %d) is (%v, %v), contents %v", n, stop, k, v, o.m)
				}
				n++
				return n > stop
			})
			if want := min(stop+1, len(ks)); n != want {
				vsched.Fail("Range visits %d entries, want %d of %d", n, want, len(ks))
			}
		}
	})
}

// acting walks with Range; the callback does something to the entry it visits.
func (o *obj[K, V]) acting(fresh func(int) V, n int) {
	ks := o.keys()
	i := 0
	stopped := false
	drv.NoPanic("Range", func() {
		o.s.Range(func(k K, v V) bool {
			if stopped || i >= len(ks) || k != ks[i] || v != o.m[k] {
				vsched.Fail("Range visit %d is (%v, %v), keys %v, contents %v", i, k, v, ks, o.m)
			}
			i++
			switch vsched.Choose(5) {
			case 1:
				o.del(k)
			case 2:
				o.set(k, fresh(n+i))
			case 3:
				stopped = true
				return true
			case 4:
				o.del(k)
				stopped = true
				return true
			}
			return false
		})
	})
	if !stopped && i != len(ks) {
		vsched.Fail("Range visits %d of %d entries", i, len(ks))
	}
}

// changing walks with Range; the callback changes any entries, at up to edits
// of its calls. Only entries there are visited, in order, and none that was
// there all along is passed over.
func (o *obj[K, V]) changing(keys []K, fresh func(int) V, n, edits int) {
	kept := o.keys()
	gone := func(k K) {
		for i, kk := range kept {
			if kk == k {
				kept = append(kept[:i:i], kept[i+1:]...)
				return
			}
		}
	}
	visits := 0
	var last K
	stopped := false
	drv.NoPanic("Range", func() {
		o.s.Range(func(k K, v V) bool {
			w, ok := o.m[k]
			if stopped || !ok || v != w || visits > 0 && k <= last || len(kept) > 0 && k > kept[0] {
				vsched.Fail("Range visit %d after %v is (%v, %v); contents %v, there all along and to come %v", visits, last, k, v, o.m, kept)
			}
			gone(k)
			visits++
			last = k
			for e := 0; e < 2 && edits > 0; e++ {
				op := vsched.Choose(2*len(keys) + 3)
				if op == 0 {
					break
				}
				edits--
				switch {
				case op <= len(keys):
					d := keys[op-1]
					o.del(d)
					gone(d)
				case op <= 2*len(keys):
					skl.Arm(2)
					o.set(keys[op-len(keys)-1], fresh(n+visits))
				case op == 2*len(keys)+1:
					o.clear()
					kept = nil
				default:
					stopped = true
					return true
				}
			}
			return false
		})
	})
	if !stopped && len(kept) > 0 {
		vsched.Fail("Range visits none of %v, which were there all along", kept)
	}
}

// changes: a map of chosen keys and heights, walked with changes, twice.
func changes[K constraints.Ordered](keys []K, heights []int, edits int) func() {
	return func() {
		o := mk[K, int]()
		for i, k := range keys {
			if vsched.Choose(2) == 1 {
				skl.Choose(heights)
				o.set(k, i)
			}
		}
		fresh := func(int) int { return 100 + len(o.m) }
		o.changing(keys, fresh, 10, edits)
		o.observe(keys)
		o.changing(keys, fresh, 20, 0)
	}
}

// sweeps: of a large map the callback deletes the entries around, or all.
func sweeps() {
	o := mk[int, int]()
	n := []int{16, 40, 300, 3000}[vsched.Choose(4)]
	span := []int{1, 2, 7, 40, 1 << 20}[vsched.Choose(5)]
	back := vsched.Choose(3)
	every := 1 + vsched.Choose(3)
	for i := 0; i < n; i++ {
		skl.Arm(1 + i*7%13)
		o.set(i, i)
	}
	visited, calls := -1, 0
	drv.NoPanic("Range", func() {
		o.s.Range(func(k, v int) bool {
			if w, ok := o.m[k]; !ok || v != w || k <= visited {
				vsched.Fail("Range gives (%d, %d), which is not there, or again, after %d", k, v, visited)
			}
			for i := visited + 1; i < k; i++ {
				if _, ok := o.m[i]; ok {
					vsched.Fail("Range passes over %d", i)
				}
			}
			visited = k
			if calls++; calls%every != 0 {
				return false
			}
			lo, hi := k, min(n, k+span)
			switch back {
			case 1:
				lo = max(0, k-3)
			case 2: // the following only
				lo = k + 1
			}
			if span > n {
				o.clear()
				return false
			}
			for i := lo; i < hi; i++ {
				if _, ok := o.m[i]; ok {
					o.del(i)
				}
			}
			return false
		})
	})
	for i := visited + 1; i < n; i++ {
		if _, ok := o.m[i]; ok {
			vsched.Fail("Range ends before %d", i)
		}
	}
	drv.EqSlice("Keys", o.s.Keys(), o.keys())
	o.set(5, 5)
	drv.EqSlice("Keys", o.s.Keys(), o.keys())
}

func states[K constraints.Ordered](keys []K, heights []int) func() {
	return func() {
		o := mk[K, *drv.Tok]()
		n := 0
		fresh := func(int) *drv.Tok { n++; return drv.NewTok(n) }
		live := func() (l []*drv.Tok) {
			for _, k := range o.keys() {
				l = append(l, o.m[k])
			}
			return
		}
		for vsched.Step(func() string { return fmt.Sprint(o.keys()) + drv.CanonTok(live(), o.s) }) {
			op := vsched.Choose(2*len(keys) + 3)
			switch {
			case op == 2*len(keys)+2:
				o.changing(keys, fresh, 0, 1)
			case op < len(keys):
				skl.Choose(heights)
				o.set(keys[op], fresh(0))
			case op < 2*len(keys):
				o.del(keys[op-len(keys)])
			case op == 2*len(keys):
				o.clear()
			default:
				o.acting(fresh, 0)
			}
			o.observe(keys)
		}
	}
}

func sequences[K constraints.Ordered, V comparable](keys []K, fresh func(int) V, heights []int, objects, depth int, quiet bool) func() {
	return func() {
		os := make([]*obj[K, V], objects)
		for i := range os {
			os[i] = mk[K, V]()
		}
		for d := 0; d < depth; d++ {
			o := os[0]
			if objects > 1 {
				o = os[vsched.Choose(objects)]
			}
			op := vsched.Choose(2*len(keys) + 2)
			switch {
			case op < len(keys):
				skl.Choose(heights)
				o.set(keys[op], fresh(d))
			case op < 2*len(keys):
				o.del(keys[op-len(keys)])
			case op == 2*len(keys):
				o.clear()
			default:
				o.acting(fresh, d+1)
			}
			if !quiet {
				for _, p := range os {
					p.observe(keys)
				}
			}
		}
		for _, o := range os {
			o.observe(keys)
		}
	}
}

// many: large maps.
func many() {
	manyOf([]int{16, 17, 100, 1000}[vsched.Choose(4)], vsched.Choose(3), vsched.Choose(3))
}

// tens: tens of thousands of keys.
func tens(sizes []int) func() {
	return func() { manyOf(sizes[vsched.Choose(len(sizes))], vsched.Choose(3), 3) }
}

func manyOf(n, how, hm int) {
	if n > 1000 {
		defer skl.Long()()
	}
	o := mk[int, int]()
	for i := 0; i < n; i++ {
		switch hm {
		case 0:
			skl.Arm(1)
		case 1:
			skl.Arm(1 + i%17)
		case 2:
			skl.Arm(skl.Tall)
		case 3: // a balanced list
			h := 1
			for j := i + 1; j%2 == 0; j /= 2 {
				h++
			}
			skl.Arm(h)
		}
		o.set([]int{i, n - i, i * 3 % n}[how], i)
	}
	check := func() {
		ks := o.keys()
		drv.EqSlice("Keys", o.s.Keys(), ks)
		vs := o.s.Values()
		drv.Eq("Len", o.s.Len(), len(ks))
		drv.Eq("values", len(vs), len(ks))
		for i, k := range ks {
			drv.Eq("value", vs[i], o.m[k])
			if skl.Late() {
				return
			}
			v, ok := o.s.Get(k)
			if !ok || v != o.m[k] {
				vsched.Fail("Get(%d) = (%d, %v)", k, v, ok)
			}
		}
	}
	check()
	for i := 0; i < n; i += 3 {
		o.del(i)
	}
	check()
	i := 0
	o.s.Range(func(k, v int) bool {
		if i++; i%3 == 0 {
			o.del(k)
		} else {
			o.set(k, -v)
		}
		return false
	})
	check()
}

// large: from a map of n keys, every sequence of operations at the ends and in
// the middle, everything observed after each or only after some.
func large(sizes []int, depth int, heights []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		o := mk[int, int]()
		var probe []int
		for i := 0; i < n; i++ {
			h := 1
			for j := i + 1; j%2 == 0; j /= 2 {
				h++
			}
			skl.Arm(h)
			o.set(2*i, i)
		}
		for i := -3; i < 2*n+4; i += 1 + n/16 {
			probe = append(probe, i)
		}
		probe = append(probe, -1, -2, n|1, n&^1, 2*n-2, 2*n, 2*n+2)
		o.observe(probe)
		front, mid, back := -1, n|1, 2*n
		for d := 0; d < depth; d++ {
			ks := o.keys()
			op := vsched.Choose(8)
			if len(ks) == 0 && (op < 3 || op == 6) {
				op = 3
			}
			switch op {
			case 0:
				o.del(ks[0])
			case 1:
				o.del(ks[len(ks)/2])
			case 2:
				o.del(ks[len(ks)-1])
			case 3:
				skl.Choose(heights)
				o.set(front, 1000+d)
				front--
			case 4:
				skl.Choose(heights)
				o.set(mid, 2000+d)
				mid += 2
			case 5:
				skl.Choose(heights)
				o.set(back, 3000+d)
				back += 2
			case 6:
				o.set(ks[len(ks)/3], 4000+d)
			case 7:
				o.clear()
			}
			if d == depth-1 || vsched.Choose(2) == 0 {
				o.observe(probe)
			}
		}
	}
}

type name string

func main() {
	num := func(d int) int { return d }
	mods := func(d int) int { return d % 2 }
	drv.Main(drv.Check{
		ID:          "D11",
		Level:       "model_checking",
		Rule:        "every state (contents and tower heights) reachable over N keys, breadth first without bound on the history: Set, Del, Clear and Range whose callback, at every entry, does nothing, deletes it, updates it, stops, or deletes it and stops, or changes any entries; after each operation Len, Get, Keys, Values and Range stopped after every entry compared with a sorted map; every sequence of operations up to a depth on one and two maps; several key and value types; large maps",
		Bounds:      "breadth first: 5 keys with heights 1, 2, 3 (4); sequences of 6 (7) operations over 3 keys; sequences of 3 (4) operations from maps of up to 257; every 3 (4) changes made during a Range over 4 (5) keys; maps of up to 66000 (140000); short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"whether a Range visits keys inserted during it is open", "keys are totally ordered (no NaN)"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			hs := []int{1, 2}
			ks := []int{-1, 0, 3, 5, 8}
			return []drv.Unit{
				{Name: "states", BFS: true, Body: states(ks, []int{1, 2, 3, 4}[:x(3, 4)])},
				{Name: "states-strings", BFS: true, Body: states([]string{"", "a", "b", "ab"}[:x(3, 4)], []int{1, 3, skl.Tall})},
				{Name: "sequences", Shards: 8, Split: 4, Body: sequences(ks[:3], num, hs, 1, x(5, 6), true)},
				{Name: "sequences-same-values", Shards: 8, Split: 4, Body: sequences(ks[:3], mods, []int{1}, 1, x(6, 7), false)},
				{Name: "two-maps", Shards: 8, Split: 4, Body: sequences(ks[:2], num, []int{1}, 2, x(5, 6), false)},
				{Name: "floats", Body: sequences([]float64{-1.5, 0, 1e300}, num, []int{1}, 1, x(4, 5), false)},
				{Name: "uint8s", Body: sequences([]uint8{0, 128, 255}, num, []int{1}, 1, x(4, 5), false)},
				{Name: "int64s", Body: sequences([]int64{-1 << 63, 0, 1<<63 - 1}, num, []int{1}, 1, x(4, 5), false)},
				{Name: "named", Body: sequences([]name{"", "x", "y"}, num, []int{1}, 1, x(4, 5), false)},
				{Name: "zero-values", Body: sequences([]int{0, 1}, func(d int) string { return []string{"", "v"}[d%2] }, []int{1}, 1, x(6, 7), false)},
				{Name: "struct-values", Body: sequences([]int{0, 1}, func(d int) struct{ a, b int } { return struct{ a, b int }{d, -d} }, []int{1}, 1, x(6, 7), false)},
				{Name: "shapes", Shards: 2, Split: 1, Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				{Name: "large", Steps: 1 << 30, Shards: 8, Split: 3, Body: large([]int{17, 33, 65, 130, 257}, x(3, 4), []int{1, 5})},
				{Name: "tens", Steps: 1 << 30, Shards: 8, Split: 2, Body: tens([]int{5000, 66000, 140000}[:x(2, 3)])},
				{Name: "changes", Shards: 8, Split: 5, Body: changes(ks[:x(4, 5)], []int{1, 3}[:x(1, 2)], 3)},
				{Name: "changes-heights", Shards: 8, Split: 5, Body: changes(ks[:3], []int{1, 2, 3}, x(3, 4))},
				{Name: "sweeps", Steps: 1 << 30, Shards: 4, Split: 2, Body: sweeps},
				{Name: "many", Steps: 1 << 30, Body: many},
			}
		},
	})
}
