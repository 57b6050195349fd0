// D09: the skip-list map is a sorted map.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"golang.org/x/exp/constraints"
	"verif.local/mc/harness/skl"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// obj is a map under test and its model.
type obj[K constraints.Ordered, V comparable] struct {
	s *sklmapx.SkipListMap[K, V]
	m map[K]V
}

func mk[K constraints.Ordered, V comparable]() *obj[K, V] {
	return &obj[K, V]{sklmapx.New[K, V](), map[K]V{}}
}

func (o *obj[K, V]) keys() []K {
	var r []K
	for k := range o.m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (o *obj[K, V]) set(k K, v V) {
	if skl.Late() {
		return
	}
	drv.NoPanic("Set", func() { o.s.Set(k, v) })
	o.m[k] = v
}

func (o *obj[K, V]) del(k K) {
	_, want := o.m[k]
	got := false
	if skl.Late() {
		return
	}
	drv.NoPanic("Del", func() { got = o.s.Del(k) })
	if got != want {
		vsched.Fail("Del(%v) is %v, contents %v", k, got, o.m)
	}
	delete(o.m, k)
}

func (o *obj[K, V]) clear() {
	drv.NoPanic("Clear", func() { o.s.Clear() })
	o.m = map[K]V{}
}

func (o *obj[K, V]) observe(probe []K) {
	for _, k := range probe {
		var v V
		var ok bool
		if skl.Late() {
			return
		}
		drv.NoPanic("Get", func() { v, ok = o.s.Get(k) })
		w, present := o.m[k]
		if ok != present || v != w {
			vsched.Fail("Get(%v) = (%v, %v), contents %v", k, v, ok, o.m)
		}
	}
	ks := o.keys()
	var vs []V
	var ps []string
	for _, k := range ks {
		vs = append(vs, o.m[k])
		ps = append(ps, fmt.Sprintf("%v:%v", k, o.m[k]))
	}
	drv.NoPanic("reading the map", func() {
		drv.Eq("Len", o.s.Len(), len(ks))
		drv.EqSlice("Keys", o.s.Keys(), ks)
		drv.EqSlice("Values", o.s.Values(), vs)
		mm := o.s.ToMap()
		if len(mm) != len(ks) {
			vsched.Fail("ToMap gives %v, want %v", mm, o.m)
		}
		for k, v := range o.m {
			if w, ok := mm[k]; !ok || w != v {
				vsched.Fail("ToMap gives %v, want %v", mm, o.m)
			}
		}
		drv.Eq("String", o.s.String(), "sklmapx["+strings.Join(ps, " ")+"]")
		// the returned collections are the caller's own
		for k := range mm {
			delete(mm, k)
		}
		a, b := o.s.Keys(), o.s.Values()
		for i := range a {
			var zk K
			var zv V
			a[i], b[i] = zk, zv
		}
		drv.EqSlice("Keys", o.s.Keys(), ks)
		drv.EqSlice("Values", o.s.Values(), vs)
	})
}

func states[K constraints.Ordered](keys []K, heights []int) func() {
	return func() {
		o := mk[K, *drv.Tok]()
		n := 0
		live := func() (l []*drv.Tok) {
			for _, k := range o.keys() {
				l = append(l, o.m[k])
			}
			return
		}
		for vsched.Step(func() string { return fmt.Sprint(o.keys()) + drv.CanonTok(live(), o.s) }) {
			op := vsched.Choose(2*len(keys) + 1)
			switch {
			case op < len(keys):
				skl.Choose(heights)
				n++
				o.set(keys[op], drv.NewTok(n))
			case op < 2*len(keys):
				o.del(keys[op-len(keys)])
			default:
				o.clear()
			}
			o.observe(keys)
		}
	}
}

func sequences[K constraints.Ordered, V comparable](keys []K, fresh func(int) V, heights []int, objects, depth int, quiet bool) func() {
	return func() {
		os := make([]*obj[K, V], objects)
		for i := range os {
			os[i] = mk[K, V]()
		}
		for d := 0; d < depth; d++ {
			o := os[0]
			if objects > 1 {
				o = os[vsched.Choose(objects)]
			}
			op := vsched.Choose(2*len(keys) + 1)
			switch {
			case op < len(keys):
				skl.Choose(heights)
				o.set(keys[op], fresh(d))
			case op < 2*len(keys):
				o.del(keys[op-len(keys)])
			default:
				o.clear()
			}
			if !quiet {
				for _, p := range os {
					p.observe(keys)
				}
			}
		}
		for _, o := range os {
			o.observe(keys)
		}
		// empty it key by key and use it again
		for _, o := range os {
			for _, k := range keys {
				o.del(k)
			}
			o.observe(keys)
			skl.Arm(2)
			o.set(keys[0], fresh(depth))
			o.observe(keys)
		}
	}
}

// order: every order of insertion and then of deletion, with every
// combination of heights.
func order(n int, heights []int) func() {
	return func() {
		o := mk[int, int]()
		left := make([]int, n)
		for i := range left {
			left[i] = i * 2
		}
		probe := make([]int, 0, 2*n+1)
		for i := -1; i < 2*n; i++ {
			probe = append(probe, i)
		}
		for len(left) > 0 {
			i := vsched.Choose(len(left))
			skl.Choose(heights)
			o.set(left[i], 100+left[i])
			left = append(append([]int{}, left[:i]...), left[i+1:]...)
		}
		o.observe(probe)
		victim := vsched.Choose(n)
		o.del(victim * 2)
		o.del(victim*2 + 1)
		o.observe(probe)
	}
}

// many: large maps with mixed heights, in several insertion orders.
func many() {
	manyOf([]int{15, 16, 17, 64, 100, 300, 1000}[vsched.Choose(7)], vsched.Choose(4), vsched.Choose(4))
}

// ruler is a height that gives a balanced list.
func ruler(i int) int {
	h := 1
	for i++; i%2 == 0 && i > 0; i /= 2 {
		h++
	}
	return h
}

// tens: tens of thousands of keys.
func tens(sizes []int) func() {
	return func() { manyOf(sizes[vsched.Choose(len(sizes))], vsched.Choose(4), 3) }
}

func manyOf(n, how, heights int) {
	if n > 1000 {
		defer skl.Long()()
	}
	o := mk[int, int]()
	for i := 0; i < n; i++ {
		k := i
		switch how {
		case 1:
			k = n - 1 - i
		case 2:
			k = i * 7919 % n
			if _, dup := o.m[k]; dup {
				k = i
			}
		case 3:
			k = i ^ 1
		}
		switch heights {
		case 0:
			skl.Arm(1)
		case 1:
			skl.Arm(skl.Tall)
		case 2:
			skl.Arm(1 + i%17)
		case 3:
			skl.Arm(ruler(i))
		}
		o.set(k, i)
	}
	var probe []int
	for i := -2; i < n+3; i++ {
		probe = append(probe, i)
	}
	o.observe(probe)
	step := 1 + vsched.Choose(3)
	if n > 1000 {
		step = 2*step - 1 // keep the towers
	}
	for i := 0; i < n; i += step {
		o.del(i)
	}
	o.observe(probe)
	for i := n - 1; i >= 0; i -= 2 {
		if skl.Arm(1 + i%5); n > 1000 {
			skl.Arm(ruler(i / 2))
		}
		o.set(i, -i)
	}
	o.observe(probe)
}

// large: from a map of n keys, every sequence of operations at the ends and in
// the middle, everything observed after each or only after some.
func large(sizes []int, depth int, heights []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		o := mk[int, int]()
		var probe []int
		for i := 0; i < n; i++ {
			skl.Arm(ruler(i))
			o.set(2*i, i)
		}
		for i := -3; i < 2*n+4; i += 1 + n/16 {
			probe = append(probe, i)
		}
		probe = append(probe, -1, -2, n|1, n&^1, 2*n-2, 2*n, 2*n+2)
		o.observe(probe)
		front, mid, back := -1, n|1, 2*n
		for d := 0; d < depth; d++ {
			ks := o.keys()
			op := vsched.Choose(8)
			if len(ks) == 0 && (op < 3 || op == 6) {
				op = 3
			}
			switch op {
			case 0:
				o.del(ks[0])
			case 1:
				o.del(ks[len(ks)/2])
			case 2:
				o.del(ks[len(ks)-1])
			case 3:
				skl.Choose(heights)
				o.set(front, 1000+d)
				front--
			case 4:
				skl.Choose(heights)
				o.set(mid, 2000+d)
				mid += 2
			case 5:
				skl.Choose(heights)
				o.set(back, 3000+d)
				back += 2
			case 6:
				o.set(ks[len(ks)/3], 4000+d)
			case 7:
				o.clear()
			}
			if d == depth-1 || vsched.Choose(2) == 0 {
				o.observe(probe)
			}
		}
	}
}

type name string

func main() {
	num := func(d int) int { return d }
	mods := func(d int) int { return d % 2 }
	drv.Main(drv.Check{
		ID:          "D09",
		Level:       "model_checking",
		Rule:        "every state (contents and tower heights) reachable over N keys, breadth first without bound on the history, every operation checked against a sorted map and every observer compared after each; every sequence of operations up to a depth on one and two maps; every insertion order; eight key types; large maps in several orders and height patterns",
		Bounds:      "breadth first: 5 keys (6) with heights 1, 2, 3 and unlimited, 7 keys (8) with heights 1 and 2; sequences of 4 (5) operations on 3 keys and 6 on 4; all orders of 5 (6) insertions; sequences of 3 (4) operations from maps of up to 257; maps of up to 66000 (140000); short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"keys are totally ordered (no NaN)", "tower heights come from splitmix64 (intercepted); if that is not so any more they are whatever the code draws"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			h4 := []int{1, 2, 3, skl.Tall}
			ks := []int{-3, -1, 0, 2, 5, 9, 11, 12}
			us := []drv.Unit{
				{Name: "states", BFS: true, Body: states(ks[:x(5, 6)], h4)},
				{Name: "states-flat", BFS: true, Body: states(ks[:x(7, 8)], []int{1, 2})},
				{Name: "states-strings", BFS: true, Body: states([]string{"", "a", "aa", "b"}, []int{1, skl.Tall})},
				{Name: "sequences", Shards: 8, Split: 4, Body: sequences([]int{-1, 0, 4}, num, h4, 1, x(4, 5), false)},
				{Name: "sequences-quiet", Shards: 8, Split: 4, Body: sequences([]int{0, 1, 2, 3}, num, []int{1, 3}, 1, x(6, 6), true)},
				{Name: "same-values", Shards: 4, Split: 3, Body: sequences([]int{-1, 0, 4}, mods, []int{1, 2}, 1, x(6, 6), true)},
				{Name: "two-maps", Shards: 8, Split: 4, Body: sequences([]int{0, 1}, num, []int{1, 2}, 2, x(4, 5), false)},
				{Name: "orders", Shards: 8, Split: 4, Body: order(x(5, 6), []int{1, 2, skl.Tall})},
				{Name: "orders-heights", Shards: 8, Split: 4, Body: order(3, []int{1, 2, 3, 4, 15, 16, 17, skl.Tall})},
				{Name: "shapes", Shards: 2, Split: 1, Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				{Name: "large", Steps: 1 << 30, Shards: 8, Split: 3, Body: large([]int{17, 33, 65, 130, 257}, x(3, 4), []int{1, 5})},
				{Name: "tens", Steps: 1 << 30, Shards: 8, Split: 3, Body: tens([]int{5000, 66000, 140000}[:x(2, 3)])},
				{Name: "many", Steps: 1 << 30, Shards: 8, Split: 3, Body: many},
				{Name: "floats", Body: sequences([]float64{math.Inf(-1), -0.5, 0, math.SmallestNonzeroFloat64, math.Inf(1)}, num, []int{1, 3}, 1, 3, false)},
				{Name: "strings", Body: sequences([]string{"", "a", "a\x00", "\xff", "b"}, num, []int{1, 3}, 1, 3, false)},
				{Name: "uint8s", Body: sequences([]uint8{0, 1, 128, 255}, num, []int{1, 3}, 1, 3, false)},
				{Name: "int64s", Body: sequences([]int64{math.MinInt64, -1, 0, math.MaxInt64}, num, []int{1, 3}, 1, 3, false)},
				{Name: "uint64s", Body: sequences([]uint64{0, 1 << 63, math.MaxUint64}, num, []int{1, 3}, 1, 3, false)},
				{Name: "named", Body: sequences([]name{"", "x", "y"}, num, []int{1, 3}, 1, 3, false)},
				{Name: "string-values", Body: sequences([]int{0, 1, 2}, func(d int) string { return []string{"", "v", "w"}[d%3] }, []int{1, 3}, 1, 4, false)},
				{Name: "any-values", Body: sequences([]int{0, 1, 2}, func(d int) any { return []any{nil, 0, "w"}[d%3] }, []int{1, 3}, 1, 4, false)},
			}
			return us
		},
	})
}
