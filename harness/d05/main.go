// D05: the ring queue is a bounded FIFO of exactly its capacity.
package main

import (
	"github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	"verif.local/mc/harness/ds"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

func mk[T comparable](n int) *ds.Queue[T] {
	var r *queuex.Ring[T]
	drv.NoPanic("New", func() { r = queuex.New[T](n) })
	return &ds.Queue[T]{Put: r.Enqueue, Take: r.Dequeue, Peek: r.Peek, Empty: r.IsEmpty, Root: r, Limit: n, More: func(m []T) {
		if f := r.IsFull(); f != (len(m) == n) {
			vsched.Fail("IsFull is %v with %d of %d", f, len(m), n)
		}
		if c := r.Cap(); c != n {
			vsched.Fail("Cap is %d, want %d", c, n)
		}
		if len(m) > 0 {
			if h := r.Head(); h != m[0] {
				vsched.Fail("Head is %v, want %v", h, m[0])
			}
		} else {
			r.Head() // no element to return, but no panic either
		}
	}}
}

// ring chooses the capacity, then runs f.
func ring[T comparable](caps []int, f func(mk func() *ds.Queue[T], n int)) func() {
	return func() {
		n := caps[vsched.Choose(len(caps))]
		f(func() *ds.Queue[T] { return mk[T](n) }, n)
	}
}

func upto(n int) (r []int) {
	for i := 1; i <= n; i++ {
		r = append(r, i)
	}
	return
}

func box[T any](b shapes.Box[T]) ds.Shaped[*ds.Queue[int]] {
	return ds.BoxQueue(b, func() *ds.Queue[T] {
		n := []int{1, 2, 3, 64}[vsched.Choose(4)]
		r := queuex.New[T](n)
		return &ds.Queue[T]{Put: r.Enqueue, Take: r.Dequeue, Peek: r.Peek, Empty: r.IsEmpty, Len: nil, Root: r, Limit: n}
	})
}

var boxes = []ds.Shaped[*ds.Queue[int]]{
	box(shapes.Empty),
	box(shapes.EmptyArray),
	box(shapes.Bool),
	box(shapes.Byte),
	box(shapes.Int64),
	box(shapes.Complex),
	box(shapes.String),
	box(shapes.Stringer),
	box(shapes.Error),
	box(shapes.Interface),
	box(shapes.Pointer),
	box(shapes.Mixeds),
	box(shapes.Chan),
	box(shapes.Uintptr),
	box(shapes.Nested),
	box(shapes.Float),
	box(shapes.Func),
	box(shapes.Slice),
	box(shapes.Map),
	box(shapes.Large),
	box(shapes.Struct),
	box(shapes.Any),
}

func main() {
	drv.Main(drv.Check{
		ID:          "D05",
		Level:       "model_checking",
		Rule:        "for every capacity up to N every reachable state, breadth first without bound on the history, every operation checked against a bounded sequence; every sequence of operations up to a length for small capacities; fill and drain waves for capacities up to 4096",
		Bounds:      "capacities 1-24 (1-64) breadth first; 14 (17) operations for capacities 1-9; waves of 4 runs around the capacity; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"capacity at least 1", "element values are opaque tokens in the search; concrete types of every shape (zero size, large, not comparable, nil, NaN) are run besides"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			us := []drv.Unit{
				{Name: "states", BFS: true, Body: ring(upto(x(24, 64)), func(mk func() *ds.Queue[*ds.Tok], n int) { ds.QueueBFS(mk, 1<<30, 0)() })},
				{Name: "sequences", Shards: 8, Split: 5, Body: ring(upto(9), func(mk func() *ds.Queue[*ds.Tok], n int) {
					ds.QueueSeq(mk, 1, x(14, 17), true, ds.Toks)()
				})},
				{Name: "two-rings", Shards: 8, Split: 5, Body: ring(upto(3), func(mk func() *ds.Queue[*ds.Tok], n int) {
					ds.QueueSeq(mk, 2, x(7, 9), true, ds.Toks)()
				})},
				{Name: "ints", Body: ring(upto(4), func(mk func() *ds.Queue[int], n int) { ds.QueueSeq(mk, 1, 8, true, ds.Ints)() })},
				{Name: "anys", Body: ring(upto(4), func(mk func() *ds.Queue[any], n int) { ds.QueueSeq(mk, 1, 8, true, ds.Anys)() })},
				{Name: "structs", Body: ring(upto(4), func(mk func() *ds.Queue[ds.Big], n int) { ds.QueueSeq(mk, 1, 8, true, ds.Bigs)() })},
				{Name: "bools", Body: ring(upto(4), func(mk func() *ds.Queue[bool], n int) { ds.QueueSeq(mk, 1, 8, true, ds.Bools)() })},
				{Name: "waves", Steps: 1 << 30, Shards: 8, Split: 3, Body: ring([]int{1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}, func(mk func() *ds.Queue[*ds.Tok], n int) {
					ds.Waves(mk, []int{1, n - 1, n, n + 2, n/2 + 1}, 6, ds.Toks)()
				})},
				{Name: "shapes", Shards: 2, Split: 2, Body: ds.ShapedQueues(boxes, x(7, 9))},
				{Name: "big-waves", Steps: 1 << 30, Shards: 8, Split: 3, Body: ring([]int{4095, 4096, 65535, 65536}, func(mk func() *ds.Queue[int], n int) {
					ds.Waves(mk, []int{n + 1}, 3, ds.Ints)()
				})},
			}
			return us
		},
	})
}
