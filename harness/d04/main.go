// D04: the deque is a double-ended sequence across its chunk boundaries.
package main

import (
	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	"verif.local/mc/harness/ds"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type deque[T comparable] struct {
	d     dsx.Deque[T]
	root  any
	m     []T
	fresh func() T
}

func mk[T comparable](fresh func() T) *deque[T] {
	d := dequex.New[T]()
	return &deque[T]{d: d, root: d, fresh: fresh}
}

var names = []string{"PushFront", "PushBack", "PopFront", "PopBack", "PeekFront", "PeekBack"}

// op: 0 PushFront, 1 PushBack, 2 PopFront, 3 PopBack, 4 PeekFront, 5 PeekBack.
func (q *deque[T]) op(op int) {
	var v T
	var ok bool
	defer func() {
		if r := recover(); r != nil {
			if vsched.IsAbort(r) {
				panic(r)
			}
			vsched.Fail("%s panics with %d elements: %v", names[op], len(q.m), r)
		}
	}()
	switch op {
	case 0:
		v = q.fresh()
		q.d.PushFront(v)
		q.m = append([]T{v}, q.m...)
		return
	case 1:
		v = q.fresh()
		q.d.PushBack(v)
		q.m = append(q.m[:len(q.m):len(q.m)], v)
		return
	case 2:
		v, ok = q.d.PopFront()
	case 3:
		v, ok = q.d.PopBack()
	case 4:
		v, ok = q.d.PeekFront()
	case 5:
		v, ok = q.d.PeekBack()
	}
	if len(q.m) == 0 {
		if ok {
			vsched.Fail("%s of an empty deque reports %v, true", names[op], v)
		}
		return
	}
	i := 0
	if op%2 == 1 {
		i = len(q.m) - 1
	}
	if !ok || v != q.m[i] {
		vsched.Fail("%s returns (%v, %v) with %d elements, want (%v, true)", names[op], v, ok, len(q.m), q.m[i])
	}
	if op == 2 {
		q.m = q.m[1:]
	}
	if op == 3 {
		q.m = q.m[:i]
	}
}

func (q *deque[T]) peek() { q.op(4); q.op(5) }

func (q *deque[T]) drain(end int) {
	for k := 0; len(q.m) > 0; k++ {
		e := end
		if end == 2 {
			e = k & 1
		}
		q.op(2 + e)
		q.peek()
	}
	for o := 2; o < 6; o++ {
		q.op(o)
	}
}

// states: every state with at most maxLen elements; first and last slots,
// chunk changes and recycled chunks all occur with few elements.
func states(maxLen, depth int) func() {
	return func() {
		q := mk(ds.Toks())
		for d := 0; (depth == 0 || d < depth) && vsched.Step(func() string { return drv.CanonTok(q.m, q.root) }); d++ {
			op := vsched.Choose(4)
			if op < 2 && len(q.m) == maxLen {
				op += 2
			}
			q.op(op)
			q.peek()
		}
	}
}

// seq: every sequence of runs of one operation.
func seq[T comparable](mkFresh func() func() T, objects, depth int, runs []int, peeks bool) func() {
	return func() {
		fresh := mkFresh()
		qs := make([]*deque[T], objects)
		for i := range qs {
			qs[i] = mk(fresh)
		}
		for d := 0; d < depth; d++ {
			c := vsched.Choose(4 * objects)
			n := runs[vsched.Choose(len(runs))]
			q := qs[c/4]
			for i := 0; i < n; i++ {
				q.op(c % 4)
				if peeks && (i < 2 || i > n-3) {
					q.peek()
				}
			}
			q.peek()
		}
		end := vsched.Choose(3)
		for _, q := range qs {
			q.drain(end)
			q.op(1 - end&1)
			q.op(end & 1)
			q.peek()
			q.drain(end)
		}
	}
}

// long: a window of w elements slides n places, then everything is drained.
func long() {
	w := []int{1, 2, 63, 64, 65, 127, 128, 129, 200}[vsched.Choose(9)]
	n := []int{1, 63, 64, 65, 129, 300}[vsched.Choose(6)]
	dir := vsched.Choose(2)
	back := vsched.Choose(2)
	q := mk(ds.Toks())
	for i := 0; i < w; i++ {
		q.op(1 - dir)
	}
	slide := func(dir, n int) {
		for i := 0; i < n; i++ {
			q.op(1 - dir)
			q.op(2 + dir)
			q.peek()
		}
	}
	slide(dir, n)
	if back == 1 {
		slide(1-dir, 2*n)
	}
	q.drain(vsched.Choose(3))
}

// boxed is a deque of any type that takes numbers.
type boxed[T any] struct {
	d dsx.Deque[T]
	b shapes.Box[T]
}

func (x boxed[T]) id(v T, ok bool) (int, bool) {
	if !ok {
		return 0, false
	}
	return x.b.ID(v), true
}
func (x boxed[T]) PushFront(i int)        { x.d.PushFront(x.b.Make(i)) }
func (x boxed[T]) PushBack(i int)         { x.d.PushBack(x.b.Make(i)) }
func (x boxed[T]) PopFront() (int, bool)  { return x.id(x.d.PopFront()) }
func (x boxed[T]) PopBack() (int, bool)   { return x.id(x.d.PopBack()) }
func (x boxed[T]) PeekFront() (int, bool) { return x.id(x.d.PeekFront()) }
func (x boxed[T]) PeekBack() (int, bool)  { return x.id(x.d.PeekBack()) }

func box[T any](b shapes.Box[T]) ds.Shaped[dsx.Deque[int]] {
	return ds.Shaped[dsx.Deque[int]]{Name: b.Name, N: b.N, Mk: func() dsx.Deque[int] { return boxed[T]{dequex.New[T](), b} }}
}

// shaped: runs of operations on deques of every type.
func shaped(depth int, runs []int) func() {
	return func() {
		s := boxes[vsched.Choose(len(boxes))]
		q := &deque[int]{d: s.Mk(), fresh: ds.Cycle(s.N)()}
		for d := 0; d < depth; d++ {
			op := vsched.Choose(4)
			n := runs[vsched.Choose(len(runs))]
			for i := 0; i < n; i++ {
				q.op(op)
				q.peek()
			}
		}
		q.drain(vsched.Choose(2))
	}
}

var boxes = []ds.Shaped[dsx.Deque[int]]{
	box(shapes.Empty),
	box(shapes.EmptyArray),
	box(shapes.Bool),
	box(shapes.Byte),
	box(shapes.Int64),
	box(shapes.Complex),
	box(shapes.String),
	box(shapes.Stringer),
	box(shapes.Error),
	box(shapes.Interface),
	box(shapes.Pointer),
	box(shapes.Mixeds),
	box(shapes.Chan),
	box(shapes.Uintptr),
	box(shapes.Nested),
	box(shapes.Float),
	box(shapes.Func),
	box(shapes.Slice),
	box(shapes.Map),
	box(shapes.Large),
	box(shapes.Struct),
	box(shapes.Any),
}

func main() {
	drv.Main(drv.Check{
		ID:          "D04",
		Level:       "model_checking",
		Rule:        "every state reachable with at most N elements, breadth first, at every cursor position within the chunks and with every recycled chunk, every operation checked against a sequence; every sequence of runs of pushes and pops at either end with run lengths around the chunk size, with every answer of the chunk pool; sliding windows of up to 200 elements",
		Bounds:      "breadth first: 66 elements (131), no bound on the history; run lengths 1, 2, 31, 63, 64, 65 in 4 (5) steps; single operations in 7 (9) steps; runs of 2100 (4097) in 3 (4) steps; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"element values are opaque tokens in the search; concrete types of every shape (zero size, large, not comparable, nil, NaN) are run besides"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			one := []int{1}
			runs := []int{1, 2, 31, 63, 64, 65}
			return []drv.Unit{
				{Name: "states", BFS: true, Body: states(x(66, 131), 0)},
				{Name: "runs", Shards: 8, Split: 4, Body: seq(ds.Toks, 1, x(4, 5), runs, true)},
				{Name: "runs-pool-or-new", Pool: 1, Shards: 8, Split: 4, Body: seq(ds.Toks, 1, 3, runs, false)},
				{Name: "runs-pool-any", Pool: 2, Shards: 8, Split: 4, Body: seq(ds.Toks, 1, x(4, 5), []int{1, 64, 65}, false)},
				{Name: "runs-of-128", Shards: 8, Split: 4, Body: seq(ds.Toks, 1, x(4, 5), []int{1, 64, 127, 129}, false)},
				{Name: "single", Pool: 2, Shards: 8, Split: 4, Body: seq(ds.Toks, 1, x(7, 9), one, false)},
				{Name: "two-deques", Shards: 8, Split: 4, Body: seq(ds.Toks, 2, x(4, 5), []int{1, 64, 65}, false)},
				{Name: "ints", Shards: 2, Split: 4, Body: seq(ds.Ints, 1, 3, runs, true)},
				{Name: "anys", Shards: 2, Split: 4, Body: seq(ds.Anys, 1, 3, runs, true)},
				{Name: "structs", Shards: 2, Split: 4, Body: seq(ds.Bigs, 1, 3, runs, true)},
				{Name: "bools", Shards: 2, Split: 4, Body: seq(ds.Bools, 1, 3, runs, true)},
				{Name: "shapes", Pool: 1, Shards: 2, Split: 2, Body: shaped(x(3, 4), []int{1, 2, 64, 65})},
				{Name: "huge", Steps: 1 << 30, Shards: 8, Split: 3, Body: seq(ds.Ints, 1, x(3, 4), []int{1, x(2100, 4097)}, false)},
				{Name: "windows", Shards: 4, Split: 2, Body: long},
			}
		},
	})
}
