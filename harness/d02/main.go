// D02: the linked stack is a last-in first-out stack.
package main

import (
	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"verif.local/mc/harness/ds"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
)

func mk[T any]() *ds.Queue[T] {
	var q dsx.Stack[T] = stackx.New[T]()
	return &ds.Queue[T]{Put: q.Push, Take: q.Pop, Peek: q.Peek, Len: q.Len, Root: q, Lifo: true}
}

func box[T any](b shapes.Box[T]) ds.Shaped[*ds.Queue[int]] { return ds.BoxQueue(b, mk[T]) }

var boxes = []ds.Shaped[*ds.Queue[int]]{
	box(shapes.Empty),
	box(shapes.EmptyArray),
	box(shapes.Bool),
	box(shapes.Byte),
	box(shapes.Int64),
	box(shapes.Complex),
	box(shapes.String),
	box(shapes.Stringer),
	box(shapes.Error),
	box(shapes.Interface),
	box(shapes.Pointer),
	box(shapes.Mixeds),
	box(shapes.Chan),
	box(shapes.Uintptr),
	box(shapes.Nested),
	box(shapes.Float),
	box(shapes.Func),
	box(shapes.Slice),
	box(shapes.Map),
	box(shapes.Large),
	box(shapes.Struct),
	box(shapes.Any),
}

func main() {
	drv.Main(drv.Check{
		ID:          "D02",
		Level:       "model_checking",
		Rule:        "every state reachable with at most N elements, breadth first, each operation checked against a sequence; every sequence of additions and removals up to a length, with every answer of the node pool (any recycled node or a new one), for one and two stacks and six element types; long fill and drain waves",
		Bounds:      "8 elements (12) breadth first without bound on the history when the pool recycles, 14 (18) operations when it may also not; 12 (16) operations with the pool answering last-or-new, 9 (11) with any answer; waves of up to 20000; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"element values are opaque tokens in the search; concrete types of every shape (zero size, large, not comparable, nil, NaN) are run besides"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "states", BFS: true, Body: ds.QueueBFS(mk[*ds.Tok], x(8, 12), 0)},
				{Name: "states-pool-or-new", BFS: true, Pool: 1, Body: ds.QueueBFS(mk[*ds.Tok], x(4, 6), x(14, 18))},
				{Name: "sequences-pool-last-or-new", Pool: 1, Shards: 8, Split: 6, Body: ds.QueueSeq(mk[*ds.Tok], 1, x(12, 15), true, ds.Toks)},
				{Name: "sequences-quiet", Pool: 1, Shards: 8, Split: 6, Body: ds.QueueSeq(mk[*ds.Tok], 1, x(12, 15), false, ds.Toks)},
				{Name: "sequences-pool-any", Pool: 2, Shards: 8, Split: 6, Body: ds.QueueSeq(mk[*ds.Tok], 1, x(10, 12), true, ds.Toks)},
				{Name: "two-stacks", Pool: 1, Shards: 8, Split: 6, Body: ds.QueueSeq(mk[*ds.Tok], 2, x(7, 9), true, ds.Toks)},
				{Name: "ints", Pool: 1, Body: ds.QueueSeq(mk[int], 1, 8, true, ds.Ints)},
				{Name: "anys", Pool: 1, Body: ds.QueueSeq(mk[any], 1, 8, true, ds.Anys)},
				{Name: "strings", Pool: 1, Body: ds.QueueSeq(mk[string], 1, 8, true, ds.Strs)},
				{Name: "structs", Pool: 1, Body: ds.QueueSeq(mk[ds.Big], 1, 8, true, ds.Bigs)},
				{Name: "bools", Pool: 1, Body: ds.QueueSeq(mk[bool], 1, 8, true, ds.Bools)},
				{Name: "shapes", Shards: 2, Split: 2, Body: ds.ShapedQueues(boxes, x(7, 9))},
				{Name: "huge", Steps: 1 << 30, Shards: 4, Split: 2, Body: ds.Waves(mk[int], []int{1, 4097, 20000}, x(3, 4), ds.Ints)},
				{Name: "waves", Shards: 4, Split: 2, Body: ds.Waves(mk[*ds.Tok], []int{1, 2, 16, 31, 33, 64, 65, 100, 257, 1000}, 4, ds.Toks)},
			}
		},
	})
}
