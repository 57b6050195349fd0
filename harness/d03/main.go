// D03: the linked list is an indexable sequence.
package main

import (
	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	"verif.local/mc/harness/ds"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
)

func mk[T any]() *ds.List[T] {
	var l dsx.List[T] = listx.New[T]()
	return &ds.List[T]{Append: l.Append, Insert: l.Insert, Remove: l.Remove, At: l.At, Iterate: l.Iterate, Len: l.Len, Root: l, BadIns: true}
}

func box[T any](b shapes.Box[T]) ds.Shaped[*ds.List[int]] { return ds.BoxList(b, mk[T]) }

var boxes = []ds.Shaped[*ds.List[int]]{
	box(shapes.Empty),
	box(shapes.EmptyArray),
	box(shapes.Bool),
	box(shapes.Byte),
	box(shapes.Int64),
	box(shapes.Complex),
	box(shapes.String),
	box(shapes.Stringer),
	box(shapes.Error),
	box(shapes.Interface),
	box(shapes.Pointer),
	box(shapes.Mixeds),
	box(shapes.Chan),
	box(shapes.Uintptr),
	box(shapes.Nested),
	box(shapes.Float),
	box(shapes.Func),
	box(shapes.Slice),
	box(shapes.Map),
	box(shapes.Large),
	box(shapes.Struct),
	box(shapes.Any),
}

func main() {
	drv.Main(drv.Check{
		ID:          "D03",
		Level:       "model_checking",
		Rule:        "every state reachable with at most N elements, breadth first, every operation with every position (in range, just outside, extreme) checked against a sequence; every sequence of edits up to a length, with every answer of the node pool, for one and two lists and five element types; long lists edited at both ends and in the middle",
		Bounds:      "6 elements (9) breadth first without bound on the history when the pool recycles, 9 (12) operations when it may also not; 5 (6) edits with all positions -1..len+1, full comparison after each; lists of up to 5000; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"element values are opaque tokens in the search; concrete types of every shape (zero size, large, not comparable, nil, NaN) are run besides"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "states", BFS: true, Body: ds.ListBFS(mk[*ds.Tok], x(6, 9), 0)},
				{Name: "states-pool-or-new", BFS: true, Pool: 1, Body: ds.ListBFS(mk[*ds.Tok], x(4, 6), x(9, 12))},
				{Name: "sequences-pool-last-or-new", Pool: 1, Shards: 8, Split: 4, Body: ds.ListSeq(mk[*ds.Tok], 1, x(5, 6), true, ds.Toks)},
				{Name: "sequences-quiet", Pool: 1, Shards: 8, Split: 4, Body: ds.ListSeq(mk[*ds.Tok], 1, x(6, 7), false, ds.Toks)},
				{Name: "sequences-pool-any", Pool: 2, Shards: 8, Split: 4, Body: ds.ListSeq(mk[*ds.Tok], 1, x(5, 6), false, ds.Toks)},
				{Name: "two-lists", Pool: 0, Shards: 8, Split: 4, Body: ds.ListSeq(mk[*ds.Tok], 2, x(4, 5), true, ds.Toks)},
				{Name: "ints", Pool: 1, Body: ds.ListSeq(mk[int], 1, 4, true, ds.Ints)},
				{Name: "anys", Pool: 1, Body: ds.ListSeq(mk[any], 1, 4, true, ds.Anys)},
				{Name: "structs", Pool: 1, Body: ds.ListSeq(mk[ds.Big], 1, 4, true, ds.Bigs)},
				{Name: "bools", Pool: 1, Body: ds.ListSeq(mk[bool], 1, 4, true, ds.Bools)},
				{Name: "shapes", Pool: 1, Shards: 2, Split: 2, Body: ds.ShapedLists(boxes, x(3, 4))},
				{Name: "huge", Steps: 1 << 30, Shards: 8, Split: 3, Body: ds.ListLong(mk[int], []int{2050, 5000}, 1, ds.Ints)},
				{Name: "long", Shards: 8, Split: 3, Body: ds.ListLong(mk[*ds.Tok], []int{0, 1, 2, 7, 31, 33, 64, 65, 129, 1000}, 2, ds.Toks)},
			}
		},
	})
}
