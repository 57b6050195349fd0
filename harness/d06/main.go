// D06: the slice-backed stack and list equal their models.
package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/dsx"
	llistx "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lstackx "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"verif.local/mc/harness/ds"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

func mkStack[T any]() *ds.Queue[T] {
	s := stackx.New[T]()
	return &ds.Queue[T]{Put: s.Push, Take: s.Pop, Peek: s.Peek, Len: s.Len, Empty: s.IsEmpty, Root: s, Lifo: true}
}

// a stack that is a zero value
func zeroStack[T any]() *ds.Queue[T] {
	s := &stackx.Stack[T]{}
	return &ds.Queue[T]{Put: s.Push, Take: s.Pop, Peek: s.Peek, Len: s.Len, Empty: s.IsEmpty, Root: s, Lifo: true}
}

func asList[T any](l *listx.List[T]) *ds.List[T] {
	return &ds.List[T]{Append: l.Append, Insert: l.Insert, Remove: l.Remove, At: l.At, Iterate: l.Iterate, Len: l.Len, Cap: l.Cap, Root: l, BadIns: true}
}

func mkList[T any]() *ds.List[T] { return asList(new(listx.List[T])) }

// pair runs both implementations of one interface side by side.
func stackPair(depth int) func() {
	return func() {
		var a, b dsx.Stack[*ds.Tok] = stackx.New[*ds.Tok](), lstackx.New[*ds.Tok]()
		for d := 0; d < depth; d++ {
			if vsched.Choose(2) == 0 {
				t := drv.NewTok(d)
				drv.Eq("Push", a.Push(t), b.Push(t))
			} else {
				v, ok := a.Pop()
				w, ok2 := b.Pop()
				if v != w || ok != ok2 {
					vsched.Fail("Pop: (%v, %v) from the slice, (%v, %v) from the links", v, ok, w, ok2)
				}
			}
			v, ok := a.Peek()
			w, ok2 := b.Peek()
			if v != w || ok != ok2 || a.Len() != b.Len() {
				vsched.Fail("Peek/Len: (%v, %v, %d) from the slice, (%v, %v, %d) from the links", v, ok, a.Len(), w, ok2, b.Len())
			}
		}
	}
}

func listPair(depth int) func() {
	return func() {
		var a, b dsx.List[*ds.Tok] = new(listx.List[*ds.Tok]), llistx.New[*ds.Tok]()
		for d := 0; d < depth; d++ {
			n := a.Len()
			switch vsched.Choose(3) {
			case 0:
				t := drv.NewTok(d)
				a.Append(t)
				b.Append(t)
			case 1:
				t := drv.NewTok(d)
				i := vsched.Choose(n+3) - 1
				drv.NoPanic(fmt.Sprintf("Insert(%d) with %d elements", i, n), func() { a.Insert(i, t); b.Insert(i, t) })
			case 2:
				i := vsched.Choose(n+2) - 1
				v, ok := a.Remove(i)
				w, ok2 := b.Remove(i)
				if v != w || ok != ok2 {
					vsched.Fail("Remove(%d): (%v, %v) from the slice, (%v, %v) from the links", i, v, ok, w, ok2)
				}
			}
			drv.Eq("Len", a.Len(), b.Len())
			for i := -1; i <= a.Len(); i++ {
				v, ok := a.At(i)
				w, ok2 := b.At(i)
				if v != w || ok != ok2 {
					vsched.Fail("At(%d): (%v, %v) from the slice, (%v, %v) from the links", i, v, ok, w, ok2)
				}
			}
			for s := 0; s <= a.Len(); s++ {
				var x, y []*ds.Tok
				a.Iterate(func(t *ds.Tok) bool { x = append(x, t); return len(x) != s })
				b.Iterate(func(t *ds.Tok) bool { y = append(y, t); return len(y) != s })
				drv.EqSlice("Iterate of the slice (want: the links)", x, y)
			}
		}
	}
}

// spare: a list made from a slice with spare capacity keeps to its own
// elements as the model says.
func spare(depth int) func() {
	return func() {
		n, extra := vsched.Choose(4), vsched.Choose(4)
		base := make([]*ds.Tok, n, n+extra)
		for i := range base {
			base[i] = drv.NewTok(100 + i)
		}
		l := listx.List[*ds.Tok](base)
		m := append([]*ds.Tok(nil), base...)
		x := asList(&l)
		fresh := ds.Toks()
		for d := 0; d < depth; d++ {
			op := vsched.Choose(3)
			pos := 0
			if op == 1 {
				pos = vsched.Choose(len(m)+3) - 1
			} else if op == 2 {
				pos = vsched.Choose(len(m)+2) - 1
			}
			m = ds.ListOp(x, m, op, pos, fresh)
			for p := -1; p <= len(m); p++ {
				ds.ListOp(x, m, 3, p, nil)
			}
			ds.ListOp(x, m, 4, 0, nil)
			ds.ListOp(x, m, 5, 0, nil)
		}
	}
}

func boxStack[T any](b shapes.Box[T]) ds.Shaped[*ds.Queue[int]] { return ds.BoxQueue(b, mkStack[T]) }
func boxList[T any](b shapes.Box[T]) ds.Shaped[*ds.List[int]]   { return ds.BoxList(b, mkList[T]) }

var stacks = []ds.Shaped[*ds.Queue[int]]{
	boxStack(shapes.Empty),
	boxStack(shapes.EmptyArray),
	boxStack(shapes.Bool),
	boxStack(shapes.Byte),
	boxStack(shapes.Int64),
	boxStack(shapes.Complex),
	boxStack(shapes.String),
	boxStack(shapes.Stringer),
	boxStack(shapes.Error),
	boxStack(shapes.Interface),
	boxStack(shapes.Pointer),
	boxStack(shapes.Mixeds),
	boxStack(shapes.Chan),
	boxStack(shapes.Uintptr),
	boxStack(shapes.Nested),
	boxStack(shapes.Float),
	boxStack(shapes.Func),
	boxStack(shapes.Slice),
	boxStack(shapes.Map),
	boxStack(shapes.Large),
	boxStack(shapes.Struct),
	boxStack(shapes.Any),
}

var lists = []ds.Shaped[*ds.List[int]]{
	boxList(shapes.Empty),
	boxList(shapes.EmptyArray),
	boxList(shapes.Bool),
	boxList(shapes.Byte),
	boxList(shapes.Int64),
	boxList(shapes.Complex),
	boxList(shapes.String),
	boxList(shapes.Stringer),
	boxList(shapes.Error),
	boxList(shapes.Interface),
	boxList(shapes.Pointer),
	boxList(shapes.Mixeds),
	boxList(shapes.Chan),
	boxList(shapes.Uintptr),
	boxList(shapes.Nested),
	boxList(shapes.Float),
	boxList(shapes.Func),
	boxList(shapes.Slice),
	boxList(shapes.Map),
	boxList(shapes.Large),
	boxList(shapes.Struct),
	boxList(shapes.Any),
}

func main() {
	drv.Main(drv.Check{
		ID:          "D06",
		Level:       "model_checking",
		Rule:        "every reachable state with at most N elements, breadth first (capacities included), each operation and position checked against a sequence; every sequence of operations up to a length for one and two objects and five element types; the same operations on the linked implementations side by side; long lists and stacks",
		Bounds:      "stack: 20 (40) elements; list: 6 (8) elements; sequences of 12 (15) stack and 5 (6) list operations; stacks of up to 20000, lists of up to 5000; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"element values are opaque tokens in the search; concrete types of every shape (zero size, large, not comparable, nil, NaN) are run besides"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "stack-states", BFS: true, Body: ds.QueueBFS(mkStack[*ds.Tok], x(20, 40), 0)},
				{Name: "list-states", BFS: true, Body: ds.ListBFS(mkList[*ds.Tok], x(6, 9), 0)},
				{Name: "stack-sequences", Shards: 8, Split: 6, Body: ds.QueueSeq(mkStack[*ds.Tok], 1, x(13, 16), true, ds.Toks)},
				{Name: "stack-zero", Shards: 2, Split: 6, Body: ds.QueueSeq(zeroStack[*ds.Tok], 1, x(12, 15), false, ds.Toks)},
				{Name: "two-stacks", Shards: 4, Split: 4, Body: ds.QueueSeq(mkStack[*ds.Tok], 2, x(8, 9), true, ds.Toks)},
				{Name: "list-sequences", Shards: 8, Split: 4, Body: ds.ListSeq(mkList[*ds.Tok], 1, x(6, 7), true, ds.Toks)},
				{Name: "list-quiet", Shards: 8, Split: 4, Body: ds.ListSeq(mkList[*ds.Tok], 1, x(7, 8), false, ds.Toks)},
				{Name: "two-lists", Shards: 8, Split: 4, Body: ds.ListSeq(mkList[*ds.Tok], 2, x(4, 5), true, ds.Toks)},
				{Name: "list-on-slice", Shards: 4, Split: 3, Body: spare(x(4, 5))},
				{Name: "stack-pair", Body: stackPair(x(12, 14))},
				{Name: "list-pair", Shards: 4, Split: 3, Body: listPair(x(6, 7))},
				{Name: "stack-ints", Body: ds.QueueSeq(mkStack[int], 1, 10, true, ds.Ints)},
				{Name: "stack-anys", Body: ds.QueueSeq(mkStack[any], 1, 10, true, ds.Anys)},
				{Name: "stack-structs", Body: ds.QueueSeq(mkStack[ds.Big], 1, 10, true, ds.Bigs)},
				{Name: "list-ints", Body: ds.ListSeq(mkList[int], 1, 4, true, ds.Ints)},
				{Name: "list-anys", Body: ds.ListSeq(mkList[any], 1, 4, true, ds.Anys)},
				{Name: "list-structs", Body: ds.ListSeq(mkList[ds.Big], 1, 4, true, ds.Bigs)},
				{Name: "list-bools", Body: ds.ListSeq(mkList[bool], 1, 4, true, ds.Bools)},
				{Name: "stack-shapes", Shards: 2, Split: 2, Body: ds.ShapedQueues(stacks, x(7, 9))},
				{Name: "list-shapes", Shards: 2, Split: 2, Body: ds.ShapedLists(lists, x(3, 4))},
				{Name: "stack-huge", Steps: 1 << 30, Shards: 4, Split: 2, Body: ds.Waves(mkStack[int], []int{1, 4097, 20000}, x(3, 4), ds.Ints)},
				{Name: "list-huge", Steps: 1 << 30, Shards: 8, Split: 3, Body: ds.ListLong(mkList[int], []int{2050, 5000}, 1, ds.Ints)},
				{Name: "stack-waves", Shards: 4, Split: 2, Body: ds.Waves(mkStack[*ds.Tok], []int{1, 2, 16, 31, 33, 64, 65, 100, 257, 1000}, 4, ds.Toks)},
				{Name: "list-long", Shards: 4, Split: 2, Body: ds.ListLong(mkList[*ds.Tok], []int{0, 1, 2, 7, 31, 33, 64, 65, 129, 1000}, 2, ds.Toks)},
			}
		},
	})
}
