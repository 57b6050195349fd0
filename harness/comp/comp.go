// Package comp lists every component of the library with a script that uses a
// value of its own, the operations that only read, and those that call back.
package comp

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llistx "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueuex "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstackx "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slistx "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeuex "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstackx "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	"github.com/unsafe-risk/utilx/syncx/lockx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/timex/sleepx"
	"github.com/unsafe-risk/utilx/timex/truncatex"
	"github.com/unsafe-risk/utilx/typex/convx"
	"verif.local/mc/mc/vsched"
)

// Script uses a fresh value: it calls pt between operations and checks every
// result.  id makes the contents of two users differ.
type Script struct {
	Name string
	Run  func(id int, pt func())
	// Read, if set, builds a value and lists the operations that leave it as
	// it is, each rendering its result.
	Read func() []Op
	// Back, if set, builds a value and lists the operations that call back;
	// each calls cb wherever the library calls it, and renders its result.
	Back func() []Op
}

type Op struct {
	Name string
	Run  func(cb func()) string
}

func eq[T comparable](what string, got, want T) {
	if got != want {
		vsched.Fail("%s: got %v, want %v", what, got, want)
	}
}

func eqs(what string, got any, want string) {
	if s := fmt.Sprint(got); s != want {
		vsched.Fail("%s: got %s, want %s", what, s, want)
	}
}

func sp(a ...any) string { return strings.TrimSuffix(fmt.Sprintln(a...), "\n") }

func two[A, B any](a A, b B) string               { return sp(a, b) }
func three[A, B, C any](a A, b B, c C) string     { return sp(a, b, c) }
func op(name string, f func(cb func()) string) Op { return Op{name, f} }
func rd(name string, f func() string) Op {
	return Op{name, func(func()) string { return f() }}
}

type fifo interface {
	Enqueue(int) bool
	Dequeue() (int, bool)
	Peek() (int, bool)
	IsEmpty() bool
}

func queue(mk func() fifo) func(id int, pt func()) {
	return func(id int, pt func()) {
		q := mk()
		b := 100 * id
		for r := 0; r < 2; r++ {
			for i := 0; i < 3; i++ {
				q.Enqueue(b + i)
				pt()
			}
			eqs("Peek", two(q.Peek()), fmt.Sprint(b, true))
			for i := 0; i < 3; i++ {
				eqs("Dequeue", two(q.Dequeue()), fmt.Sprint(b+i, true))
				pt()
			}
			eqs("Dequeue when empty", two(q.Dequeue()), "0 false")
			eq("IsEmpty", q.IsEmpty(), true)
		}
	}
}

func queueRead(mk func() fifo) func() []Op {
	return func() []Op {
		q := mk()
		q.Enqueue(7)
		q.Enqueue(8)
		return []Op{
			rd("Peek", func() string { return two(q.Peek()) }),
			rd("IsEmpty", func() string { return fmt.Sprint(q.IsEmpty()) }),
		}
	}
}

type lifo interface {
	Push(int) bool
	Pop() (int, bool)
	Peek() (int, bool)
	Len() int
}

func stack(mk func() lifo) func(id int, pt func()) {
	return func(id int, pt func()) {
		s := mk()
		b := 100 * id
		for r := 0; r < 2; r++ {
			for i := 0; i < 3; i++ {
				s.Push(b + i)
				pt()
			}
			eqs("Peek", two(s.Peek()), fmt.Sprint(b+2, true))
			eq("Len", s.Len(), 3)
			for i := 2; i >= 0; i-- {
				eqs("Pop", two(s.Pop()), fmt.Sprint(b+i, true))
				pt()
			}
			eqs("Pop when empty", two(s.Pop()), "0 false")
		}
	}
}

func stackRead(mk func() lifo) func() []Op {
	return func() []Op {
		s := mk()
		s.Push(7)
		s.Push(8)
		return []Op{
			rd("Peek", func() string { return two(s.Peek()) }),
			rd("Len", func() string { return fmt.Sprint(s.Len()) }),
		}
	}
}

type list interface {
	Append(int)
	Insert(int, int)
	Remove(int) (int, bool)
	At(int) (int, bool)
	Iterate(func(int) bool)
	Len() int
}

func all(l list) (r []int) {
	l.Iterate(func(v int) bool { r = append(r, v); return true })
	return
}

func lists(mk func() list) func(id int, pt func()) {
	return func(id int, pt func()) {
		l := mk()
		b := 100 * id
		for r := 0; r < 2; r++ {
			l.Append(b)
			pt()
			l.Append(b + 3)
			pt()
			l.Insert(1, b+1)
			pt()
			l.Insert(2, b+2)
			pt()
			eqs("Iterate", all(l), fmt.Sprint([]int{b, b + 1, b + 2, b + 3}))
			pt()
			for i := 3; i >= 0; i-- {
				eqs("At", two(l.At(i)), fmt.Sprint(b+i, true))
			}
			eqs("Remove", two(l.Remove(1)), fmt.Sprint(b+1, true))
			pt()
			eqs("Iterate", all(l), fmt.Sprint([]int{b, b + 2, b + 3}))
			for l.Len() > 0 {
				l.Remove(l.Len() - 1)
				pt()
			}
		}
	}
}

func listRead(mk func() list) func() []Op {
	return func() []Op {
		l := mk()
		for i := 0; i < 4; i++ {
			l.Append(10 + i)
		}
		return listReadOf(l)
	}
}

func listReadOf(l list) []Op {
	ops := []Op{
		rd("Len", func() string { return fmt.Sprint(l.Len()) }),
		rd("Iterate", func() string { return fmt.Sprint(all(l)) }),
	}
	for _, i := range []int{-1, 0, 2, 3, 4} {
		ops = append(ops, rd(fmt.Sprint("At ", i), func() string { return two(l.At(i)) }))
	}
	return ops
}

func listBack(mk func() list) func() []Op {
	return func() []Op {
		l := mk()
		for i := 0; i < 4; i++ {
			l.Append(10 + i)
		}
		return []Op{
			op("Iterate", func(cb func()) string {
				var r []int
				l.Iterate(func(v int) bool { cb(); r = append(r, v); return true })
				return fmt.Sprint(r)
			}),
			op("Iterate until", func(cb func()) string {
				var r []int
				l.Iterate(func(v int) bool { cb(); r = append(r, v); return v < 12 })
				return fmt.Sprint(r)
			}),
		}
	}
}

func deque(id int, pt func()) {
	d := dequex.New[int]()
	b := 1000 * id
	for r := 0; r < 2; r++ {
		for i := 0; i < 3; i++ {
			d.PushBack(b + i)
			pt()
			d.PushFront(b - 1 - i)
			pt()
		}
		eqs("PeekFront", two(d.PeekFront()), fmt.Sprint(b-3, true))
		eqs("PeekBack", two(d.PeekBack()), fmt.Sprint(b+2, true))
		for i := 0; i < 3; i++ {
			eqs("PopFront", two(d.PopFront()), fmt.Sprint(b-3+i, true))
			pt()
			eqs("PopBack", two(d.PopBack()), fmt.Sprint(b+2-i, true))
			pt()
		}
		eqs("PopBack when empty", two(d.PopBack()), "0 false")
	}
	for i := 0; i < 130; i++ {
		d.PushBack(b + i)
	}
	pt()
	for i := 0; i < 130; i++ {
		eqs("PopFront", two(d.PopFront()), fmt.Sprint(b+i, true))
	}
}

func dequeRead() []Op {
	d := dequex.New[int]()
	d.PushBack(5)
	d.PushFront(4)
	return []Op{
		rd("PeekFront", func() string { return two(d.PeekFront()) }),
		rd("PeekBack", func() string { return two(d.PeekBack()) }),
	}
}

func slice(id int, pt func()) {
	b := 100 * id
	s := slicex.New[int]()
	for i := 0; i < 4; i++ {
		s.Push(b + i)
		pt()
	}
	c := s.Copy()
	pt()
	s.Rotate(1)
	pt()
	s.Splice(1, 2, b+7, b+8)
	pt()
	s.Reverse()
	eqs("edited", *s, fmt.Sprint([]int{b, b + 3, b + 8, b + 7, b + 1}))
	pt()
	s.Filter(func(v int) bool { pt(); return v != b+8 })
	eqs("Filter", *s, fmt.Sprint([]int{b, b + 3, b + 7, b + 1}))
	s.UnShift(b + 9)
	pt()
	eq("Shift", s.Shift(), b+9)
	s.Insert(2, b+5)
	pt()
	s.DeleteReplace(0)
	pt()
	eqs("edited", *s, fmt.Sprint([]int{b + 1, b + 3, b + 5, b + 7}))
	eqs("Split", s.Split(1, 2), fmt.Sprint([][]int{{b + 1}, {b + 3, b + 5}, {b + 7}}))
	pt()
	eq("Join", s.Join("-"), fmt.Sprintf("%d-%d-%d-%d", b+1, b+3, b+5, b+7))
	s.Repeat(2)
	pt()
	eqs("Repeat", *s, fmt.Sprint([]int{b + 1, b + 3, b + 5, b + 7, b + 1, b + 3, b + 5, b + 7}))
	eqs("Copy", *c, fmt.Sprint([]int{b, b + 1, b + 2, b + 3}))
	s.Clear()
	s.Extend(3)
	pt()
	eqs("Extend", *s, "[0 0 0]")
}

func newSlice() *slicex.Slice[int] { return slicex.New(4, 5, 6, 7, 8) }

func sliceRead() []Op { return sliceReadOf(newSlice()) }

func sliceReadOf(s *slicex.Slice[int]) []Op {
	return []Op{
		rd("Copy", func() string { return fmt.Sprint(*s.Copy()) }),
		rd("Get", func() string { return fmt.Sprint(s.Get(2)) }),
		rd("Split", func() string { return fmt.Sprint(s.Split(2, 1)) }),
		rd("Batch", func() string { return fmt.Sprint(s.Batch(2)) }),
		rd("Join", func() string { return s.Join(",") }),
		rd("IndexOf", func() string { return fmt.Sprint(s.IndexOf(func(v int) bool { return v == 7 })) }),
		rd("Contains", func() string { return fmt.Sprint(s.Contains(func(v int) bool { return v == 9 })) }),
		rd("Each", func() string { var r []int; s.Each(func(v int) { r = append(r, v) }); return fmt.Sprint(r) }),
		rd("ForEach", func() string { var r []int; s.ForEach(func(i, v int) { r = append(r, i, v) }); return fmt.Sprint(r) }),
		rd("Len", func() string { return fmt.Sprint(s.Len()) }),
		rd("Finalize", func() string { return fmt.Sprint(s.Finalize()) }),
	}
}

func sliceBack() []Op {
	return []Op{
		op("Filter", func(cb func()) string {
			return fmt.Sprint(*newSlice().Filter(func(v int) bool { cb(); return v%2 == 0 }))
		}),
		op("IndexOf", func(cb func()) string {
			return fmt.Sprint(newSlice().IndexOf(func(v int) bool { cb(); return v == 7 }))
		}),
		op("Contains", func(cb func()) string {
			return fmt.Sprint(newSlice().Contains(func(v int) bool { cb(); return v == 7 }))
		}),
		op("Each", func(cb func()) string {
			var r []int
			newSlice().Each(func(v int) { cb(); r = append(r, v) })
			return fmt.Sprint(r)
		}),
		op("ForEach", func(cb func()) string {
			var r []int
			newSlice().ForEach(func(i, v int) { cb(); r = append(r, i, v) })
			return fmt.Sprint(r)
		}),
		op("Join", func(cb func()) string {
			s := slicex.New(shower{1, cb}, shower{2, cb}, shower{3, cb})
			return s.Join(";")
		}),
	}
}

func sliceBackOf(s *slicex.Slice[int]) []Op {
	return []Op{
		op("IndexOf", func(cb func()) string {
			return sp(s.IndexOf(func(v int) bool { cb(); return v == 7 }))
		}),
		op("Contains", func(cb func()) string {
			return sp(s.Contains(func(v int) bool { cb(); return v == 7 }))
		}),
		op("Each", func(cb func()) string {
			var r []int
			s.Each(func(v int) { cb(); r = append(r, v) })
			return sp(r)
		}),
		op("ForEach", func(cb func()) string {
			var r []int
			s.ForEach(func(i, v int) { cb(); r = append(r, i, v) })
			return sp(r)
		}),
	}
}

// shower calls back when it is printed.
type shower struct {
	v  int
	cb func()
}

func (s shower) String() string { s.cb(); return fmt.Sprint("<", s.v, ">") }

func skl(id int, pt func()) {
	b := 100 * id
	m := sklmapx.New[int, string]()
	for r := 0; r < 2; r++ {
		for _, i := range []int{2, 0, 3, 1} {
			m.Set(b+i, fmt.Sprint("v", b+i))
			pt()
		}
		eqs("Keys", m.Keys(), fmt.Sprint([]int{b, b + 1, b + 2, b + 3}))
		pt()
		eqs("Get", two(m.Get(b+2)), fmt.Sprintf("v%d true", b+2))
		it := m.Iterator()
		pt()
		eqs("Seek", three(it.Seek(b+1)), fmt.Sprintf("%d v%d true", b+1, b+1))
		pt()
		eqs("Next", three(it.Next()), fmt.Sprintf("%d v%d true", b+2, b+2))
		eq("Del", m.Del(b+1), true)
		pt()
		eqs("Values", m.Values(), fmt.Sprintf("[v%d v%d v%d]", b, b+2, b+3))
		eq("String", m.String(), fmt.Sprintf("sklmapx[%d:v%d %d:v%d %d:v%d]", b, b, b+2, b+2, b+3, b+3))
		pt()
		m.Clear()
		pt()
		eq("Len", m.Len(), 0)
	}
}

func newSkl() *sklmapx.SkipListMap[int, string] {
	m := sklmapx.New[int, string]()
	for i := 0; i < 5; i++ {
		m.Set(2*i, fmt.Sprint("v", i))
	}
	return m
}

func sklRead() []Op {
	m := newSkl()
	ops := []Op{
		rd("Keys", func() string { return fmt.Sprint(m.Keys()) }),
		rd("Values", func() string { return fmt.Sprint(m.Values()) }),
		rd("ToMap", func() string { return fmt.Sprint(m.ToMap()) }),
		rd("String", func() string { return m.String() }),
		rd("Len", func() string { return fmt.Sprint(m.Len()) }),
		rd("Iterator", func() string {
			it := m.Iterator()
			var r []string
			for {
				k, v, ok := it.Next()
				if !ok {
					break
				}
				r = append(r, fmt.Sprint(k, v))
			}
			it.Rewind()
			return fmt.Sprint(r, three(it.Next()))
		}),
	}
	for _, k := range []int{-1, 0, 4, 5, 8, 9} {
		ops = append(ops,
			rd(fmt.Sprint("Get ", k), func() string { return two(m.Get(k)) }),
			rd(fmt.Sprint("Seek ", k), func() string { it := m.Iterator(); return three(it.Seek(k)) }))
	}
	return ops
}

func sklBack() []Op {
	return []Op{op("String", func(cb func()) string {
		m := sklmapx.New[int, shower]()
		for i := 0; i < 3; i++ {
			m.Set(i, shower{i, cb})
		}
		return m.String()
	})}
}

func ordered(id int, pt func()) {
	b := 100 * id
	m := ordmapx.New[int, int]()
	for r := 0; r < 2; r++ {
		for _, i := range []int{2, 0, 1} {
			m.Set(b+i, b+10*i)
			pt()
		}
		m.Set(b+1, b+99)
		pt()
		eqs("Keys", m.Keys(), fmt.Sprint([]int{b, b + 1, b + 2}))
		pt()
		eqs("Values", m.Values(), fmt.Sprint([]int{b, b + 99, b + 20}))
		var seen []int
		m.Range(func(k, v int) bool { pt(); seen = append(seen, k, v); return k == b+1 })
		eqs("Range", seen, fmt.Sprint([]int{b, b, b + 1, b + 99}))
		m.Del(b)
		pt()
		eqs("Get", two(m.Get(b+1)), fmt.Sprint(b+99, true))
		eqs("Get", two(m.Get(b)), fmt.Sprint(0, false))
		m.Clear()
		pt()
		eq("Len", m.Len(), 0)
	}
}

func newOrd() *ordmapx.OrdMap[int, int] {
	m := ordmapx.New[int, int]()
	for i := 0; i < 5; i++ {
		m.Set(2*i, i*i)
	}
	return m
}

func ordRead() []Op { return ordReadOf(newOrd()) }

func ordReadOf(m *ordmapx.OrdMap[int, int]) []Op {
	ops := []Op{
		rd("Len", func() string { return fmt.Sprint(m.Len()) }),
		rd("Keys", func() string { return fmt.Sprint(m.Keys()) }),
		rd("Values", func() string { return fmt.Sprint(m.Values()) }),
		rd("Range", func() string {
			var r []int
			m.Range(func(k, v int) bool { r = append(r, k, v); return false })
			return fmt.Sprint(r)
		}),
		rd("Range until", func() string {
			var r []int
			m.Range(func(k, v int) bool { r = append(r, k, v); return k == 4 })
			return fmt.Sprint(r)
		}),
	}
	for _, k := range []int{-1, 0, 4, 5} {
		ops = append(ops, rd(fmt.Sprint("Get ", k), func() string { return two(m.Get(k)) }))
	}
	return ops
}

func ordBack() []Op {
	m := newOrd()
	return []Op{op("Range", func(cb func()) string {
		var r []int
		m.Range(func(k, v int) bool { cb(); r = append(r, k, v); return false })
		return fmt.Sprint(r)
	})}
}

func bits(id int, pt func()) {
	var b bitsetx.BitSet[uint64]
	p := 3 + 20*id
	b.Set(p, p+1)
	pt()
	b.Toggle(p+1, p+2)
	pt()
	b.Clear(p + 7)
	pt()
	for i := 0; i < 64; i++ {
		eq("Test", b.Test(i), i == p || i == p+2)
	}
	b.ToggleAll()
	pt()
	eq("Test", b.Test(p, p+2), false)
	b.SetAll()
	pt()
	eq("IsFull", b.IsFull(), true)
	b.ClearAll()
	pt()
	eq("IsEmpty", b.IsEmpty(), true)
}

func bitsRead() []Op {
	b := new(bitsetx.BitSet[uint16])
	b.Set(3, 9)
	return []Op{
		rd("Test 3", func() string { return fmt.Sprint(b.Test(3)) }),
		rd("Test 4 9", func() string { return fmt.Sprint(b.Test(4, 9)) }),
		rd("Test none", func() string { return fmt.Sprint(b.Test(5)) }),
		rd("IsEmpty", func() string { return fmt.Sprint(b.IsEmpty()) }),
		rd("IsFull", func() string { return fmt.Sprint(b.IsFull()) }),
	}
}

func synced(id int, pt func()) {
	b := 100 * id
	m := syncmapx.New[int, int]()
	m.Set(1, b)
	m.Set(2, b+1)
	pt()
	eq("Get", m.Get(2), b+1)
	m.Delete(1)
	pt()
	eqs("Keys", m.Keys(), "[2]")
	eqs("Values", m.Values(), fmt.Sprint([]int{b + 1}))
	m.Clear()
	pt()
	eq("Size", m.Size(), 0)
}

func sorting(id int, pt func()) {
	less := func(a, c int) bool { pt(); return a < c }
	d := []int{3, 1, 2}
	want := "[1 2 3]"
	if id == 1 {
		d, want = []int{9, 8, 8, 7}, "[7 8 8 9]"
	}
	x := append([]int(nil), d...)
	sortx.SortCustom(x, less)
	eqs("SortCustom", x, want)
	x = append([]int(nil), d...)
	sortx.SortStableCustom(x, less)
	eqs("SortStableCustom", x, want)
	sortx.SortReverse(x)
	pt()
	eq("IsSortedReverse", sortx.IsSortedReverse(x), true)
	sortx.Sort(x, false)
	eqs("Sort", x, want)
	i, ok := searchx.SearchCustom(x, x[2], func(a, c int) int { pt(); return a - c })
	eqs("SearchCustom", two(i, ok), fmt.Sprint(2-id, true))
}

func sortRead() []Op {
	s := []int{1, 3, 5, 5, 9}
	var ops []Op
	for _, k := range []int{0, 1, 4, 5, 9, 10} {
		ops = append(ops, rd(fmt.Sprint("Search ", k), func() string { return two(searchx.Search(s, k)) }))
	}
	return append(ops,
		rd("IsSorted", func() string { return fmt.Sprint(sortx.IsSorted(s)) }),
		rd("IsSortedReverse", func() string { return fmt.Sprint(sortx.IsSortedReverse(s)) }))
}

func long(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i*7919%n)
	}
	return
}

func sortBack() []Op {
	var ops []Op
	for _, n := range []int{3, 30} {
		ops = append(ops,
			op(fmt.Sprint("SortCustom ", n), func(cb func()) string {
				s := long(n)
				sortx.SortCustom(s, func(a, b int) bool { cb(); return a < b })
				return fmt.Sprint(s)
			}),
			op(fmt.Sprint("SortStableCustom ", n), func(cb func()) string {
				s := long(n)
				sortx.SortStableCustom(s, func(a, b int) bool { cb(); return a%5 < b%5 })
				return fmt.Sprint(s)
			}),
			op(fmt.Sprint("IsSortedCustom ", n), func(cb func()) string {
				return fmt.Sprint(sortx.IsSortedCustom(long(n), func(a, b int) bool { cb(); return a > b }))
			}),
			op(fmt.Sprint("SearchCustom ", n), func(cb func()) string {
				s := long(n)
				sortx.Sort(s, false)
				return two(searchx.SearchCustom(s, n/3, func(a, b int) int { cb(); return a - b }))
			}))
	}
	return ops
}

func times(id int, pt func()) {
	t := int64(1700000000 + 86400*40*id)
	for _, x := range []struct {
		f    func(int64) int64
		want [2]int64
	}{
		{truncatex.TruncateYear, [2]int64{1672531200, 1672531200}},
		{truncatex.TruncateMonth, [2]int64{1698796800, 1701388800}},
		{truncatex.TruncateWeek, [2]int64{1699833600, 1702857600}},
		{truncatex.TruncateDay, [2]int64{1699920000, 1703376000}},
	} {
		eq("truncation", x.f(t), x.want[id])
		pt()
	}
	eq("Custom", timex.Custom(t, 5).UnixNano(), t*1e9+5)
	var d = diffx.New()
	d.Start()
	pt()
	d.End()
	eq("diff", d.GetDiff(), d.GetEnd().Sub(d.GetStart()))
	o := int64(1000 * id)
	u, l, ok := intersectionx.Intersection(intersectionx.Interval{Offset: o + 5, ConfidenceBand: 10}, intersectionx.Interval{Offset: o + 2, ConfidenceBand: 5}, intersectionx.Interval{Offset: o + 3, ConfidenceBand: 6})
	pt()
	eqs("Intersection", three(u, l, ok), fmt.Sprint(o-3, o+7, true))
}

func timesRead() []Op {
	d := diffx.New()
	d.Start()
	d.End()
	iv := []intersectionx.Interval{{Offset: 9, ConfidenceBand: 10}, {Offset: 2, ConfidenceBand: 5}, {Offset: 3, ConfidenceBand: 6}}
	return []Op{
		rd("GetDiff", func() string { return fmt.Sprint(d.GetDiff()) }),
		rd("GetStart", func() string { return d.GetStart().Location().String() }),
		rd("GetEnd", func() string { return d.GetEnd().Location().String() }),
		rd("Intersection", func() string { return three(intersectionx.Intersection(iv...)) }),
	}
}

var errBranch = errors.New("branch")

func functional(id int, pt func()) {
	l := lazyx.New(func() int { pt(); return 40 + id })
	eq("Get", l.Get(), 40+id)
	v, err := optionx.Some(id).Match(func(v int) (int, error) { pt(); return v + 1, errBranch }, nil)
	eqs("Match", two(v, err), fmt.Sprint(id+1, errBranch))
	r, e := resultx.Err[int](fmt.Sprint("e", id)).Match(nil, func(e string) (int, string) { pt(); return id, e + "!" })
	eqs("Match", two(r, e), sp(id, fmt.Sprint("e", id, "!")))
	p := optionalx.Parameter(func(p *int) *string { pt(); s := fmt.Sprint("built ", *p); return &s },
		func(*int) *int { pt(); return &id }, func(p *int) *int { pt(); q := *p + 7; return &q })
	eq("Parameter", *p, fmt.Sprint("built ", id+7))
	eq("Get", l.Get(), 40+id)
}

func functionalBack() []Op {
	return []Op{
		op("lazy Get", func(cb func()) string {
			l := lazyx.New(func() int { cb(); return 8 })
			return fmt.Sprint(l.Get(), l.Get())
		}),
		op("option present", func(cb func()) string {
			return two(optionx.Some(3).Match(func(v int) (int, error) { cb(); return v * 2, nil }, func() (int, error) { return -1, nil }))
		}),
		op("option absent", func(cb func()) string {
			return two(optionx.None[int]().Match(func(v int) (int, error) { return v * 2, nil }, func() (int, error) { cb(); return -1, errBranch }))
		}),
		op("result", func(cb func()) string {
			return two(resultx.Ok[int, string](3).Match(func(v int) (int, string) { cb(); return v * 2, "" }, func(e string) (int, string) { return 0, e }))
		}),
		op("Parameter", func(cb func()) string {
			return *optionalx.Parameter(func(p *int) *string { cb(); s := fmt.Sprint("built ", *p); return &s },
				func(*int) *int { cb(); x := 4; return &x }, func(p *int) *int { cb(); *p++; return p })
		}),
	}
}

func conversions(id int, pt func()) {
	s, ok := convx.Into[int, string](7 + id)
	pt()
	eqs("Into", two(s, ok), fmt.Sprint(7+id, true))
	eq("IntoOr", convx.IntoOr("31", int32(0)), 31)
	pt()
	eq("IntoOr", convx.IntoOr(2.5+float64(id), ""), fmt.Sprint(2.5+float64(id)))
	pt()
	eq("IntoOr", convx.IntoOr(uint8(40+id), ""), fmt.Sprint(40+id))
	pt()
	eq("IntoOr", convx.IntoOr(fmt.Sprint("0.", 1+id), 0.0), float64(1+id)/10)
	pt()
	eqs("IntoOr", convx.IntoOr(fmt.Sprint("é", id), []rune(nil)), fmt.Sprint([]rune{'é', rune('0' + id)}))
	pt()
	b := convx.IntoOr(fmt.Sprint("bytes", id), []byte(nil))
	pt()
	b[0] = 'B'
	eqs("IntoOr", string(convx.IntoOr("bytes", []byte(nil))), "bytes")
	eq("Exists", convx.Exists[bool, float32](), true)
}

func conversionsRead() []Op {
	return []Op{
		rd("Into int to string", func() string { return two(convx.Into[int, string](3)) }),
		rd("Into float to int", func() string { return two(convx.Into[float64, int8](3.7)) }),
		rd("Into float to string", func() string { return two(convx.Into[float64, string](3.25)) }),
		rd("Into bool to string", func() string { return two(convx.Into[bool, string](true)) }),
		rd("Into string to float", func() string { return two(convx.Into[string, float32]("1.5")) }),
		rd("Into bytes to string", func() string { return two(convx.Into[[]byte, string]([]byte("xy"))) }),
		rd("Into string to runes", func() string { return two(convx.Into[string, []rune]("aé")) }),
		rd("IntoOr missing", func() string { return fmt.Sprint(convx.IntoOr([3]int{}, "default")) }),
		rd("Exists", func() string { return fmt.Sprint(convx.Exists[uint8, string](), convx.Exists[error, string]()) }),
	}
}

type closer struct {
	f   func()
	err error
}

func (c closer) Close() error { c.f(); return c.err }

func closing(id int, pt func()) {
	m := closex.New()
	var order []int
	errs := []error{errors.New("a"), nil, errors.New("b")}
	var cs []io.Closer
	for i, e := range errs {
		cs = append(cs, closer{func() { pt(); order = append(order, 10*id+i) }, e})
		m.Append(cs[i])
		pt()
	}
	list, ok := closex.AsErrs(m.Close())
	eqs("errors", two(list, ok), "[a b] true")
	eqs("order", order, fmt.Sprint([]int{10 * id, 10*id + 1, 10*id + 2}))
	order = nil
	ran := 0
	r := usingx.Close(cs...)(func() { pt(); ran++ })
	eqs("using", r, "[a b]")
	eq("ran", ran, 1)
	eqs("order", order, fmt.Sprint([]int{10 * id, 10*id + 1, 10*id + 2}))
}

func closingBack() []Op {
	mk := func(cb func(), log *[]int) (cs []io.Closer) {
		for i := 0; i < 3; i++ {
			var e error
			if i != 1 {
				e = fmt.Errorf("e%d", i)
			}
			cs = append(cs, closer{func() { cb(); *log = append(*log, i) }, e})
		}
		return
	}
	return []Op{
		op("manager Close", func(cb func()) string {
			var log []int
			m := closex.New()
			for _, c := range mk(cb, &log) {
				m.Append(c)
			}
			l, ok := closex.AsErrs(m.Close())
			return fmt.Sprint(l, ok, log)
		}),
		op("using", func(cb func()) string {
			var log []int
			errs := usingx.Close(mk(cb, &log)...)(func() { cb(); log = append(log, 9) })
			return fmt.Sprint(errs, log)
		}),
	}
}

func sharing(id int, pt func()) {
	var got []string
	d := decouplex.NewDecoupler(2, func(b []byte) (int, error) { pt(); got = append(got, "drop "+string(b)); return 0, io.ErrShortWrite })
	for i := 0; i < 3; i++ {
		d.Write([]byte(fmt.Sprintf("w%d%d", id, i)))
		pt()
	}
	for d.Next(func(b []byte) { pt(); got = append(got, string(b)) }) {
	}
	eqs("decoupler", got, fmt.Sprintf("[drop w%d2 w%d0 w%d1]", id, id, id))
	var p syncpoolx.Pool[[2]int]
	p.Init(func() *[2]int { return &[2]int{id, 0} })
	x := p.Get()
	pt()
	eq("pool", x[0], id)
	x[1]++
	p.Put(x)
	pt()
	y := p.Get()
	eq("pool", y[0], id)
	var v [2]int
	for i := range v {
		lockx.Lock(&v[i], func(q *int) { pt(); *q = id + i })
	}
	pt()
	eqs("locked", v, fmt.Sprint([2]int{id, id + 1}))
}

func sharingBack() []Op {
	return []Op{
		op("Lock", func(cb func()) string {
			x := 3
			lockx.Lock(&x, func(p *int) { cb(); *p++ })
			return fmt.Sprint(x)
		}),
		op("Next", func(cb func()) string {
			d := decouplex.NewDecoupler(3, nil)
			var got []string
			for i := 0; i < 3; i++ {
				d.Write([]byte(fmt.Sprint("w", i)))
			}
			for d.Next(func(b []byte) { cb(); got = append(got, string(b)) }) {
			}
			return fmt.Sprint(got)
		}),
		op("drop", func(cb func()) string {
			var got []string
			d := decouplex.NewDecoupler(1, func(b []byte) (int, error) { cb(); got = append(got, string(b)); return 7, io.EOF })
			d.Write([]byte("a"))
			n, err := d.Write([]byte("b"))
			d.Next(func(b []byte) { cb(); got = append(got, string(b)) })
			return fmt.Sprint(got, n, err)
		}),
		op("Init", func(cb func()) string {
			var p syncpoolx.Pool[int]
			p.Init(func() *int { cb(); x := 5; return &x })
			return fmt.Sprint(*p.Get(), *p.Get())
		}),
	}
}

func sleeping(id int, pt func()) {
	s := sleepx.New()
	t := timex.Now()
	eq("SleepFor", s.SleepFor(time.Duration(1+id)), true)
	if d := timex.Now().Sub(t); d < time.Duration(1+id)*time.Second {
		vsched.Fail("SleepFor(%d) returns after %v", 1+id, d)
	}
	eq("Wakeup", s.Wakeup(), false)
}

func aes(id int, pt func()) {
	data, key := bytes.Repeat([]byte{byte(3 + id)}, 32), []byte{byte(id), 1}
	for i, f := range []struct {
		enc, dec func(a, b []byte) ([]byte, error)
	}{{aesx.EncryptCBC, aesx.DecryptCBC}, {aesx.EncryptCTR, aesx.DecryptCTR}, {aesx.EncryptGCM, aesx.DecryptGCM}} {
		ct, err := f.enc(data, key)
		pt()
		out, err2 := f.dec(ct, key)
		pt()
		if err != nil || err2 != nil || !bytes.Equal(out, data) {
			vsched.Fail("AES mode %d: (%x, %v, %v)", i, out, err, err2)
		}
	}
}

func aesRead() []Op {
	data, key := bytes.Repeat([]byte{7}, 32), []byte("key")
	cbc, _ := aesx.EncryptCBC(data, key)
	ctr, _ := aesx.EncryptCTR(data, key)
	gcm, _ := aesx.EncryptGCM(data, key)
	trip := func(enc func(a, b []byte) ([]byte, error)) func() string {
		return func() string { ct, err := enc(data, key); return fmt.Sprint(len(ct), err) }
	}
	return []Op{
		rd("DecryptCBC", func() string { return two(aesx.DecryptCBC(cbc, key)) }),
		rd("DecryptCTR", func() string { return two(aesx.DecryptCTR(ctr, key)) }),
		rd("DecryptGCM", func() string { return two(aesx.DecryptGCM(gcm, key)) }),
		rd("EncryptCBC", trip(aesx.EncryptCBC)),
		rd("EncryptCTR", trip(aesx.EncryptCTR)),
		rd("EncryptGCM", trip(aesx.EncryptGCM)),
	}
}

func passwords(id int, pt func()) {
	pw := []byte(fmt.Sprint("password", id))
	h, err := passhashx.Hash(pw, passhashx.SecurityLevelMobileLow)
	pt()
	if err != nil || passhashx.Verify(pw, h) != nil {
		vsched.Fail("the hashed password fails (%v)", err)
	}
	pt()
	e, err := bcryptx.Encrypt(pw)
	pt()
	if err != nil {
		vsched.Fail("Encrypt: %v", err)
	}
	if ok, err := bcryptx.Decrypt(e, pw); !ok {
		vsched.Fail("the hashed password fails: %v", err)
	}
}

func passwordsRead() []Op {
	pw := []byte("password")
	h, _ := passhashx.Hash(pw, passhashx.SecurityLevelMobileLow)
	t, _ := passhashx.HashBase64(pw, passhashx.SecurityLevelMobileLow)
	e, _ := bcryptx.Encrypt(pw)
	return []Op{
		rd("Verify", func() string { return fmt.Sprint(passhashx.Verify(pw, h)) }),
		rd("Verify another", func() string { return fmt.Sprint(passhashx.Verify(pw[1:], h)) }),
		rd("VerifyBase64", func() string { return fmt.Sprint(passhashx.VerifyBase64(pw, t)) }),
		rd("bcrypt Decrypt", func() string { return two(bcryptx.Decrypt(e, pw)) }),
		rd("bcrypt Decrypt another", func() string { return two(bcryptx.Decrypt(e, pw[1:])) }),
	}
}

func syncedRead() []Op {
	m := syncmapx.New[int, int]()
	m.Set(1, 2)
	m.Set(3, 4)
	sorted := func(s []int) string { sort.Ints(s); return fmt.Sprint(s) }
	return []Op{
		rd("Get", func() string { return fmt.Sprint(m.Get(3), m.Get(9)) }),
		rd("Has", func() string { return fmt.Sprint(m.Has(1), m.Has(2)) }),
		rd("Size", func() string { return fmt.Sprint(m.Size()) }),
		rd("Keys", func() string { return sorted(m.Keys()) }),
		rd("Values", func() string { return sorted(m.Values()) }),
	}
}

func lazyRead() []Op {
	l := lazyx.New(func() string { return "lazy" })
	l.Get()
	o, n := optionx.Some(4), optionx.None[int]()
	r := resultx.Ok[int, string](6)
	use := usingx.Close(closer{func() {}, errBranch}, closer{func() {}, nil})
	match := func(o optionx.Option[int]) string {
		return two(o.Match(func(v int) (int, error) { return v, nil }, func() (int, error) { return 0, errBranch }))
	}
	return []Op{
		rd("lazy Get", l.Get),
		rd("option", func() string { return match(o) + match(n) }),
		rd("result", func() string {
			return two(r.Match(func(v int) (int, string) { return v, "ok" }, func(e string) (int, string) { return 0, e }))
		}),
		rd("using", func() string { n := 0; errs := use(func() { n++ }); return fmt.Sprint(errs, n) }),
	}
}

func mkq() fifo { return lqueuex.New[int]() }
func mkr() fifo { return squeuex.New[int](3) }
func mks() lifo { return lstackx.New[int]() }
func mkt() lifo { return sstackx.New[int]() }
func mkl() list { return llistx.New[int]() }
func mkm() list { return new(slistx.List[int]) }

// All lists the components.
var All = []Script{
	{"linked queue", queue(mkq), queueRead(mkq), nil},
	{"ring queue", queue(mkr), queueRead(mkr), nil},
	{"linked stack", stack(mks), stackRead(mks), nil},
	{"slice stack", stack(mkt), stackRead(mkt), nil},
	{"linked list", lists(mkl), listRead(mkl), listBack(mkl)},
	{"slice list", lists(mkm), listRead(mkm), listBack(mkm)},
	{"deque", deque, dequeRead, nil},
	{"slice", slice, sliceRead, sliceBack},
	{"skip list", skl, sklRead, sklBack},
	{"ordered map", ordered, ordRead, ordBack},
	{"bit set", bits, bitsRead, nil},
	{"synchronised map", synced, syncedRead, nil},
	{"sorting and searching", sorting, sortRead, sortBack},
	{"time", times, timesRead, nil},
	{"functional", functional, lazyRead, functionalBack},
	{"conversions", conversions, conversionsRead, nil},
	{"closing", closing, nil, closingBack},
	{"decoupler, pool, lock", sharing, nil, sharingBack},
	{"sleeper", sleeping, nil, nil},
	{"AES", aes, aesRead, nil},
	{"passwords", passwords, passwordsRead, nil},
}

// NoReset saves repeating the registrations of conversions where none is used.
func NoReset(used ...Script) []string {
	for _, s := range used {
		if s.Name == "conversions" {
			return nil
		}
	}
	return []string{"/convx"}
}

// Slug is a name fit for a unit.
func Slug(s string) string {
	return strings.NewReplacer(" ", "-", ",", "").Replace(s)
}

// SharedOp is a calling operation and the reading operations on its value.
type SharedOp struct {
	Outer Op
	Reads []Op
}

// Shared builds a value and pairs each operation on it that calls back with
// the operations that read the same value.
var Shared []func() SharedOp

func init() {
	// Values whose readers and callbacks are built here over one instance.
	sharedList := func(mk func() list) {
		for at := 0; at < 2; at++ {
			Shared = append(Shared, func() SharedOp {
				l := mk()
				one := func() list { return l }
				back := listBack(one)() // fills it
				return SharedOp{back[at], listReadOf(l)}
			})
		}
	}
	sharedList(mkl)
	sharedList(mkm)
	Shared = append(Shared, func() SharedOp {
		var cb func()
		in := false
		var cs []io.Closer
		for i := 0; i < 3; i++ {
			var e error
			if i != 1 {
				e = fmt.Errorf("e%d", i)
			}
			cs = append(cs, closer{func() {
				if cb != nil && !in {
					in = true
					cb()
					in = false
				}
			}, e})
		}
		use := usingx.Close(cs...)
		return SharedOp{op("using", func(f func()) string {
			cb = f
			var r []error
			r = use(func() {})
			cb = nil
			return sp(r)
		}), []Op{rd("using", func() string { n := 0; r := use(func() { n++ }); return sp(r, n) })}}
	})
	Shared = append(Shared, func() SharedOp {
		m := newOrd()
		return SharedOp{op("Range", func(cb func()) string {
			var r []int
			m.Range(func(k, v int) bool { cb(); r = append(r, k, v); return false })
			return sp(r)
		}), ordReadOf(m)}
	})
	for i := range sliceBackOf(newSlice()) {
		Shared = append(Shared, func() SharedOp {
			s := newSlice()
			return SharedOp{sliceBackOf(s)[i], sliceReadOf(s)}
		})
	}
	Shared = append(Shared, func() SharedOp {
		m := sklmapx.New[int, shower]()
		var cb func()
		in := false
		call := func() {
			if cb != nil && !in {
				in = true
				cb()
				in = false
			}
		}
		for i := 0; i < 3; i++ {
			m.Set(i, shower{i, call})
		}
		return SharedOp{op("String", func(f func()) string { cb = f; s := m.String(); cb = nil; return s }), []Op{
			rd("Keys", func() string { return sp(m.Keys()) }),
			rd("Values", func() string { return sp(len(m.Values())) }),
			rd("Get", func() string { v, ok := m.Get(2); return sp(v.v, ok) }),
			rd("ToMap", func() string { return sp(len(m.ToMap())) }),
			rd("Seek", func() string { it := m.Iterator(); k, v, ok := it.Seek(1); return sp(k, v.v, ok) }),
			rd("String", func() string { return m.String() }),
		}}
	})
}
