// Package ds drives queues, stacks and lists through operation sequences next
// to their models.
package ds

import (
	"fmt"

	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type Tok = drv.Tok

// Queue and friends are the operations a model covers; Size is -1 where the
// structure does not report one.
type Queue[T any] struct {
	Put   func(T) bool
	Take  func() (T, bool)
	Peek  func() (T, bool)
	Empty func() bool // nil: not offered
	Len   func() int  // nil: not offered
	Root  any
	Lifo  bool
	More  func(m []T) // further observations given the model (oldest first)
	Limit int         // capacity; 0: unbounded
}

func same[T comparable](what string, got T, ok bool, want T, wantOK bool, m []T) {
	if ok != wantOK || wantOK && got != want {
		vsched.Fail("%s returns (%v, %v), want (%v, %v) with contents %v", what, got, ok, want, wantOK, m)
	}
}

func (q *Queue[T]) next(m []T) int {
	if q.Lifo {
		return len(m) - 1
	}
	return 0
}

// Op runs operation op (0 Put, 1 Take, 2 Peek, 3 Empty/Len and the rest) and
// returns the new model contents.
func Op[T comparable](q *Queue[T], m []T, op int, fresh func() T) []T {
	var zero T
	switch op {
	case 0:
		v := fresh()
		ok := false
		drv.NoPanic("adding", func() { ok = q.Put(v) })
		want := q.Limit == 0 || len(m) < q.Limit
		if ok != want {
			vsched.Fail("adding to %v returns %v, want %v", m, ok, want)
		}
		if want {
			m = append(m, v)
		}
	case 1:
		var v T
		var ok bool
		drv.NoPanic("taking", func() { v, ok = q.Take() })
		if len(m) == 0 {
			same("taking", v, ok, zero, false, m)
			return m
		}
		i := q.next(m)
		same("taking", v, ok, m[i], true, m)
		if i == 0 {
			m = m[1:]
		} else {
			m = m[:i]
		}
	case 2:
		var v T
		var ok bool
		drv.NoPanic("peeking", func() { v, ok = q.Peek() })
		if len(m) == 0 {
			same("peeking", v, ok, zero, false, m)
		} else {
			same("peeking", v, ok, m[q.next(m)], true, m)
		}
	case 3:
		drv.NoPanic("observing", func() {
			if q.Empty != nil {
				if e := q.Empty(); e != (len(m) == 0) {
					vsched.Fail("IsEmpty is %v with contents %v", e, m)
				}
			}
			if q.Len != nil {
				if n := q.Len(); n != len(m) {
					vsched.Fail("Len is %d with contents %v", n, m)
				}
			}
			if q.More != nil {
				q.More(m)
			}
		})
	}
	return m
}

func toks() func() *Tok {
	n := 0
	return func() *Tok { n++; return drv.NewTok(n) }
}

// QueueBFS visits every state reachable with at most maxLen elements (in at
// most depth operations, if depth is not 0).
func QueueBFS(mk func() *Queue[*Tok], maxLen, depth int) func() {
	return func() {
		q := mk()
		fresh := toks()
		var m []*Tok
		for d := 0; (depth == 0 || d < depth) && vsched.Step(func() string { return drv.CanonTok(m, q.Root) }); d++ {
			n := 4
			op := vsched.Choose(n)
			if op == 0 && len(m) == maxLen {
				op = 3
			}
			m = Op(q, m, op, fresh)
		}
	}
}

func drain[T comparable](q *Queue[T], m []T, fresh func() T) {
	for len(m) > 0 {
		m = Op(q, m, 2, fresh)
		m = Op(q, m, 1, fresh)
		m = Op(q, m, 3, fresh)
	}
	for i := 0; i < 2; i++ {
		m = Op(q, m, 1, fresh)
		m = Op(q, m, 2, fresh)
		m = Op(q, m, 3, fresh)
	}
}

// QueueSeq runs every sequence of additions and removals on objects q1..qk,
// observing after each, and drains at the end.
func QueueSeq[T comparable](mk func() *Queue[T], objects, depth int, observe bool, mkFresh func() func() T) func() {
	return func() {
		fresh := mkFresh()
		qs := make([]*Queue[T], objects)
		ms := make([][]T, objects)
		for i := range qs {
			qs[i] = mk()
		}
		for d := 0; d < depth; d++ {
			c := vsched.Choose(2 * objects)
			i := c / 2
			ms[i] = Op(qs[i], ms[i], c%2, fresh)
			if observe {
				ms[i] = Op(qs[i], ms[i], 2, fresh)
				ms[i] = Op(qs[i], ms[i], 3, fresh)
			}
		}
		for i := range qs {
			drain(qs[i], ms[i], fresh)
		}
	}
}

// Waves fills and empties in long runs.
func Waves[T comparable](mk func() *Queue[T], runs []int, waves int, mkFresh func() func() T) func() {
	return func() {
		fresh := mkFresh()
		q := mk()
		var m []T
		for w := 0; w < waves; w++ {
			n := runs[vsched.Choose(len(runs))]
			for i := 0; i < n; i++ {
				m = Op(q, m, w%2, fresh)
				if i == n/2 {
					m = Op(q, m, 2, fresh)
				}
			}
			m = Op(q, m, 2, fresh)
			m = Op(q, m, 3, fresh)
		}
		drain(q, m, fresh)
	}
}

// Value generators: tokens, and values including the zero value.
func Toks() func() *Tok { return toks() }
func Ints() func() int {
	n := -1
	return func() int { n++; return n % 3 }
}
func Anys() func() any {
	n := -1
	return func() any { n++; return []any{nil, 0, "", "x", 1.5, (*int)(nil)}[n%6] }
}
func Strs() func() string {
	n := -1
	return func() string { n++; return []string{"", "a", "bb"}[n%3] }
}

type Big struct {
	A [9]int
	S string
}

func Bigs() func() Big {
	n := -1
	return func() Big { n++; return Big{[9]int{n, 0, n}, fmt.Sprint(n)} }
}
func Bools() func() bool {
	n := 0
	return func() bool { n++; return n%3 == 0 }
}

// ---- lists

type List[T any] struct {
	Append  func(T)
	Insert  func(int, T)
	Remove  func(int) (T, bool)
	At      func(int) (T, bool)
	Iterate func(func(T) bool)
	Len     func() int
	Cap     func() int // nil: not offered
	Root    any
	BadIns  bool // out-of-range Insert is specified (to do nothing)
}

func set[T any](m []T, i int, v T) []T {
	r := append([]T(nil), m[:i]...)
	r = append(r, v)
	return append(r, m[i:]...)
}

// observe compares every observation with the model.
func (l *List[T]) observe(m []T, eq func(a, b T) bool) {
	drv.NoPanic("Len", func() {
		if n := l.Len(); n != len(m) {
			vsched.Fail("Len is %d with contents %v", n, m)
		}
		if l.Cap != nil && l.Cap() < len(m) {
			vsched.Fail("Cap %d is below Len %d", l.Cap(), len(m))
		}
	})
}

func Positions(n int) []int {
	r := []int{-1 << 63, -2, -1}
	for i := 0; i <= n+2; i++ {
		r = append(r, i)
	}
	return append(r, 1<<31, 1<<63-1)
}

// Few is Positions without the extremes.
func Few(n int) []int {
	r := []int{-1}
	for i := 0; i <= n+1; i++ {
		r = append(r, i)
	}
	return r
}

// ListOp: 0 Append, 1 Insert, 2 Remove, 3 At, 4 Iterate, 5 Len.
func ListOp[T comparable](l *List[T], m []T, op, pos int, fresh func() T) []T {
	var zero T
	switch op {
	case 0:
		v := fresh()
		drv.NoPanic("Append", func() { l.Append(v) })
		m = set(m, len(m), v)
	case 1:
		v := fresh()
		drv.NoPanic(fmt.Sprintf("Insert(%d) with %d elements", pos, len(m)), func() { l.Insert(pos, v) })
		if pos >= 0 && pos <= len(m) {
			m = set(m, pos, v)
		}
	case 2:
		var v T
		var ok bool
		drv.NoPanic(fmt.Sprintf("Remove(%d)", pos), func() { v, ok = l.Remove(pos) })
		if pos < 0 || pos >= len(m) {
			same(fmt.Sprintf("Remove(%d)", pos), v, ok, zero, false, m)
			return m
		}
		same(fmt.Sprintf("Remove(%d)", pos), v, ok, m[pos], true, m)
		m = append(append([]T(nil), m[:pos]...), m[pos+1:]...)
	case 3:
		var v T
		var ok bool
		drv.NoPanic(fmt.Sprintf("At(%d)", pos), func() { v, ok = l.At(pos) })
		if pos < 0 || pos >= len(m) {
			same(fmt.Sprintf("At(%d)", pos), v, ok, zero, false, m)
		} else {
			same(fmt.Sprintf("At(%d)", pos), v, ok, m[pos], true, m)
		}
	case 4:
		// pos visits, then stop (pos > len: never)
		var got []T
		drv.NoPanic("Iterate", func() {
			l.Iterate(func(v T) bool {
				if pos >= 0 && len(got) >= pos && pos > 0 {
					vsched.Fail("Iterate goes on after being stopped at %d", pos)
				}
				got = append(got, v)
				if len(got) > len(m) {
					vsched.Fail("Iterate visits more than the %d elements: %v, contents %v", len(m), got, m)
				}
				return len(got) != pos
			})
		})
		want := m
		if pos > 0 && pos < len(m) {
			want = m[:pos]
		}
		drv.EqSlice("Iterate", got, want)
	case 5:
		l.observe(m, nil)
	}
	return m
}

func listAll[T comparable](l *List[T], m []T, pos []int) {
	ListOp(l, m, 5, 0, nil)
	ListOp(l, m, 4, 0, nil)
	for _, p := range pos {
		ListOp(l, m, 3, p, nil)
	}
	for p := 1; p < len(m); p++ {
		ListOp(l, m, 4, p, nil)
	}
}

// ListBFS visits every state reachable with at most maxLen elements (in at
// most depth operations, if depth is not 0).
func ListBFS(mk func() *List[*Tok], maxLen, depth int) func() {
	return func() {
		l := mk()
		fresh := toks()
		var m []*Tok
		for d := 0; (depth == 0 || d < depth) && vsched.Step(func() string { return drv.CanonTok(m, l.Root) }); d++ {
			op := vsched.Choose(6)
			pos := 0
			if op >= 1 && op <= 4 {
				ps := Positions(len(m))
				pos = ps[vsched.Choose(len(ps))]
			}
			if op <= 1 && len(m) == maxLen && (op == 0 || pos >= 0 && pos <= len(m)) {
				op = 5
			}
			if op == 1 && !l.BadIns && (pos < 0 || pos > len(m)) {
				op = 5
			}
			m = ListOp(l, m, op, pos, fresh)
		}
	}
}

// ListSeq runs every sequence of edits, comparing everything after each (or
// only at the end).
func ListSeq[T comparable](mk func() *List[T], objects, depth int, observe bool, mkFresh func() func() T) func() {
	return func() {
		fresh := mkFresh()
		ls := make([]*List[T], objects)
		ms := make([][]T, objects)
		for i := range ls {
			ls[i] = mk()
		}
		for d := 0; d < depth; d++ {
			i := 0
			if objects > 1 {
				i = vsched.Choose(objects)
			}
			op := vsched.Choose(3)
			pos := 0
			if op > 0 {
				ps := Few(len(ms[i]))
				if op == 1 && !ls[i].BadIns {
					ps = ps[1 : len(ps)-1]
				}
				pos = ps[vsched.Choose(len(ps))]
			}
			ms[i] = ListOp(ls[i], ms[i], op, pos, fresh)
			if observe {
				listAll(ls[i], ms[i], Few(len(ms[i])))
			}
		}
		for i := range ls {
			listAll(ls[i], ms[i], Positions(len(ms[i])))
		}
		for i := range ls {
			for len(ms[i]) > 0 {
				ms[i] = ListOp(ls[i], ms[i], 2, len(ms[i])/2, fresh)
			}
			listAll(ls[i], ms[i], Positions(0))
			ms[i] = ListOp(ls[i], ms[i], 0, 0, fresh)
			ms[i] = ListOp(ls[i], ms[i], 0, 0, fresh)
			listAll(ls[i], ms[i], Positions(2))
		}
	}
}

// ListLong builds a long list, edits at chosen places and compares.
func ListLong[T comparable](mk func() *List[T], sizes []int, edits int, mkFresh func() func() T) func() {
	return func() {
		fresh := mkFresh()
		l := mk()
		var m []T
		n := sizes[vsched.Choose(len(sizes))]
		how := vsched.Choose(3)
		for i := 0; i < n; i++ {
			switch how {
			case 0:
				m = ListOp(l, m, 0, 0, fresh)
			case 1:
				m = ListOp(l, m, 1, 0, fresh)
			case 2:
				m = ListOp(l, m, 1, len(m)/2, fresh)
			}
		}
		for e := 0; e < edits; e++ {
			op := 1 + vsched.Choose(2)
			ps := []int{0, 1, len(m) / 2, len(m) - 2, len(m) - 1, len(m)}
			pos := ps[vsched.Choose(len(ps))]
			if pos < 0 || pos > len(m) {
				pos = 0
			}
			m = ListOp(l, m, op, pos, fresh)
		}
		m = ListOp(l, m, 0, 0, fresh)
		for p := range m {
			ListOp(l, m, 3, p, nil)
		}
		ListOp(l, m, 4, 0, nil)
		ListOp(l, m, 5, 0, nil)
	}
}

// ---- values of every shape

// Shaped is a constructor and the number of different values it takes.
type Shaped[Q any] struct {
	Name string
	N    int
	Mk   func() Q
}

// BoxQueue runs a queue of any type on numbers.
func BoxQueue[T any](b shapes.Box[T], mk func() *Queue[T]) Shaped[*Queue[int]] {
	num := func(f func() (T, bool)) func() (int, bool) {
		return func() (int, bool) {
			v, ok := f()
			if !ok {
				return 0, false
			}
			return b.ID(v), true
		}
	}
	return Shaped[*Queue[int]]{b.Name, b.N, func() *Queue[int] {
		q := mk()
		return &Queue[int]{Put: func(i int) bool { return q.Put(b.Make(i)) }, Take: num(q.Take), Peek: num(q.Peek), Empty: q.Empty, Len: q.Len, Root: q.Root, Lifo: q.Lifo, Limit: q.Limit}
	}}
}

// BoxList runs a list of any type on numbers.
func BoxList[T any](b shapes.Box[T], mk func() *List[T]) Shaped[*List[int]] {
	num := func(f func(int) (T, bool)) func(int) (int, bool) {
		return func(i int) (int, bool) {
			v, ok := f(i)
			if !ok {
				return 0, false
			}
			return b.ID(v), true
		}
	}
	return Shaped[*List[int]]{b.Name, b.N, func() *List[int] {
		l := mk()
		return &List[int]{
			Append:  func(i int) { l.Append(b.Make(i)) },
			Insert:  func(p, i int) { l.Insert(p, b.Make(i)) },
			Remove:  num(l.Remove),
			At:      num(l.At),
			Iterate: func(f func(int) bool) { l.Iterate(func(v T) bool { return f(b.ID(v)) }) },
			Len:     l.Len, Cap: l.Cap, Root: l.Root, BadIns: l.BadIns,
		}
	}}
}

// Cycle makes 0, 1, .. n-1, 0, 1, ..
func Cycle(n int) func() func() int {
	return func() func() int {
		k := -1
		return func() int { k++; return k % n }
	}
}

// ShapedQueues runs every sequence of operations, and waves, on each.
func ShapedQueues(all []Shaped[*Queue[int]], depth int) func() {
	return func() {
		s := all[vsched.Choose(len(all))]
		if vsched.Choose(2) == 0 {
			QueueSeq(s.Mk, 1, depth, true, Cycle(s.N))()
		} else {
			Waves(s.Mk, []int{1, 3, 65, 130}, 3, Cycle(s.N))()
		}
	}
}

// ShapedLists runs every sequence of edits on each.
func ShapedLists(all []Shaped[*List[int]], depth int) func() {
	return func() {
		s := all[vsched.Choose(len(all))]
		if vsched.Choose(2) == 0 {
			ListSeq(s.Mk, 1, depth, true, Cycle(s.N))()
		} else {
			ListLong(s.Mk, []int{3, 65, 130}, 1, Cycle(s.N))()
		}
	}
}
