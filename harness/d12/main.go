// D12: the bit set is a set of bit positions.
package main

import (
	"fmt"
	"math/bits"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"golang.org/x/exp/constraints"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

func width[T constraints.Unsigned]() int { return bits.OnesCount64(uint64(^T(0))) }

// world is a bit set and its model: the members.
type world[T constraints.Unsigned] struct {
	s bitsetx.BitSet[T]
	m map[int]bool
}

func (w *world[T]) String() string {
	var r []int
	for i := 0; i < 64; i++ {
		if w.m[i] {
			r = append(r, i)
		}
	}
	return fmt.Sprint(r)
}

func (w *world[T]) observe(probe []int) {
	n := width[T]()
	drv.NoPanic("reading the set", func() {
		for _, i := range probe {
			if got := w.s.Test(i); got != w.m[i] {
				vsched.Fail("Test(%d) is %v, members %v", i, got, w)
			}
		}
		if got := w.s.Test(); got {
			vsched.Fail("Test() is true")
		}
		if got := w.s.IsEmpty(); got != (len(w.m) == 0) {
			vsched.Fail("IsEmpty is %v, members %v", got, w)
		}
		if got := w.s.IsFull(); got != (len(w.m) == n) {
			vsched.Fail("IsFull is %v, members %v", got, w)
		}
	})
}

const (
	opSet = iota
	opClear
	opToggle
	opTest
	opsList
)

func (w *world[T]) apply(op int, list []int) {
	n := width[T]()
	given := append([]int(nil), list...)
	switch op {
	case opSet:
		drv.NoPanic(fmt.Sprintf("Set%v", list), func() { w.s.Set(given...) })
		for _, i := range list {
			if i < n {
				w.m[i] = true
			}
		}
	case opClear:
		drv.NoPanic(fmt.Sprintf("Clear%v", list), func() { w.s.Clear(given...) })
		for _, i := range list {
			delete(w.m, i)
		}
	case opToggle:
		drv.NoPanic(fmt.Sprintf("Toggle%v", list), func() { w.s.Toggle(given...) })
		for _, i := range list {
			if w.m[i] {
				delete(w.m, i)
			} else if i < n {
				w.m[i] = true
			}
		}
	case opTest:
		want := false
		for _, i := range list {
			want = want || w.m[i]
		}
		var got bool
		drv.NoPanic(fmt.Sprintf("Test%v", list), func() { got = w.s.Test(given...) })
		if got != want {
			vsched.Fail("Test%v is %v, members %v", list, got, w)
		}
	}
	drv.EqSlice("the given positions", given, list)
}

func (w *world[T]) all(op int) {
	n := width[T]()
	switch op {
	case 0:
		drv.NoPanic("SetAll", w.s.SetAll)
		for i := 0; i < n; i++ {
			w.m[i] = true
		}
	case 1:
		drv.NoPanic("ClearAll", w.s.ClearAll)
		w.m = map[int]bool{}
	case 2:
		drv.NoPanic("ToggleAll", w.s.ToggleAll)
		for i := 0; i < n; i++ {
			if w.m[i] {
				delete(w.m, i)
			} else {
				w.m[i] = true
			}
		}
	}
}

// load puts the set in the state with the given members.
func load[T constraints.Unsigned](members uint64) *world[T] {
	w := &world[T]{m: map[int]bool{}}
	for i := 0; i < width[T](); i++ {
		if members>>uint(i)&1 == 1 {
			w.s.Set(i)
			w.m[i] = true
		}
	}
	return w
}

func positions[T constraints.Unsigned]() []int {
	var r []int
	for i := 0; i < width[T](); i++ {
		r = append(r, i)
	}
	return append(r, beyond[T]()...)
}

func beyond[T constraints.Unsigned]() []int {
	n := width[T]()
	r := []int{n, n + 1}
	for _, i := range []int{31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 1000, 1 << 16, 1 << 32, 1<<32 + 1, 1<<63 - 1} {
		if i > n+1 {
			r = append(r, i)
		}
	}
	return r
}

// lists: all position lists over probe with up to length entries.
func pick(probe []int, length int) []int {
	var l []int
	for i, n := 0, vsched.Choose(length+1); i < n; i++ {
		l = append(l, probe[vsched.Choose(len(probe))])
	}
	return l
}

// exhaustive: every state, every operation, every list of positions.
func exhaustive[T constraints.Unsigned](states []uint64, probe []int, length int) func() {
	all := positions[T]()
	return func() {
		w := load[T](states[vsched.Choose(len(states))])
		w.observe(all)
		if op := vsched.Choose(opsList + 3); op < opsList {
			w.apply(op, pick(probe, length))
		} else {
			w.all(op - opsList)
		}
		w.observe(all)
	}
}

// reach: breadth first over the reachable states from the zero value.
func reach[T constraints.Unsigned](probe []int) func() {
	all := positions[T]()
	return func() {
		w := &world[T]{m: map[int]bool{}}
		w.observe(all)
		for vsched.Step(func() string { return w.String() + drv.Canon(&w.s) }) {
			op := vsched.Choose(opsList*len(probe) + 3)
			if op < opsList*len(probe) {
				w.apply(op%opsList, []int{probe[op/opsList]})
			} else {
				w.all(op - opsList*len(probe))
			}
			w.observe(all)
		}
	}
}

// sequences: histories on two sets, which do not influence each other.
func sequences[T constraints.Unsigned](probe []int, depth int) func() {
	all := positions[T]()
	return func() {
		ws := [2]*world[T]{{m: map[int]bool{}}, {m: map[int]bool{}}}
		for d := 0; d < depth; d++ {
			w := ws[vsched.Choose(2)]
			op := vsched.Choose(3*len(probe) + 3)
			if op < 3*len(probe) {
				w.apply(op%3, []int{probe[op/3], probe[(op/3+d)%len(probe)]}[:1+d%2])
			} else {
				w.all(op - 3*len(probe))
			}
		}
		ws[0].observe(all)
		ws[1].observe(all)
	}
}

// lists: long lists of positions.
func lists[T constraints.Unsigned](lengths []int) func() {
	all := positions[T]()
	return func() {
		w := load[T]([]uint64{0, ^uint64(0), 0x5555555555555555}[vsched.Choose(3)])
		n := lengths[vsched.Choose(len(lengths))]
		shape := vsched.Choose(8)
		l := make([]int, n)
		for i := range l {
			switch shape {
			case 0: // one position
				l[i] = 3
			case 1:
				l[i] = i % width[T]()
			case 2:
				l[i] = width[T]() - 1 - i%width[T]()
			case 3: // pairs
				l[i] = i / 2 % width[T]()
			case 4: // also positions beyond
				l[i] = all[i%len(all)]
			case 5: // beyond, then one within
				l[i] = width[T]() + i
				if i == n-1 {
					l[i] = 2
				}
			case 6: // within, then beyond
				l[i] = width[T]() + i
				if i == 0 {
					l[i] = 2
				}
			case 7:
				l[i] = i * i * 7 % width[T]()
			}
		}
		op := vsched.Choose(opsList)
		w.apply(op, l)
		w.observe(all)
		w.apply(op, l)
		w.observe(all)
	}
}

func upto(n int) (r []uint64) {
	for i := 0; i < n; i++ {
		r = append(r, uint64(i))
	}
	return
}

// patterns: states of a wide set.
func patterns(n int) (r []uint64) {
	seen := map[uint64]bool{}
	mask := ^uint64(0) >> uint(64-n)
	for _, p := range []uint64{0, ^uint64(0), 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xff00ff00ff00ff00, 0xffffffff00000000, 0x00000000ffffffff, 0x0123456789abcdef} {
		r = append(r, p&mask)
	}
	for i := 0; i < n; i++ {
		r = append(r, 1<<uint(i), mask&^(1<<uint(i)), 1<<uint(i)-1, mask&^(1<<uint(i)-1))
	}
	out := r[:0]
	for _, p := range r {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

type flags uint8
type wide uint64

func main() {
	drv.Main(drv.Check{
		ID:          "D12",
		Level:       "model_checking",
		Rule:        "8-bit sets: every one of the 256 states, every operation with every list of positions up to a length, including repeated positions and positions at and beyond the width up to the largest int, and breadth first over all reachable states; 16-, 32- and 64-bit, uint, uintptr and named sets: every one-bit, all-but-one, prefix and suffix state and byte patterns times every operation times every position list; long lists of eight shapes",
		Bounds:      "8 bits: lists of up to 3 (4) positions out of 14 and up to 1 (2) out of all; wider: lists of up to 1 (2) of all positions; lists of up to 70000 in eight shapes; 16 bits: all 65536 states when thorough",
		Assumptions: []string{"positions are not negative"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			long := []int{4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 70000}
			us := []drv.Unit{
				{Name: "uint8", Shards: 8, Split: 2, Body: exhaustive[uint8](upto(256), []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 63, 64, 65}, x(3, 4))},
				{Name: "uint8-positions", Body: exhaustive[uint8](upto(256), positions[uint8](), x(1, 2))},
				{Name: "uint8-reachable", BFS: true, Body: reach[uint8](positions[uint8]())},
				{Name: "named8-reachable", BFS: true, Body: reach[flags](positions[flags]())},
				{Name: "uint16", Shards: 8, Split: 2, Body: exhaustive[uint16](patterns(16), positions[uint16](), 2)},
				{Name: "uint32", Shards: 8, Split: 2, Body: exhaustive[uint32](patterns(32), positions[uint32](), x(1, 2))},
				{Name: "uint64", Shards: 8, Split: 2, Body: exhaustive[uint64](patterns(64), positions[uint64](), x(1, 2))},
				{Name: "uint", Shards: 8, Split: 2, Body: exhaustive[uint](patterns(width[uint]()), positions[uint](), x(1, 2))},
				{Name: "uintptr", Shards: 8, Split: 2, Body: exhaustive[uintptr](patterns(width[uintptr]()), positions[uintptr](), x(1, 2))},
				{Name: "named64", Shards: 8, Split: 2, Body: exhaustive[wide](patterns(64), positions[wide](), x(1, 2))},
				{Name: "lists8", Body: lists[uint8](long)},
				{Name: "lists16", Body: lists[uint16](long)},
				{Name: "lists32", Body: lists[uint32](long)},
				{Name: "lists64", Body: lists[uint64](long)},
				{Name: "sequences8", Shards: 8, Split: 2, Body: sequences[uint8]([]int{0, 3, 7, 8}, x(4, 5))},
				{Name: "sequences64", Shards: 8, Split: 2, Body: sequences[uint64]([]int{0, 31, 32, 63, 64}, x(3, 4))},
			}
			if th {
				us = append(us, drv.Unit{Name: "uint16-all", Shards: 8, Split: 1, Body: exhaustive[uint16](upto(1<<16), positions[uint16](), 1)})
			}
			return us
		},
	})
}
