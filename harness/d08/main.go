// D08: slice operations do not corrupt values they do not own.
package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"verif.local/mc/harness/slx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vrand"
	"verif.local/mc/mc/vsched"
)

func intact(o *slx.Obj, what string) {
	s := []int(*o.S)
	same := len(s) == len(o.M)
	for i := 0; same && i < len(s); i++ {
		same = s[i] == o.M[i]
	}
	if !same {
		vsched.Fail("%s changed an independent slice to %v, it was %v", what, s, o.M)
	}
}

// copies: a slice, its copy and a copy of either, each edited in turn.
func copies(maxN, depth int, short bool) func() {
	return func() {
		fresh := slx.Fresh()
		objs := []*slx.Obj{slx.Make(vsched.Choose(maxN+1), []int{0, 1, 4}[vsched.Choose(3)], fresh)}
		if vsched.Choose(2) == 1 { // shrink first: the original has spare capacity behind it
			if len(objs[0].M) > 0 {
				slx.Do(objs[0], slx.One(0)[3], fresh)
			}
		}
		objs = append(objs, &slx.Obj{S: objs[0].S.Copy(), M: append([]int{}, objs[0].M...)})
		intact(objs[1], "Copy")
		for d := 0; d < depth; d++ {
			if d == 1 && !short {
				k := vsched.Choose(3) // copy again?
				if k > 0 {
					o := objs[k-1]
					objs = append(objs, &slx.Obj{S: o.S.Copy(), M: append([]int{}, o.M...)})
				}
			}
			o := objs[vsched.Choose(len(objs))]
			ops := slx.Menu(len(o.M), true)
			if short {
				ops = slx.Short(len(o.M))
			}
			op := ops[vsched.Choose(len(ops))]
			slx.Do(o, op, fresh)
			for _, p := range objs {
				intact(p, op.Name)
			}
		}
		// write every slot reachable from one, spare capacity included
		o := objs[vsched.Choose(len(objs))]
		full := (*o.S)[:cap(*o.S)]
		for i := range full {
			full[i] = -7
		}
		for _, p := range objs {
			if p != o {
				intact(p, "writing to another slice")
			}
		}
	}
}

type insert struct {
	name string
	run  func(s *slx.S, v []int) *slx.S
	i, j int
}

func inserts(n int) (r []insert) {
	for _, i := range []int{-1, 0, 1, n - 1, n, n + 2} {
		i := i
		r = append(r, insert{fmt.Sprintf("Expand(%d)", i), func(s *slx.S, v []int) *slx.S { return s.Expand(i, v...) }, i, i})
		r = append(r, insert{fmt.Sprintf("Insert(%d)", i), func(s *slx.S, v []int) *slx.S {
			for k := len(v) - 1; k >= 0; k-- {
				s.Insert(slx.Clamp(i, 0, n), v[k])
			}
			return s
		}, i, i})
		for _, j := range []int{-2, 0, 1, 2, n - 1, n, n + 1} {
			j := j
			r = append(r, insert{fmt.Sprintf("Splice(%d, %d)", i, j), func(s *slx.S, v []int) *slx.S { return s.Splice(i, j, v...) }, i, j})
		}
	}
	return
}

func expect(m []int, i, j int, v []int) []int {
	n := len(m)
	i, j = slx.Clamp(i, 0, n), slx.Clamp(j, 0, n)
	if i > j {
		i, j = j, i
	}
	r := append([]int{}, m[:i]...)
	r = append(r, v...)
	return append(r, m[j:]...)
}

// arguments: the inserted values live in the caller's array.
func arguments(maxN int, after int) func() {
	return func() {
		fresh := slx.Fresh()
		o := slx.Make(vsched.Choose(maxN+1), []int{0, 1, 2, 8}[vsched.Choose(4)], fresh)
		n := len(o.M)
		size := vsched.Choose(7)
		lo := vsched.Choose(size + 1)
		hi := lo + vsched.Choose(size-lo+1)
		back := make([]int, size)
		for i := range back {
			back[i] = 1000 + i
		}
		keep := append([]int{}, back...)
		v := back[lo:hi]
		if vsched.Choose(2) == 1 {
			v = back[lo:hi:hi]
		}
		ins := inserts(n)
		in := ins[vsched.Choose(len(ins))]
		want := expect(o.M, in.i, in.j, v)
		check := func(what string) {
			for i := range back {
				if back[i] != keep[i] {
					vsched.Fail("%s changed the caller's array to %v, it was %v (values passed: [%d:%d])", what, back, keep, lo, hi)
				}
			}
		}
		var r *slx.S
		drv.NoPanic(in.name, func() { r = in.run(o.S, v) })
		check(in.name)
		drv.EqSlice(in.name, []int(*o.S), want)
		drv.EqSlice(in.name+" (returned)", []int(*r), want)
		o.M = want
		// later operations on the slice do not reach the caller's array
		for a := 0; a < after; a++ {
			ops := slx.Short(len(o.M))
			op := ops[vsched.Choose(len(ops))]
			slx.Do(o, op, fresh)
			check(in.name + " then " + op.Name)
		}
		if full := (*o.S)[:cap(*o.S)]; true {
			for i := range full {
				full[i] = -1
			}
			check(in.name + " then writing to the slice")
		}
	}
}

// argumentsOwned: later writes by the caller to its array do not reach the
// slice.
func argumentsOwned(maxN int) func() {
	return func() {
		fresh := slx.Fresh()
		o := slx.Make(vsched.Choose(maxN+1), []int{0, 4}[vsched.Choose(2)], fresh)
		k := vsched.Choose(4)
		back := make([]int, k+vsched.Choose(3)*4)
		for i := range back {
			back[i] = 1000 + i
		}
		v := back[:k]
		ins := inserts(len(o.M))
		in := ins[vsched.Choose(len(ins))]
		want := expect(o.M, in.i, in.j, v)
		drv.NoPanic(in.name, func() { in.run(o.S, v) })
		for i := range back {
			back[i] = -5
		}
		drv.EqSlice(in.name+" after the caller reused its array", []int(*o.S), want)
	}
}

// self: the inserted values are part of the slice being edited.
func self(maxN int) func() {
	return func() {
		fresh := slx.Fresh()
		o := slx.Make(vsched.Choose(maxN+1), []int{0, 1, 2, 8}[vsched.Choose(4)], fresh)
		n := len(o.M)
		lo := vsched.Choose(n + 1)
		hi := lo + vsched.Choose(n-lo+1)
		v := []int((*o.S)[lo:hi])
		if vsched.Choose(2) == 1 {
			v = []int((*o.S)[lo:hi:hi])
		}
		ins := inserts(n)
		in := ins[vsched.Choose(len(ins))]
		if in.name[0] == 'I' {
			return // one by one: not a single edit
		}
		want := expect(o.M, in.i, in.j, append([]int{}, o.M[lo:hi]...))
		before := append([]int{}, o.M...)
		drv.NoPanic(in.name, func() { in.run(o.S, v) })
		s := []int(*o.S)
		same := len(s) == len(want)
		for i := 0; same && i < len(s); i++ {
			same = s[i] == want[i]
		}
		if !same {
			vsched.Fail("%s on %v with its own elements [%d:%d] gives %v, want %v", in.name, before, lo, hi, s, want)
		}
	}
}

// readers: reading operations change nothing, spare capacity included.
func readers(maxN int) func() {
	return func() {
		fresh := slx.Fresh()
		o := slx.Make(vsched.Choose(maxN+1), []int{0, 1, 4}[vsched.Choose(3)], fresh)
		n := len(o.M)
		full := (*o.S)[:cap(*o.S)]
		keep := append([]int{}, full...)
		var ops []slx.Op
		for _, op := range slx.Menu(n, false) {
			if !op.Edit {
				ops = append(ops, op)
			}
		}
		ex := slx.Extremes(n)
		for _, i := range ex {
			for _, op := range slx.One(i) {
				if !op.Edit {
					ops = append(ops, op)
				}
			}
			for _, j := range ex {
				ops = append(ops, slx.Split(i, j))
			}
		}
		op := ops[vsched.Choose(len(ops))]
		slx.Do(o, op, fresh)
		if len(*o.S) != n || cap(*o.S) != len(full) {
			vsched.Fail("%s changed the slice's shape", op.Name)
		}
		for i := range full {
			if full[i] != keep[i] || n > 0 && &(*o.S)[0] != &full[0] {
				vsched.Fail("%s changed the slice to %v, it was %v", op.Name, full, keep)
			}
		}
	}
}

// big: long slices and their copies, each edited at its ends, in the middle
// and at every place by the edits that move all of it.
func big(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		spare := []int{0, 1, 100}[vsched.Choose(3)]
		back := make([]int, n, n+spare)
		for i := range back {
			back[i] = i*7 + 1
		}
		s := slicex.New(back...)
		c := s.Copy()
		d := c.Copy()
		mine := func(i int) int { return i*7 + 1 }
		whole := func(what string, o *slicex.Slice[int], m int) {
			if len(*o) != m {
				vsched.Fail("%s: a copy of %d elements has %d", what, m, len(*o))
			}
			for i, v := range *o {
				if v != mine(i) {
					vsched.Fail("%s: an independent slice of %d elements has %d at %d, not %d", what, m, v, i, mine(i))
				}
			}
		}
		objs := []*slicex.Slice[int]{s, c, d}
		for i, o := range objs {
			whole([]string{"New", "Copy", "Copy of a copy"}[i], o, n)
		}
		k := vsched.Choose(3)
		o := objs[k]
		at := []int{0, 1, n / 2, n - 1}[vsched.Choose(4)]
		name := []string{"Set", "Delete", "Insert", "Push", "Splice", "Expand", "Shuffle", "Clear", "Pop", "Shift", "UnShift", "Cut", "DeleteReplace", "Reverse", "Rotate", "Filter", "Slice", "Extend", "Repeat"}[vsched.Choose(19)]
		vrand.Pick = func(k int) int { return k / 2 }
		defer func() { vrand.Pick = nil }()
		drv.NoPanic(name, func() {
			switch name {
			case "Set":
				o.Set(at, -1)
			case "Delete":
				o.Delete(at)
			case "Insert":
				o.Insert(at, -1)
			case "Push":
				o.Push(-1)
			case "Splice":
				o.Splice(at, at+3, -1, -2)
			case "Expand":
				o.Expand(at, -1, -2)
			case "Shuffle":
				o.Shuffle()
			case "Clear":
				o.Clear()
			case "Pop":
				o.Pop()
			case "Shift":
				o.Shift()
			case "UnShift":
				o.UnShift(-1)
			case "Cut":
				o.Cut(at, at+2)
			case "DeleteReplace":
				o.DeleteReplace(at)
			case "Reverse":
				o.Reverse()
			case "Rotate":
				o.Rotate(3)
			case "Filter":
				o.Filter(func(v int) bool { return v%2 == 0 })
			case "Slice":
				o.Slice(0, at)
			case "Extend":
				o.Extend(at)
			case "Repeat":
				o.Repeat(2)
			}
		})
		for i, p := range objs {
			if i != k {
				whole(name, p, n)
			}
		}
		full := (*o)[:cap(*o)]
		for i := range full {
			full[i] = -9
		}
		for i, p := range objs {
			if i != k {
				whole("writing to another slice", p, n)
			}
		}
		for i, p := range objs { // and what is appended to one is not seen by another
			if i != k {
				p.Push(-3)
				for j, q := range objs {
					if j > i && j != k {
						whole("Push", q, n)
					}
				}
			}
		}
	}
}

// bigArguments: many values at once, into a slice of any size.
func bigArguments(sizes []int) func() {
	return func() {
		n := []int{0, 1, 5, 100, 5000}[vsched.Choose(5)]
		k := sizes[vsched.Choose(len(sizes))]
		spare := []int{0, 3, 6000}[vsched.Choose(3)]
		at := []int{0, n / 2, n}[vsched.Choose(3)]
		s := slicex.New(make([]int, n, n+spare)...)
		v := make([]int, k, k+spare)
		for i := range v {
			v[i] = i + 1
		}
		one := vsched.Choose(3)
		drv.NoPanic("inserting many", func() {
			switch one {
			case 0:
				s.Expand(at, v...)
			case 1:
				s.Splice(at, at, v...)
			case 2:
				s.Splice(0, n, v...)
				at, n = 0, 0
			}
		})
		good := func(what string) {
			if len(*s) != n+k {
				vsched.Fail("%s: %d values into %d elements give %d", what, k, n, len(*s))
			}
			for i, e := range *s {
				w := 0
				if i >= at && i < at+k {
					w = i - at + 1
				}
				if e != w {
					vsched.Fail("%s: %d values into %d elements at %d: element %d is %d, not %d", what, k, n, at, i, e, w)
				}
			}
		}
		good("inserting many")
		for i := range v {
			if v[i] != i+1 {
				vsched.Fail("inserting many changed the caller's array")
			}
			v[i] = -1
		}
		good("the caller reused its array")
		full := (*s)[:cap(*s)]
		for i := range full {
			full[i] = -2
		}
		for i := range v[:cap(v)] {
			if v[:cap(v)][i] == -2 {
				vsched.Fail("writing to the slice changed the caller's array")
			}
		}
	}
}

// shuffled: shuffling or sorting-like edits of a copy leave the original.
func shuffled() {
	s := slicex.New(1, 2, 3, 4, 5)
	c := s.Copy()
	vrand.Pick = func(k int) int { return 0 }
	defer func() { vrand.Pick = nil }()
	if vsched.Choose(2) == 0 {
		s.Shuffle()
		drv.EqSlice("copy of a shuffled slice", []int(*c), []int{1, 2, 3, 4, 5})
	} else {
		c.Shuffle()
		drv.EqSlice("original of a shuffled copy", []int(*s), []int{1, 2, 3, 4, 5})
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "D08",
		Level:       "exploration",
		Rule:        "every pair (triple) of edits on a slice and its copies with all of them compared after each; every insertion of every part of a caller's array, with and without capacity beyond it, at every place, the whole array compared then and after further edits; every insertion of every part of the slice into itself; every reading operation with extreme arguments",
		Bounds:      "slices of 0-3 (0-4) elements with 0-8 spare slots, arrays of up to 6 elements; single edits of slices, copies and arguments of up to 65537 (1048577) elements",
		Assumptions: []string{"slices made by New share the caller's array by design; only Copy promises independence"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "copies", Shards: 8, Split: 4, Body: copies(x(3, 4), 2, false)},
				{Name: "copies-longer", Shards: 8, Split: 4, Body: copies(x(2, 3), x(3, 4), true)},
				{Name: "arguments", Shards: 8, Split: 4, Body: arguments(x(3, 4), x(1, 2))},
				{Name: "arguments-owned", Shards: 2, Split: 3, Body: argumentsOwned(4)},
				{Name: "self", Shards: 4, Split: 3, Body: self(x(5, 7))},
				{Name: "readers", Body: readers(x(4, 5))},
				{Name: "big", Shards: 8, Split: 2, Body: big(slx.Sizes[:x(len(slx.Sizes)-2, len(slx.Sizes))])},
				{Name: "big-arguments", Shards: 8, Split: 2, Body: bigArguments(slx.Sizes[:x(len(slx.Sizes)-2, len(slx.Sizes))])},
				{Name: "shuffled", Body: shuffled},
			}
		},
	})
}
