// Package slx holds the slice helper's operations next to their model on a
// plain sequence.
package slx

import (
	"fmt"
	"math"
	"strings"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type S = slicex.Slice[int]

// Obj is one slice under test.
type Obj struct {
	S *S
	M []int
}

// Op is one operation with its arguments.
type Op struct {
	Name string
	Edit bool // may change the slice
	// Run applies it to the real slice and to the model, returning the new
	// model contents.
	Run func(o *Obj, fresh func() int) []int
}

func Clamp(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func clone(m []int) []int { return append([]int{}, m...) }

func bounds(i, j, n int) (int, int) {
	i, j = Clamp(i, 0, n), Clamp(j, 0, n)
	if i > j {
		i, j = j, i
	}
	return i, j
}

func splice(m []int, i, j int, v ...int) []int {
	i, j = bounds(i, j, len(m))
	r := clone(m[:i])
	r = append(r, v...)
	return append(r, m[j:]...)
}

func ret(what string, o *Obj, r *S, want []int) {
	if r == nil {
		vsched.Fail("%s returns nil", what)
	}
	drv.EqSlice(what+" (returned slice)", []int(*r), want)
}

// SplitModel is Split with exact arithmetic.
func SplitModel(m []int, splits []int) (r [][]int) {
	end, n := 0, len(m)
	for _, d := range splits {
		next := 0
		switch {
		case d > n-end:
			next = n
		case d < -end:
			next = 0
		default:
			next = end + d
		}
		if next < end {
			r = append(r, m[next:end])
		} else {
			r = append(r, m[end:next])
		}
		end = next
	}
	if end < n {
		r = append(r, m[end:])
	}
	return
}

func eqParts(what string, got []S, want [][]int) {
	if len(got) != len(want) {
		vsched.Fail("%s: %d parts %v, want %v", what, len(got), got, want)
	}
	for i := range got {
		drv.EqSlice(fmt.Sprintf("%s part %d", what, i), []int(got[i]), want[i])
	}
}

func vals(k int, fresh func() int) []int {
	var v []int
	for i := 0; i < k; i++ {
		v = append(v, fresh())
	}
	return v
}

// Extremes are the integer arguments tried for a slice of n elements.
func Extremes(n int) []int {
	r := []int{math.MinInt, math.MinInt + 1, -1 << 31, -n - 2, -n - 1, -n}
	for i := -2; i <= n+2; i++ {
		r = append(r, i)
	}
	return uniq(append(r, 2*n+1, 1<<31, math.MaxInt-1, math.MaxInt))
}

// Near are the arguments used within sequences.
func Near(n int) []int { return uniq([]int{-1, 0, 1, n - 1, n, n + 1, math.MaxInt, math.MinInt}) }

func uniq(a []int) (r []int) {
	for _, x := range a {
		dup := false
		for _, y := range r {
			dup = dup || x == y
		}
		if !dup {
			r = append(r, x)
		}
	}
	return
}

// Plain are the operations without arguments.
func Plain() []Op {
	return []Op{
		{"Push", true, func(o *Obj, f func() int) []int {
			v := f()
			w := append(clone(o.M), v)
			ret("Push", o, o.S.Push(v), w)
			return w
		}},
		{"UnShift", true, func(o *Obj, f func() int) []int {
			v := f()
			w := append([]int{v}, o.M...)
			ret("UnShift", o, o.S.UnShift(v), w)
			return w
		}},
		{"Pop", true, func(o *Obj, f func() int) []int {
			v := o.S.Pop()
			if len(o.M) == 0 {
				drv.Eq("Pop of nothing", v, 0)
				return o.M
			}
			drv.Eq("Pop", v, o.M[len(o.M)-1])
			return clone(o.M[:len(o.M)-1])
		}},
		{"Shift", true, func(o *Obj, f func() int) []int {
			v := o.S.Shift()
			if len(o.M) == 0 {
				drv.Eq("Shift of nothing", v, 0)
				return o.M
			}
			drv.Eq("Shift", v, o.M[0])
			return clone(o.M[1:])
		}},
		{"Clear", true, func(o *Obj, f func() int) []int {
			ret("Clear", o, o.S.Clear(), nil)
			return nil
		}},
		{"Reverse", true, func(o *Obj, f func() int) []int {
			var w []int
			for i := range o.M {
				w = append(w, o.M[len(o.M)-1-i])
			}
			ret("Reverse", o, o.S.Reverse(), w)
			return w
		}},
		{"Len", false, func(o *Obj, f func() int) []int {
			drv.Eq("Len", o.S.Len(), len(o.M))
			return o.M
		}},
		{"Finalize", false, func(o *Obj, f func() int) []int {
			drv.EqSlice("Finalize", o.S.Finalize(), o.M)
			return o.M
		}},
		{"Each", false, func(o *Obj, f func() int) []int {
			var got []int
			o.S.Each(func(v int) { got = append(got, v) })
			drv.EqSlice("Each", got, o.M)
			return o.M
		}},
		{"ForEach", false, func(o *Obj, f func() int) []int {
			var got, at []int
			o.S.ForEach(func(i, v int) { got, at = append(got, v), append(at, i) })
			drv.EqSlice("ForEach", got, o.M)
			for i := range at {
				drv.Eq("ForEach index", at[i], i)
			}
			return o.M
		}},
		{"Join", false, func(o *Obj, f func() int) []int {
			for _, sep := range []string{"", ",", " - ", "%d"} {
				var p []string
				for _, v := range o.M {
					p = append(p, fmt.Sprint(v))
				}
				drv.Eq("Join", o.S.Join(sep), strings.Join(p, sep))
			}
			return o.M
		}},
		{"Find", false, func(o *Obj, f func() int) []int {
			targets := append(clone(o.M), -99, 0)
			for _, t := range targets {
				want := -1
				for i, v := range o.M {
					if v == t {
						want = i
						break
					}
				}
				drv.Eq("IndexOf", o.S.IndexOf(func(v int) bool { return v == t }), want)
				drv.Eq("Contains", o.S.Contains(func(v int) bool { return v == t }), want >= 0)
			}
			// not the first alone, and all
			want := -1
			if len(o.M) > 0 {
				want = 0
			}
			drv.Eq("IndexOf any", o.S.IndexOf(func(int) bool { return true }), want)
			drv.Eq("Contains any", o.S.Contains(func(int) bool { return true }), want == 0)
			return o.M
		}},
		{"Copy", false, func(o *Obj, f func() int) []int {
			c := o.S.Copy()
			drv.EqSlice("Copy", []int(*c), o.M)
			return o.M
		}},
	}
}

// One are the operations with one integer argument.
func One(i int) []Op {
	ops := []Op{
		{fmt.Sprintf("Set(%d)", i), true, func(o *Obj, f func() int) []int {
			v := f()
			o.S.Set(i, v)
			if len(o.M) == 0 {
				return o.M
			}
			w := clone(o.M)
			w[Clamp(i, 0, len(w)-1)] = v
			return w
		}},
		{fmt.Sprintf("Get(%d)", i), false, func(o *Obj, f func() int) []int {
			want := 0
			if n := len(o.M); n > 0 {
				want = o.M[Clamp(i, 0, n-1)]
			}
			drv.Eq("Get", o.S.Get(i), want)
			return o.M
		}},
		{fmt.Sprintf("Insert(%d)", i), true, func(o *Obj, f func() int) []int {
			v := f()
			w := splice(o.M, i, i, v)
			ret("Insert", o, o.S.Insert(i, v), w)
			return w
		}},
		{fmt.Sprintf("Delete(%d)", i), true, func(o *Obj, f func() int) []int {
			w := o.M
			if i >= 0 && i < len(o.M) {
				w = splice(o.M, i, i+1)
			}
			ret("Delete", o, o.S.Delete(i), w)
			return w
		}},
		{fmt.Sprintf("DeleteReplace(%d)", i), true, func(o *Obj, f func() int) []int {
			w := o.M
			if n := len(o.M); n > 0 {
				w = clone(o.M)
				w[Clamp(i, 0, n-1)] = w[n-1]
				w = w[:n-1]
			}
			ret("DeleteReplace", o, o.S.DeleteReplace(i), w)
			return w
		}},
		{fmt.Sprintf("Rotate(%d)", i), true, func(o *Obj, f func() int) []int {
			w := o.M
			if n := len(o.M); n > 0 {
				k := i % n
				if k < 0 {
					k += n
				}
				w = append(clone(o.M[k:]), o.M[:k]...)
			}
			ret("Rotate", o, o.S.Rotate(i), w)
			return w
		}},
		{fmt.Sprintf("Batch(%d)", i), false, func(o *Obj, f func() int) []int {
			size := i
			if size <= 0 {
				size = 1
			}
			var want [][]int
			for at := 0; at < len(o.M); {
				n := len(o.M) - at
				if size < n {
					n = size
				}
				want = append(want, o.M[at:at+n])
				at += n
			}
			eqParts("Batch", o.S.Batch(i), want)
			return o.M
		}},
	}
	for k := 0; k <= 2; k++ {
		k := k
		ops = append(ops, Op{fmt.Sprintf("Expand(%d) of %d", i, k), true, func(o *Obj, f func() int) []int {
			v := vals(k, f)
			w := splice(o.M, i, i, v...)
			ret("Expand", o, o.S.Expand(i, v...), w)
			return w
		}})
	}
	if i <= 3 {
		ops = append(ops, Op{fmt.Sprintf("Extend(%d)", i), true, func(o *Obj, f func() int) []int {
			w := clone(o.M)
			for k := 0; k < i; k++ {
				w = append(w, 0)
			}
			ret("Extend", o, o.S.Extend(i), w)
			return w
		}})
		ops = append(ops, repeat(i))
	}
	return ops
}

func repeat(i int) Op {
	return Op{fmt.Sprintf("Repeat(%d)", i), true, func(o *Obj, f func() int) []int {
		w := []int{}
		for k := 0; k < i && len(o.M) > 0; k++ {
			w = append(w, o.M...)
		}
		ret("Repeat", o, o.S.Repeat(i), w)
		return w
	}}
}

// RepeatEmpty repeats an empty slice; any count is fine then.
func RepeatEmpty(i int) Op { return repeat(i) }

// Two are the operations with two integer arguments.
func Two(i, j int) []Op {
	ops := []Op{
		{fmt.Sprintf("Slice(%d, %d)", i, j), true, func(o *Obj, f func() int) []int {
			k := j
			if k < 0 {
				k += len(o.M)
			}
			a, b := bounds(i, k, len(o.M))
			w := clone(o.M[a:b])
			ret("Slice", o, o.S.Slice(i, j), w)
			return w
		}},
		{fmt.Sprintf("Cut(%d, %d)", i, j), true, func(o *Obj, f func() int) []int {
			w := splice(o.M, i, j)
			ret("Cut", o, o.S.Cut(i, j), w)
			return w
		}},
	}
	for k := 0; k <= 2; k++ {
		k := k
		ops = append(ops, Op{fmt.Sprintf("Splice(%d, %d) of %d", i, j, k), true, func(o *Obj, f func() int) []int {
			v := vals(k, f)
			w := splice(o.M, i, j, v...)
			ret("Splice", o, o.S.Splice(i, j, v...), w)
			return w
		}})
	}
	return ops
}

// Filter keeps the elements whose position is in mask.
func Filter(mask int) Op {
	return Op{fmt.Sprintf("Filter(%b)", mask), true, func(o *Obj, f func() int) []int {
		n := 0
		var seen, w []int
		for i, v := range o.M {
			if mask>>uint(i)&1 == 1 {
				w = append(w, v)
			}
		}
		r := o.S.Filter(func(v int) bool {
			seen = append(seen, v)
			n++
			return mask>>uint(n-1)&1 == 1
		})
		drv.EqSlice("Filter's predicate arguments", seen, o.M)
		ret("Filter", o, r, w)
		return w
	}}
}

func Split(splits ...int) Op {
	return Op{fmt.Sprintf("Split%v", splits), false, func(o *Obj, f func() int) []int {
		keep := clone(splits)
		eqParts(fmt.Sprintf("Split%v", splits), o.S.Split(splits...), SplitModel(o.M, splits))
		drv.EqSlice("Split's arguments", splits, keep)
		return o.M
	}}
}

// Menu lists the operations used within sequences on n elements.
func Menu(n int, edits bool) []Op {
	k := 2 * n
	if edits {
		k++
	}
	if menus[k] == nil {
		menus[k] = menu(n, edits)
	}
	return menus[k]
}

var menus, shorts = map[int][]Op{}, map[int][]Op{}

func menu(n int, edits bool) []Op {
	ops := Plain()
	for _, i := range Near(n) {
		ops = append(ops, One(i)...)
	}
	for _, p := range [][2]int{{0, 1}, {1, 2}, {0, n}, {1, 0}, {n, 0}, {-1, n + 1}, {1, -1}, {n, n + 3}, {1, 1}, {math.MinInt, 1}, {1, math.MaxInt}} {
		ops = append(ops, Two(p[0], p[1])...)
	}
	for _, m := range []int{0, 1, 2, 5, -1} {
		ops = append(ops, Filter(m))
	}
	ops = append(ops, Split(1), Split(1, 1, 1), Split(n, -1))
	if !edits {
		return ops
	}
	var r []Op
	for _, o := range ops {
		if o.Edit {
			r = append(r, o)
		}
	}
	return r
}

// Short lists one of each editing operation at ordinary places, and two odd.
func Short(n int) []Op {
	if shorts[n] == nil {
		shorts[n] = short(n)
	}
	return shorts[n]
}

func short(n int) []Op {
	var ops []Op
	for _, o := range Plain() {
		if o.Edit {
			ops = append(ops, o)
		}
	}
	add := func(os []Op, names ...string) {
		for _, o := range os {
			for _, x := range names {
				if strings.HasPrefix(o.Name, x) {
					ops = append(ops, o)
				}
			}
		}
	}
	add(One(1), "Set", "Delete", "Rotate", "Expand", "Repeat", "Extend")
	add(One(n/2), "Insert", "DeleteReplace")
	add(One(-1), "Set", "Rotate", "Insert")
	add(One(2), "Repeat", "Extend")
	add(One(n+1), "Insert", "Delete")
	add(Two(0, 1), "Cut", "Splice")
	add(Two(1, n), "Cut", "Slice", "Splice")
	add(Two(0, 1), "Slice")
	return append(ops, Filter(5))
}

// Do runs one operation and compares the slice with the model.
func Do(o *Obj, op Op, fresh func() int) {
	var m []int
	n := len(o.M)
	if p := drv.Try(func() { m = op.Run(o, fresh) }); p != nil {
		vsched.Fail("%s on %v panics: %v", op.Name, o.M, p)
	}
	if !op.Edit && len(m) != n {
		vsched.Fail("model error")
	}
	before := o.M
	o.M = m
	if s := []int(*o.S); true {
		if len(s) != len(m) {
			vsched.Fail("%s on %v gives %v, want %v", op.Name, before, s, m)
		}
		for i := range s {
			if s[i] != m[i] {
				vsched.Fail("%s on %v gives %v, want %v", op.Name, before, s, m)
			}
		}
	}
}

// Make builds a slice of n elements with spare capacity.
func Make(n, spare int, fresh func() int) *Obj {
	base := make(S, n+spare)
	for i := range base {
		base[i] = fresh()
	}
	s := base[:n]
	return &Obj{&s, clone([]int(s))}
}

func Fresh() func() int { k := 0; return func() int { k++; return k } }

// Sizes lists lengths around those where an implementation may change course.
var Sizes = []int{8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193, 10001, 16385, 32769, 65536, 65537, 131073, 1048577}
