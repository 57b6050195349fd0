// A01: sorting gives the ordered permutation, stably where promised.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/unsafe-risk/utilx/algox/sortx"
	"golang.org/x/exp/constraints"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// rec is an element with an identity beside its key.
type rec struct{ key, id int }

const spare = 3

// with returns a copy of s with spare elements behind it, and a check that
// they are untouched.
func with[T comparable](s []T, mark T) ([]T, func()) {
	b := make([]T, len(s)+2*spare)
	for i := range b {
		b[i] = mark
	}
	copy(b[spare:], s)
	return b[spare : spare+len(s)], func() {
		for i := 0; i < spare; i++ {
			if b[i] != mark || b[len(b)-1-i] != mark {
				vsched.Fail("elements outside the slice changed: %v", b)
			}
		}
	}
}

// reference: insertion sort, stable by construction.
func reference[T any](s []T, less func(a, b T) bool) []T {
	r := append([]T(nil), s...)
	if len(r) > 64 { // merge
		a, b := reference(r[:len(r)/2], less), reference(r[len(r)/2:], less)
		for i := range r {
			if len(a) == 0 || len(b) > 0 && less(b[0], a[0]) {
				r[i], b = b[0], b[1:]
			} else {
				r[i], a = a[0], a[1:]
			}
		}
		return r
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && less(r[j], r[j-1]); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func label[T any](name string, in []T) string {
	if len(in) > 40 {
		return fmt.Sprintf("%s %d elements", name, len(in))
	}
	return fmt.Sprintf("%s%v", name, in)
}

func inOrder[T any](s []T, less func(a, b T) bool) bool {
	for i := 1; i < len(s); i++ {
		if less(s[i], s[i-1]) {
			return false
		}
	}
	return true
}

// sameElements: the exact multiset, by bit identity.
func same[T comparable](what string, got, want []T) {
	if len(got) != len(want) {
		vsched.Fail("%s: %d elements, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			vsched.Fail("%s gives %v, want %v", what, got, want)
		}
	}
}

// ordered checks every function on a slice of an ordered type.
func ordered[T constraints.Ordered](in []T, mark T) {
	lt := func(a, b T) bool { return a < b }
	gt := func(a, b T) bool { return a > b }
	up, down := reference(in, lt), reference(in, gt)
	run := func(name string, f func(s []T), want []T) {
		s, outside := with(in, mark)
		drv.NoPanic(name, func() { f(s) })
		same(label(name, in), s, want)
		outside()
	}
	run("Sort", func(s []T) { sortx.Sort(s, false) }, up)
	run("Sort reverse", func(s []T) { sortx.Sort(s, true) }, down)
	run("SortReverse", sortx.SortReverse[T], down)
	run("SortStable", sortx.SortStable[T], up)
	run("SortStableReverse", sortx.SortStableReverse[T], down)
	sorted := func(name string, f func(s []T) bool, less func(a, b T) bool) {
		for _, q := range [][]T{in, up, down} {
			s, outside := with(q, mark)
			var got bool
			drv.NoPanic(name, func() { got = f(s) })
			if want := inOrder(q, less); got != want {
				vsched.Fail("%s%v is %v", name, q, got)
			}
			same(name+" slice", s, q)
			outside()
		}
	}
	sorted("IsSorted", sortx.IsSorted[T], lt)
	sorted("IsSortedReverse", sortx.IsSortedReverse[T], gt)
}

// custom checks the functions with a comparison, on elements with identity.
func custom(in []rec) {
	for name, less := range map[string]func(a, b rec) bool{
		"ascending":  func(a, b rec) bool { return a.key < b.key },
		"descending": func(a, b rec) bool { return a.key > b.key },
		"parity":     func(a, b rec) bool { return a.key&1 < b.key&1 },
		"constant":   func(a, b rec) bool { return false },
	} {
		want := reference(in, less)
		mark := rec{-1, -1}
		s, outside := with(in, mark)
		drv.NoPanic("SortCustom", func() { sortx.SortCustom(s, less) })
		if !inOrder(s, less) {
			vsched.Fail("SortCustom %s of %v gives %v", name, in, s)
		}
		got := append([]rec(nil), s...)
		sort.Slice(got, func(i, j int) bool { return got[i].id < got[j].id })
		same("SortCustom "+name+" elements", got, in) // ids are positions
		outside()

		s, outside = with(in, mark)
		drv.NoPanic("SortStableCustom", func() { sortx.SortStableCustom(s, less) })
		same(label("SortStableCustom "+name+" of ", in), s, want)
		outside()

		for _, q := range [][]rec{in, want} {
			s, outside = with(q, mark)
			var ok bool
			drv.NoPanic("IsSortedCustom", func() { ok = sortx.IsSortedCustom(s, less) })
			if ok != inOrder(q, less) {
				vsched.Fail("IsSortedCustom %s of %v is %v", name, q, ok)
			}
			same("IsSortedCustom slice", s, q)
			outside()
		}
	}
}

func recs(keys []int) []rec {
	r := make([]rec, len(keys))
	for i, k := range keys {
		r[i] = rec{k, i}
	}
	return r
}

// lengths: all sequences over an alphabet of n with lengths min..max.
func ints(n, min, max int) func() {
	return func() {
		l := min + vsched.Choose(max-min+1)
		s := make([]int, l)
		for i := range s {
			s[i] = vsched.Choose(n)
		}
		ordered(s, -7)
		custom(recs(s))
	}
}

// typed: all sequences over the given values.
func typed[T constraints.Ordered](vals []T, mark T, max int) func() {
	return func() {
		s := make([]T, vsched.Choose(max+1))
		for i := range s {
			s[i] = vals[vsched.Choose(len(vals))]
		}
		ordered(s, mark)
	}
}

// zeros: the two float zeros are equal but distinguishable.
func zeros(max int) func() {
	vals := []float64{math.Copysign(0, -1), 0, 1}
	return func() {
		s := make([]float64, vsched.Choose(max+1))
		for i := range s {
			s[i] = vals[vsched.Choose(len(vals))]
		}
		for _, c := range []struct {
			name string
			f    func([]float64)
			less func(a, b float64) bool
		}{
			{"SortStable", sortx.SortStable[float64], func(a, b float64) bool { return a < b }},
			{"SortStableReverse", sortx.SortStableReverse[float64], func(a, b float64) bool { return a > b }},
		} {
			got := append([]float64(nil), s...)
			c.f(got)
			want := reference(s, c.less)
			for i := range got {
				if math.Float64bits(got[i]) != math.Float64bits(want[i]) {
					vsched.Fail("%s%v gives %v, want %v (sign of zero %v)", c.name, s, got, want, math.Signbit(got[i]))
				}
			}
		}
	}
}

// long: shapes longer than every internal threshold.
func long(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		s := make([]int, n)
		shape := vsched.Choose(9)
		for i := range s {
			switch shape {
			case 0:
				s[i] = i
			case 1:
				s[i] = n - i
			case 2:
				s[i] = i * 7919 % n
			case 3:
				s[i] = i % 2
			case 4:
				s[i] = i % 10
			case 5: // organ pipe
				s[i] = min(i, n-i)
			case 6:
				s[i] = 5
			case 7: // sorted but for the last
				s[i] = i
				if i == n-1 {
					s[i] = -1
				}
			case 8: // sorted halves
				s[i] = i % (n/2 + 1) * 3
			}
		}
		ordered(s, -9)
		custom(recs(s))
	}
}

// nearly: long slices with every pair of elements exchanged.
func nearly(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		s := make([]int, n)
		shape := vsched.Choose(4)
		for i := range s {
			s[i] = []int{i, n - i, i % 3, i / 3}[shape]
		}
		i := vsched.Choose(n)
		j := i + vsched.Choose(n-i)
		s[i], s[j] = s[j], s[i]
		ordered(s, -9)
		custom(recs(s))
	}
}

func nils() {
	ordered[int](nil, 0)
	custom(nil)
}

type name string

func main() {
	drv.Main(drv.Check{
		ID:          "A01",
		Level:       "model_checking",
		Rule:        "every sequence over an alphabet up to a length (every relative order with every pattern of ties), through every sorting and testing function and both orders, compared with an insertion sort; elements with identity under four comparisons, one of them constant; signed zeros; ten element types; longer shapes; elements outside the slice must stay",
		Bounds:      "two values to length 16 (19), three to 10 (12), four to 8 (9), six to 7 (8); other types to 6 (7-8); shapes of 12 to 65537 (2^20) elements; every exchange of two elements in four shapes of 13 to 60 (130) elements; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"no NaN", "the comparison is a strict weak order"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "two", Shards: 8, Split: 4, Body: ints(2, 0, x(16, 19))},
				{Name: "three", Shards: 8, Split: 3, Body: ints(3, 0, x(10, 12))},
				{Name: "four", Shards: 8, Split: 3, Body: ints(4, 0, x(8, 9))},
				{Name: "six", Shards: 8, Split: 3, Body: ints(6, 0, x(7, 8))},
				{Name: "strings", Shards: 8, Split: 3, Body: typed([]string{"", "a", "aa", "b"}, "x", x(6, 7))},
				{Name: "named", Shards: 8, Split: 3, Body: typed([]name{"", "a", "b"}, "x", x(6, 7))},
				{Name: "floats", Shards: 8, Split: 3, Body: typed([]float64{math.Inf(-1), -1.5, 0, 1.5, math.Inf(1)}, 7, x(6, 7))},
				{Name: "float32s", Shards: 8, Split: 3, Body: typed([]float32{-1, 0, 2}, 7, x(6, 7))},
				{Name: "int8s", Shards: 8, Split: 3, Body: typed([]int8{-128, -1, 0, 127}, 7, x(6, 8))},
				{Name: "uint8s", Shards: 8, Split: 3, Body: typed([]uint8{0, 1, 127, 128, 255}, 7, x(6, 7))},
				{Name: "int64s", Shards: 8, Split: 3, Body: typed([]int64{math.MinInt64, -1, 0, math.MaxInt64}, 7, x(6, 8))},
				{Name: "uint64s", Shards: 8, Split: 3, Body: typed([]uint64{0, 1, 1 << 63, math.MaxUint64}, 7, x(6, 8))},
				{Name: "signed-zeros", Shards: 8, Split: 3, Body: zeros(x(8, 10))},
				{Name: "shapes", Shards: 2, Split: 1, Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				{Name: "long", Body: long([]int{12, 13, 14, 20, 21, 40, 49, 50, 51, 100, 129, 255, 256, 500, 1025, 1500})},
				{Name: "huge", Shards: 8, Split: 2, Body: long([]int{4097, 65537, 131073, 1 << 20}[:x(2, 4)])},
				{Name: "nearly", Shards: 8, Split: 3, Body: nearly([]int{13, 21, 41, 52, 60, 130}[:x(6, 7)])},
				{Name: "nil", Body: nils},
			}
		},
	})
}
