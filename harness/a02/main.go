// A02: binary search finds present keys and the insertion point of absent ones.
package main

import (
	"math"
	"sort"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"golang.org/x/exp/constraints"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type rec struct{ key, id int }

func expect[T any](s []T, x T, cmp func(a, b T) int) (int, bool) {
	for i, e := range s {
		if c := cmp(e, x); c >= 0 {
			return i, c == 0
		}
	}
	return len(s), false
}

func order[T constraints.Ordered](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func check[T comparable](name string, s []T, x T, f func(s []T) (int, bool), cmp func(a, b T) int) {
	given := append([]T(nil), s...)
	back := append(append([]T(nil), s...), x, x) // the key lies right behind the slice
	arg := back[:len(s)]
	var i int
	var ok bool
	drv.NoPanic(name, func() { i, ok = f(arg) })
	wi, wok := expect(s, x, cmp)
	if i != wi || ok != wok {
		vsched.Fail("%s(%v, %v) = (%d, %v), want (%d, %v)", name, s, x, i, ok, wi, wok)
	}
	drv.EqSlice(name+" slice", arg, given)
}

// sorted chooses a sorted slice of up to max elements over vals.
func sorted[T any](vals []T, max int) []T {
	var s []T
	n := vsched.Choose(max + 1)
	from := 0
	for i := 0; i < n; i++ {
		from += vsched.Choose(len(vals) - from)
		s = append(s, vals[from])
	}
	return s
}

// typed: every sorted slice over every other one of the values, every value as key.
func typed[T constraints.Ordered](vals []T, max int) func() {
	var some []T
	for i := 1; i < len(vals); i += 2 {
		some = append(some, vals[i])
	}
	return func() {
		s := sorted(some, max)
		x := vals[vsched.Choose(len(vals))]
		check("Search", s, x, func(a []T) (int, bool) { return searchx.Search(a, x) }, order[T])
		check("SearchCustom", s, x, func(a []T) (int, bool) { return searchx.SearchCustom(a, x, order[T]) }, order[T])
		// comparisons may answer with any negative or positive number
		check("SearchCustom", s, x, func(a []T) (int, bool) {
			return searchx.SearchCustom(a, x, func(p, q T) int { return order(p, q) * (math.MaxInt / 2) })
		}, order[T])
		// a slice in descending order with its own comparison
		down := func(p, q T) int { return order(q, p) }
		r := make([]T, len(s))
		for i := range s {
			r[len(s)-1-i] = s[i]
		}
		check("SearchCustom descending", r, x, func(a []T) (int, bool) { return searchx.SearchCustom(a, x, down) }, down)
	}
}

// records: elements searched by one field.
func records(n, max int) func() {
	var vals []rec
	for i := 0; i < n; i++ {
		vals = append(vals, rec{i*2 + 1, 0})
	}
	return func() {
		s := sorted(vals, max)
		for i := range s {
			s[i].id = i
		}
		x := rec{vsched.Choose(2*n + 1), 99}
		cmp := func(a, b rec) int { return a.key - b.key }
		check("SearchCustom", s, x, func(a []rec) (int, bool) {
			return searchx.SearchCustom(a, x, func(e, k rec) int {
				if k != x {
					vsched.Fail("the comparison was given %v in place of the key %v", k, x)
				}
				return cmp(e, k)
			})
		}, cmp)
	}
}

// long: lengths around powers of two; every key in, between and beyond.
func long(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		run := 1 + vsched.Choose(4)
		s := make([]int, n)
		for i := range s {
			s[i] = i / run * 2
		}
		for x := -1; x <= s[n-1]+1; x++ {
			i, ok := searchx.Search(s, x)
			wi := 0
			if x > 0 {
				wi = min((x+1)/2*run, n)
			}
			wok := x >= 0 && x%2 == 0 && x <= s[n-1]
			if i != wi || ok != wok {
				vsched.Fail("Search(%d elements in runs of %d, %d) = (%d, %v), want (%d, %v)", n, run, x, i, ok, wi, wok)
			}
		}
	}
}

// huge: very long slices, with the keys around a few places.
func huge(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		run := []int{1, 2, 3, 1000, 70000}[vsched.Choose(5)]
		s := make([]int, n)
		for i := range s {
			s[i] = i / run * 2
		}
		last := s[n-1]
		for p := -1; p <= 64; p++ {
			for d := -3; d <= 3; d++ {
				x := last/64*p + d
				wi := sort.SearchInts(s, x)
				wok := wi < n && s[wi] == x
				i, ok := searchx.Search(s, x)
				j, ok2 := searchx.SearchCustom(s, x, func(a, b int) int { return a - b })
				if i != wi || ok != wok || j != wi || ok2 != wok {
					vsched.Fail("Search in %d elements in runs of %d for %d = (%d, %v), (%d, %v), want (%d, %v)", n, run, x, i, ok, j, ok2, wi, wok)
				}
			}
		}
	}
}

type name string

func main() {
	seq := func(n int) (r []int) {
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return
	}
	drv.Main(drv.Check{
		ID:          "A02",
		Level:       "model_checking",
		Rule:        "every sorted slice up to a length over an alphabet, duplicates included, with every key in, between and beyond its values, through Search and SearchCustom with three comparisons and in descending order, compared with a linear scan; nine element types; records searched by one field; long slices with every key",
		Bounds:      "length 12 (16) over five values, 16 (24) over three, 7 (9) over eight; up to 5 (7) for other types; records to 10 (14); long: lengths 1..40 and around powers of two to 1025, around 65 places in up to 2^20 (2^24) elements; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"the slice is sorted by the order used; no NaN"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			sizes := []int{63, 64, 65, 127, 128, 129, 1023, 1024, 1025}
			for i := 1; i <= 40; i++ {
				sizes = append(sizes, i)
			}
			return []drv.Unit{
				{Name: "five", Shards: 8, Split: 3, Body: typed(seq(11), x(12, 16))},
				{Name: "three", Shards: 8, Split: 3, Body: typed(seq(7), x(16, 24))},
				{Name: "eight", Shards: 8, Split: 3, Body: typed(seq(17), x(7, 9))},
				{Name: "strings", Body: typed([]string{"", "a", "aa", "ab", "b", "ba", "c"}, x(5, 7))},
				{Name: "named", Body: typed([]name{"", "a", "aa", "ab", "b"}, x(5, 7))},
				{Name: "floats", Body: typed([]float64{math.Inf(-1), -1e308, -1, -5e-324, 0, 5e-324, 1, 1e308, math.Inf(1)}, x(5, 7))},
				{Name: "float32s", Body: typed([]float32{-1, -0.5, 0, 0.5, 1}, x(5, 7))},
				{Name: "int8s", Body: typed([]int8{-128, -127, -1, 0, 1, 126, 127}, x(5, 7))},
				{Name: "uint8s", Body: typed([]uint8{0, 1, 127, 128, 129, 254, 255}, x(5, 7))},
				{Name: "int64s", Body: typed([]int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64 - 1, math.MaxInt64}, x(5, 7))},
				{Name: "int64-ends", Body: typed([]int64{-1, math.MinInt64, 0, math.MaxInt64}, x(5, 7))},
				{Name: "uint64s", Body: typed([]uint64{0, 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}, x(5, 7))},
				{Name: "records", Shards: 8, Split: 3, Body: records(4, x(10, 14))},
				{Name: "shapes", Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				{Name: "long", Body: long(sizes)},
				{Name: "huge", Shards: 8, Split: 2, Body: huge([]int{4097, 65535, 65536, 65537, 1 << 20, 1 << 24}[:x(5, 6)])},
			}
		},
	})
}
