// T02: interval intersection is the exact agreement of the intervals and does
// not depend on the order of the arguments.
package main

import (
	"math"

	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type iv = intersectionx.Interval

// want is the definition: for the smallest number f of left-out intervals, the
// smallest and largest point in at least m-f intervals, if at most f centres
// lie outside.
func want(in []iv) (lo, hi int64, ok bool) {
	m := len(in)
	if m == 1 {
		return in[0].Offset - in[0].ConfidenceBand, in[0].Offset + in[0].ConfidenceBand, true
	}
	depth := func(p int64) (n int) {
		for _, v := range in {
			if v.Offset-v.ConfidenceBand <= p && p <= v.Offset+v.ConfidenceBand {
				n++
			}
		}
		return
	}
	depths := map[int64]int{}
	for _, v := range in {
		for _, p := range []int64{v.Offset - v.ConfidenceBand, v.Offset + v.ConfidenceBand} {
			if _, ok := depths[p]; !ok {
				depths[p] = depth(p)
			}
		}
	}
	for f := 0; f < m/2; f++ {
		found := false
		for _, v := range in {
			for _, p := range []int64{v.Offset - v.ConfidenceBand, v.Offset + v.ConfidenceBand} {
				if depths[p] < m-f {
					continue
				}
				if !found || p < lo {
					lo = p
				}
				if !found || p > hi {
					hi = p
				}
				found = true
			}
		}
		if !found {
			continue
		}
		out := 0
		for _, v := range in {
			if v.Offset < lo || v.Offset > hi {
				out++
			}
		}
		if out <= f {
			return lo, hi, true
		}
	}
	return 0, 0, false
}

func check(in []iv) {
	arg := append([]iv(nil), in...)
	var lo, hi int64
	var ok bool
	drv.NoPanic("Intersection", func() { lo, hi, ok = intersectionx.Intersection(arg...) })
	wl, wh, wok := want(in)
	if ok != wok || ok && (lo != wl || hi != wh) {
		vsched.Fail("Intersection(%v) is [%d, %d] %v, want [%d, %d] %v", in, lo, hi, ok, wl, wh, wok)
	}
	for i := range in {
		if arg[i] != in[i] {
			vsched.Fail("Intersection(%v) changed its arguments to %v", in, arg)
		}
	}
}

func permute(in []iv, k int, f func([]iv)) {
	if k == len(in) {
		f(in)
		return
	}
	for i := k; i < len(in); i++ {
		in[k], in[i] = in[i], in[k]
		permute(in, k+1, f)
		in[k], in[i] = in[i], in[k]
	}
}

// grid: every list of n intervals of the alphabet as a multiset, in every
// order; the first element is the choice that shards the work.
func grid(n int, alphabet []iv, allOrders bool) func() {
	return func() {
		in := make([]iv, n)
		first := 0
		if n > 0 {
			first = vsched.Choose(len(alphabet))
			in[0] = alphabet[first]
		}
		var rec func(i, from int)
		rec = func(i, from int) {
			if i < n {
				for j := from; j < len(alphabet); j++ {
					in[i] = alphabet[j]
					rec(i+1, j)
				}
				return
			}
			if allOrders {
				permute(append([]iv(nil), in...), 0, check)
				return
			}
			// as listed, reversed and rotated
			check(in)
			r := make([]iv, n)
			for k := range in {
				r[k] = in[n-1-k]
			}
			check(r)
			for k := range in {
				r[k] = in[(k+n/2)%n]
			}
			check(r)
		}
		rec(1, first)
	}
}

// crowds: many intervals of which some lie apart.
func crowds(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		bad := []int{0, 1, 2, n/2 - 2, n/2 - 1, n / 2, n/2 + 1}[vsched.Choose(7)]
		shape := vsched.Choose(6)
		order := vsched.Choose(3)
		in := make([]iv, n)
		for i := range in {
			k := int64(i)
			switch shape {
			case 0: // the same
				in[i] = iv{Offset: 10, ConfidenceBand: 5}
			case 1: // nested
				in[i] = iv{Offset: 10, ConfidenceBand: k}
			case 2: // staircase with a common part
				in[i] = iv{Offset: k, ConfidenceBand: int64(n)}
			case 3: // staircase: neighbours overlap, not all
				in[i] = iv{Offset: k, ConfidenceBand: int64(n) / 3}
			case 4: // all kinds
				in[i] = iv{Offset: k * 7919 % 97, ConfidenceBand: k * 104729 % 83}
			case 5: // points
				in[i] = iv{Offset: k % 3}
			}
			if i < bad { // elsewhere, one beside another
				in[i] = iv{Offset: 100000 + 10*k, ConfidenceBand: k % 4}
				if k%2 == 1 {
					in[i].Offset = -in[i].Offset
				}
			}
		}
		if order == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				in[i], in[j] = in[j], in[i]
			}
		}
		if order == 2 {
			r := make([]iv, n)
			step := 7919
			for gcd(step, n) != 1 {
				step++
			}
			for i := range r {
				r[i] = in[i*step%n]
			}
			in = r
		}
		check(in)
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mk(at []int64, width []int64) (out []iv) {
	for _, a := range at {
		for _, w := range width {
			out = append(out, iv{Offset: a, ConfidenceBand: w})
		}
	}
	return
}

func main() {
	drv.Main(drv.Check{
		ID:          "T02",
		Level:       "model_checking",
		Rule:        "every multiset of intervals over a grid of centres and half-widths (zero widths, touching, nested, equal and disjoint ones arise), in every argument order (larger sets in three orders), compared with the definition evaluated point by point; crowds of many intervals of six kinds with some apart from the others; also far apart, negative and near the end of the integer range",
		Bounds:      "up to 3 intervals of 48, 4 of 20, 5 of 15 and 6 of 6 in all orders; 5 of 24, 7 of 12 and 13 of 4 in three orders; crowds of up to 257 (1000) (thorough: 4 of 48, 5 of 24, 6 of 12, 7 of 6 in all orders)",
		Assumptions: []string{"non-negative half-widths; end points that fit an int64"},
		Units: func(th bool) []drv.Unit {
			wide := mk([]int64{-3, -2, -1, 0, 1, 2, 3, 5}, []int64{0, 1, 2, 3, 4, 7})
			mid := mk([]int64{-2, -1, 0, 1, 3}, []int64{0, 1, 2, 4})
			few := mk([]int64{-2, 0, 1}, []int64{0, 1, 2, 3, 5})
			pts := mk([]int64{-2, -1, 0, 1, 2, 4}, []int64{0, 1, 2, 4})
			tiny := mk([]int64{0, 1, 3}, []int64{1, 2})
			dozen := mk([]int64{-1, 0, 2}, []int64{0, 1, 2, 3})
			far := []iv{{math.MaxInt64 - 5, 5}, {math.MaxInt64, 0}, {math.MinInt64, 0}, {math.MinInt64 + 9, 9}, {0, math.MaxInt64}, {-1, math.MaxInt64}, {1, math.MaxInt64 - 1}, {math.MaxInt64 / 2, math.MaxInt64 / 2}, {1 << 40, 1 << 40}, {-1 << 40, 1 << 33}}
			sizes := []int{10, 11, 20, 21, 40, 63, 64, 65, 100, 127, 128, 129, 257, 1000}
			if !th {
				sizes = sizes[:13]
			}
			us := []drv.Unit{
				{Name: "none", Body: grid(0, wide, true)},
				{Name: "one", Body: grid(1, wide, true)},
				{Name: "two", Body: grid(2, wide, true)},
				{Name: "three", Shards: 8, Split: 1, Body: grid(3, wide, true)},
				{Name: "four", Shards: 8, Split: 1, Body: grid(4, mid, true)},
				{Name: "five", Shards: 8, Split: 1, Body: grid(5, few, true)},
				{Name: "five-pts", Shards: 8, Split: 1, Body: grid(5, pts, false)},
				{Name: "six", Shards: 8, Split: 1, Body: grid(6, tiny, true)},
				{Name: "seven", Shards: 8, Split: 1, Body: grid(7, dozen, false)},
				{Name: "thirteen", Body: grid(13, []iv{{0, 1}, {1, 0}, {2, 1}, {0, 2}}, false)},
				{Name: "crowds", Shards: 8, Split: 2, Body: crowds(sizes)},
				{Name: "far-1", Body: grid(1, far, true)},
				{Name: "far-2", Body: grid(2, far, true)},
				{Name: "far-3", Body: grid(3, far, true)},
				{Name: "far-4", Body: grid(4, far, true)},
			}
			if th {
				us = append(us,
					drv.Unit{Name: "four-wide", Shards: 8, Split: 1, Body: grid(4, wide, true)},
					drv.Unit{Name: "five-all", Shards: 8, Split: 1, Body: grid(5, pts, true)},
					drv.Unit{Name: "six-all", Shards: 8, Split: 1, Body: grid(6, dozen, true)},
					drv.Unit{Name: "seven-all", Shards: 8, Split: 1, Body: grid(7, tiny, true)},
					drv.Unit{Name: "nine", Shards: 8, Split: 1, Body: grid(9, dozen, false)},
					drv.Unit{Name: "twentyfive", Body: grid(25, []iv{{0, 1}, {1, 0}, {2, 1}, {0, 2}}, false)},
				)
			}
			return us
		},
	})
}
