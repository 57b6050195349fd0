// D07: slice editing matches its model and never panics for any index.
package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"verif.local/mc/harness/slx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vrand"
	"verif.local/mc/mc/vsched"
)

// start chooses a slice: several lengths and spare capacities, or nil.
func start(maxN int, fresh func() int) *slx.Obj {
	n := vsched.Choose(maxN + 2)
	if n > maxN {
		return &slx.Obj{S: slicex.New[int]()}
	}
	return slx.Make(n, []int{0, 1, 3}[vsched.Choose(3)], fresh)
}

func one(ops []slx.Op) slx.Op { return ops[vsched.Choose(len(ops))] }

// single: every operation with every argument.
func single(maxN int) func() {
	return func() {
		fresh := slx.Fresh()
		o := start(maxN, fresh)
		n := len(o.M)
		ex := slx.Extremes(n)
		pick := func() int { return ex[vsched.Choose(len(ex))] }
		var op slx.Op
		switch vsched.Choose(5) {
		case 0:
			op = one(slx.Plain())
		case 1:
			op = one(slx.One(pick()))
		case 2:
			op = one(slx.Two(pick(), pick()))
		case 3:
			op = slx.Filter(vsched.Choose(1 << uint(n)))
		case 4:
			if n > 0 {
				return
			}
			op = slx.RepeatEmpty(pick())
		}
		slx.Do(o, op, fresh)
	}
}

func splits(maxN, args int) func() {
	return func() {
		fresh := slx.Fresh()
		o := start(maxN, fresh)
		ex := slx.Extremes(len(o.M))
		k := vsched.Choose(args + 1)
		var s []int
		for i := 0; i < k; i++ {
			s = append(s, ex[vsched.Choose(len(ex))])
		}
		slx.Do(o, slx.Split(s...), fresh)
	}
}

// sequences of operations.
func sequences(maxN, depth int, short bool) func() {
	return func() {
		fresh := slx.Fresh()
		o := start(maxN, fresh)
		for d := 0; d < depth; d++ {
			ops := slx.Menu(len(o.M), d < depth-1)
			if short && d < depth-1 {
				ops = slx.Short(len(o.M))
			}
			slx.Do(o, one(ops), fresh)
		}
	}
}

// long: bigger slices, each operation at a few places.
func long() {
	fresh := slx.Fresh()
	n := []int{15, 16, 17, 31, 33, 64, 65, 255, 257, 1024}[vsched.Choose(10)]
	o := slx.Make(n, []int{0, 1, 2 * n}[vsched.Choose(3)], fresh)
	at := []int{-1, 0, 1, n/2 - 1, n / 2, n - 1, n, n + 1, -n / 2}
	pick := func() int { return at[vsched.Choose(len(at))] }
	var op slx.Op
	switch vsched.Choose(5) {
	case 0:
		op = one(slx.Plain())
	case 1:
		op = one(slx.One(pick()))
	case 2:
		op = one(slx.Two(pick(), pick()))
	case 3:
		op = slx.Filter([]int{0, 1, -1, 0x5555555555555555, 1 << 40}[vsched.Choose(5)])
	case 4:
		op = slx.Split(pick(), pick())
	}
	slx.Do(o, op, fresh)
	for i := 0; i < 3; i++ {
		slx.Do(o, slx.Plain()[i], fresh)
	}
}

// shuffle: every answer of the random source gives a permutation, and the
// chosen permutation is one of them.
func shuffle(maxN int) func() {
	return func() {
		n := vsched.Choose(maxN + 1)
		fact := 1
		for i := 2; i <= n; i++ {
			fact *= i
		}
		target := perm(n, vsched.Choose(fact))
		key := fmt.Sprint(target)
		found := false
		try := func() {
			s := make(slx.S, n)
			for i := range s {
				s[i] = i
			}
			r := s.Shuffle()
			if r == nil || len(*r) != n || len(s) != n {
				vsched.Fail("Shuffle changes the length: %v", s)
			}
			seen := make([]bool, n)
			for _, v := range s {
				if v < 0 || v >= n || seen[v] {
					vsched.Fail("Shuffle gives %v, not a permutation", s)
				}
				seen[v] = true
			}
			if fmt.Sprint([]int(s)) == key {
				found = true
			}
		}
		// odometer over the random answers
		var digits, radix []int
		pos := 0
		drew := 0
		vrand.Pick = func(k int) int {
			drew++
			if pos == len(digits) {
				digits, radix = append(digits, 0), append(radix, k)
			}
			radix[pos] = k
			pos++
			return digits[pos-1]
		}
		defer func() { vrand.Pick = nil }()
		for {
			pos = 0
			drv.NoPanic("Shuffle", try)
			digits, radix = digits[:pos], radix[:pos]
			i := pos - 1
			for i >= 0 && digits[i] == radix[i]-1 {
				i--
			}
			if i < 0 {
				break
			}
			digits[i]++
			digits, radix = digits[:i+1], radix[:i+1]
		}
		if drew == 0 && n > 1 {
			// another random source: look for a witness
			for t := 0; t < 400*fact && !found; t++ {
				try()
			}
		}
		if !found {
			vsched.Fail("no answer of the random source gives the permutation %v", target)
		}
	}
}

func perm(n, k int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	var r []int
	for m := n; m > 0; m-- {
		i := k % m
		k /= m
		r = append(r, a[i])
		a = append(a[:i], a[i+1:]...)
	}
	return r
}

// shuffleLong: a long slice keeps its elements.
func shuffleLong() {
	n := []int{10, 63, 100, 1000}[vsched.Choose(4)]
	vrand.Pick = func(k int) int { return k / 2 }
	defer func() { vrand.Pick = nil }()
	s := make(slx.S, n)
	for i := range s {
		s[i] = i
	}
	s.Shuffle()
	seen := map[int]bool{}
	for _, v := range s {
		seen[v] = true
	}
	if len(s) != n || len(seen) != n || seen[-1] {
		vsched.Fail("Shuffle of %d elements loses some", n)
	}
}

type pt struct{ X, Y int }

// typed: other element types.
func typed() {
	a, b := drv.NewTok(1), drv.NewTok(2)
	s := slicex.New(a, b, nil)
	if s.Len() != 3 || s.Get(5) != nil || s.Get(0) != a || s.IndexOf(func(t *drv.Tok) bool { return t == nil }) != 2 {
		vsched.Fail("pointers: %v", *s)
	}
	s.Insert(1, b).Delete(0)
	if s.Len() != 3 || s.Get(0) != b || s.Get(1) != b || s.Get(2) != nil {
		vsched.Fail("pointers: %v", *s)
	}
	if v := slicex.New[*drv.Tok]().Pop(); v != nil {
		vsched.Fail("Pop of nothing: %v", v)
	}
	drv.Eq("Join of strings", slicex.New("a", "", "c").Join("+"), "a++c")
	drv.Eq("Join of structs", slicex.New(pt{1, 2}, pt{3, 4}).Join(";"), fmt.Sprintf("%v;%v", pt{1, 2}, pt{3, 4}))
	drv.Eq("Join of nothing", slicex.New[string]().Join("+"), "")
	drv.Eq("Join of errors", slicex.New[error](fmt.Errorf("x"), nil).Join("|"), fmt.Sprintf("%v|%v", fmt.Errorf("x"), nil))
	str := slicex.New("x", "y")
	drv.Eq("Shift", str.Shift(), "x")
	drv.Eq("Shift", str.Shift(), "y")
	drv.Eq("Shift", str.Shift(), "")
	drv.EqSlice("Extend of strings", str.Extend(2).Finalize(), []string{"", ""})
}

func main() {
	drv.Main(drv.Check{
		ID:          "D07",
		Level:       "exploration",
		Rule:        "every operation with every argument from a set of in-range, boundary and extreme integers, on every slice length up to N and several spare capacities; every sequence of operations up to a depth; every answer of the random source for Shuffle; long slices at selected places",
		Bounds:      "lengths 0-5 (0-7) and nil; Split with up to 3 (4) arguments; sequences of 2 (3) operations with all arguments from lengths 0-4 (0-5), and 3 (4) with ordinary arguments before the last; Shuffle up to 5 (6) elements; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{"sizes and counts whose result fits in memory"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "single", Shards: 8, Split: 4, Body: single(x(5, 7))},
				{Name: "split", Shards: 8, Split: 4, Body: splits(x(5, 6), x(3, 4))},
				{Name: "sequences", Shards: 8, Split: 3, Body: sequences(x(4, 5), x(2, 3), false)},
				{Name: "sequences-short", Shards: 8, Split: 3, Body: sequences(2, x(3, 4), true)},
				{Name: "long", Shards: 4, Split: 3, Body: long},
				{Name: "shuffle", Shards: 4, Split: 2, Body: shuffle(x(5, 6))},
				{Name: "shuffle-long", Body: shuffleLong},
				{Name: "shapes", Shards: 4, Split: 2, Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				{Name: "types", Body: typed},
			}
		},
	})
}
