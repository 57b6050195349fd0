// F01: option and result matching run exactly one branch, once.
package main

import (
	"errors"

	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type probe struct{ f, g int }

var errA, errB = errors.New("a"), errors.New("b")

func check(what string, p probe, f, g int) {
	if p.f != f || p.g != g {
		vsched.Fail("%s: the first branch ran %d times and the second %d, want %d and %d", what, p.f, p.g, f, g)
	}
}

// panics runs f and returns what it panicked with.
func panics(f func()) (v any) {
	defer func() { v = recover() }()
	f()
	return nil
}

// option explores one type: holding or not, every stored value, up to three
// matches in a row, each branch giving every value and error, or panicking,
// or missing when it is not the one to run.
func option[T comparable](vals []T) func() {
	return func() {
		var o optionx.Option[T]
		have := vsched.Choose(3)
		var stored T
		switch have {
		case 0:
			stored = vals[vsched.Choose(len(vals))]
			o = optionx.Some(stored)
		case 1:
			o = optionx.None[T]()
		case 2: // the zero option holds nothing
		}
		for step := 0; step < 3; step++ {
			var p probe
			rv := vals[vsched.Choose(len(vals))]
			var re error
			mode := vsched.Choose(4) // no error, an error, panic, only one branch given
			if mode == 1 {
				re = errA
			}
			f := func(v T) (T, error) {
				p.f++
				if v != stored {
					vsched.Fail("the branch got %v, stored %v", v, stored)
				}
				if mode == 2 {
					panic(errB)
				}
				return rv, re
			}
			g := func() (T, error) {
				p.g++
				if mode == 2 {
					panic(errB)
				}
				return rv, re
			}
			if mode == 3 {
				if have == 0 {
					g = nil
				} else {
					f = nil
				}
			}
			if mode == 2 {
				if got := panics(func() { o.Match(f, g) }); got != errB {
					vsched.Fail("a panicking branch gave %v", got)
				}
			} else {
				var v T
				var err error
				drv.NoPanic("Match", func() { v, err = o.Match(f, g) })
				if v != rv || err != re {
					vsched.Fail("Match returned %v and %v, the branch %v and %v", v, err, rv, re)
				}
			}
			if have == 0 {
				check("option", p, 1, 0)
			} else {
				check("option", p, 0, 1)
			}
		}
	}
}

func result[T, E comparable](vals []T, errs []E) func() {
	return func() {
		var r resultx.Result[T, E]
		ok := vsched.Choose(2) == 0
		var sv T
		var se E
		if ok {
			sv = vals[vsched.Choose(len(vals))]
			r = resultx.Ok[T, E](sv)
		} else {
			se = errs[vsched.Choose(len(errs))]
			r = resultx.Err[T, E](se)
		}
		for step := 0; step < 3; step++ {
			var p probe
			rv := vals[vsched.Choose(len(vals))]
			re := errs[vsched.Choose(len(errs))]
			mode := vsched.Choose(3)
			f := func(v T) (T, E) {
				p.f++
				if v != sv {
					vsched.Fail("the success branch got %v, stored %v", v, sv)
				}
				if mode == 1 {
					panic(errB)
				}
				return rv, re
			}
			g := func(e E) (T, E) {
				p.g++
				if e != se {
					vsched.Fail("the error branch got %v, stored %v", e, se)
				}
				if mode == 1 {
					panic(errB)
				}
				return rv, re
			}
			if mode == 2 {
				if ok {
					g = nil
				} else {
					f = nil
				}
			}
			if mode == 1 {
				if got := panics(func() { r.Match(f, g) }); got != errB {
					vsched.Fail("a panicking branch gave %v", got)
				}
			} else {
				var v T
				var e E
				drv.NoPanic("Match", func() { v, e = r.Match(f, g) })
				if v != rv || e != re {
					vsched.Fail("Match returned %v and %v, the branch %v and %v", v, e, rv, re)
				}
			}
			if ok {
				check("result", p, 1, 0)
			} else {
				check("result", p, 0, 1)
			}
		}
	}
}

// nested: a branch matches another option, and chains of them.
func nested() {
	type O = optionx.Option[int]
	x := vsched.Choose(2)
	y := vsched.Choose(2)
	in := optionx.None[int]()
	if y == 1 {
		in = optionx.Some(0)
	}
	o := optionx.None[O]()
	if x == 1 {
		o = optionx.Some(in)
	}
	var log string
	leaf := func(name string) (int, error) { log += name; return 1, nil }
	_, err := o.Match(func(i O) (O, error) {
		log += "some "
		v, err := i.Match(func(int) (int, error) { return leaf("some") }, func() (int, error) { return leaf("none") })
		return optionx.Some(v), err
	}, func() (O, error) { log += "none"; return in, errA })
	want := "none"
	if x == 1 {
		want = "some none"
		if y == 1 {
			want = "some some"
		}
	}
	drv.Eq("branches", log, want)
	if (err == errA) != (x == 0) {
		vsched.Fail("the error is %v", err)
	}
	// copies are independent of what is done with the original
	c := o
	o = optionx.None[O]()
	hit := 0
	c.Match(func(O) (O, error) { hit++; return in, nil }, func() (O, error) { return in, nil })
	drv.Eq("present in the copy", hit, x)
}

type pair struct {
	a int
	b string
}

func main() {
	one, two := 1, 2
	drv.Main(drv.Check{
		ID:          "F01",
		Level:       "model_checking",
		Rule:        "every way to make an option or a result, every stored value (zero, nil and nested included), three matches in a row, each with every returned value and error, a panicking branch and a missing other branch; ten type instances",
		Bounds:      "three matches; 2 to 4 values per type; short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{},
		Units: func(th bool) []drv.Unit {
			return []drv.Unit{
				{Name: "option-int", Body: option([]int{0, 1, -1})},
				{Name: "option-string", Body: option([]string{"", "x", "\x00"})},
				{Name: "option-bool", Body: option([]bool{false, true})},
				{Name: "option-pointer", Body: option([]*int{nil, &one, &two})},
				{Name: "option-error", Body: option([]error{nil, errA, errB})},
				{Name: "option-any", Body: option([]any{nil, 0, "", (*int)(nil)})},
				{Name: "option-struct", Body: option([]pair{{}, {1, "x"}, {0, "x"}})},
				{Name: "option-empty", Body: option([]struct{}{{}})},
				{Name: "option-nested", Body: option([]optionx.Option[int]{optionx.None[int](), optionx.Some(0), optionx.Some(1)})},
				{Name: "result-int-error", Body: result([]int{0, 1, -1}, []error{nil, errA, errB})},
				{Name: "result-error-error", Body: result([]error{nil, errA}, []error{nil, errB})},
				{Name: "result-string-int", Body: result([]string{"", "x"}, []int{0, 7})},
				{Name: "result-pointer-any", Body: result([]*int{nil, &one}, []any{nil, 0, errA})},
				{Name: "result-nested", Body: result([]resultx.Result[int, error]{resultx.Ok[int, error](0), resultx.Err[int](errA)}, []optionx.Option[int]{optionx.None[int](), optionx.Some(0)})},
				{Name: "shapes", Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				{Name: "nested", Body: nested},
			}
		},
	})
}
