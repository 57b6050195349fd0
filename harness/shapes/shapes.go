// Package shapes has value types of every shape, so that generic code can be
// run on all of them: zero sized, huge, not comparable, nil, not equal to
// themselves.
package shapes

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
)

// Box makes N different values of a type, the zero value first, and recognises
// them; -1 is none of them.
type Box[T any] struct {
	Name string
	N    int
	Make func(i int) T
	ID   func(v T) int
}

type (
	Huge  [300]int64
	Named string
	Mixed struct {
		A byte
		S string
		F float64
		B []byte
		P *Mixed
	}
	Typed  struct{ n int }
	Method interface{ String() string }
	Inner  struct{ struct1 struct{ x, y int16 } }
)

func (t *Typed) Error() string {
	if t == nil {
		return "none"
	}
	return fmt.Sprint(t.n)
}
func (n Named) String() string { return string(n) }

var (
	ints  [4]int
	chans = [4]chan int{nil, make(chan int), make(chan int, 1), make(chan int)}
	errs  = []error{nil, io.EOF, errors.New("EOF"), (*Typed)(nil), &Typed{1}, fmt.Errorf("x: %w", io.EOF)}
	mixed = [4]*Mixed{nil, {}, {A: 1}, {S: "x"}}
	funcs = func() (r [4]func() int) {
		for i := 1; i < 4; i++ {
			i := i
			r[i] = func() int { return i }
		}
		return
	}()
	meths = []Method{nil, Named(""), Named("x"), Named("y")}
)

func index[T comparable](all []T) func(T) int {
	return func(v T) int {
		for i, w := range all {
			if v == w {
				return i
			}
		}
		return -1
	}
}

func list[T comparable](name string, all ...T) Box[T] {
	return Box[T]{name, len(all), func(i int) T { return all[i] }, index(all)}
}

var (
	Empty      = list("struct{}", struct{}{})
	EmptyArray = list("[0]int", [0]int{})
	Bool       = list("bool", false, true)
	Byte       = list[byte]("byte", 0, 1, 255)
	Int64      = list[int64]("int64", 0, 1, -1, math.MaxInt64, math.MinInt64)
	Complex    = list[complex128]("complex128", 0, 1, 1i)
	String     = list("string", "", "\x00", "a", "<nil>", strings.Repeat("long", 2000))
	Stringer   = list("named string", Named(""), "x", "y")
	Error      = list("error", errs...)
	Interface  = list("interface", meths...)
	Pointer    = list("*int", nil, &ints[1], &ints[2], &ints[3])
	Mixeds     = list("*struct", mixed[:]...)
	Chan       = list("chan", chans[:]...)
	Uintptr    = list[uintptr]("uintptr", 0, 1, ^uintptr(0))
	Nested     = list("struct of struct", Inner{}, Inner{struct{ x, y int16 }{1, 0}}, Inner{struct{ x, y int16 }{0, 1}})
	Float      = Box[float64]{"float64", 6, func(i int) float64 {
		return []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1.5}[i]
	}, func(v float64) int {
		for i, w := range []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1.5} {
			if math.Float64bits(v) == math.Float64bits(w) {
				return i
			}
		}
		return -1
	}}
	Func = Box[func() int]{"func", 4, func(i int) func() int { return funcs[i] }, func(v func() int) int {
		if v == nil {
			return 0
		}
		return v()
	}}
	Slice = Box[[]int]{"slice", 4, func(i int) []int {
		return [][]int{nil, {}, {2}, {3, 3}}[i]
	}, func(v []int) int {
		switch {
		case v == nil:
			return 0
		case len(v) == 0:
			return 1
		case len(v) == v[0]-1 && v[0] == v[len(v)-1]:
			return v[0]
		}
		return -1
	}}
	Map = Box[map[string]int]{"map", 4, func(i int) map[string]int {
		return []map[string]int{nil, {}, {"": 2}, {"": 3, "x": 4}}[i]
	}, func(v map[string]int) int {
		switch {
		case v == nil:
			return 0
		case len(v) == 0:
			return 1
		case len(v) == v[""]-1:
			return v[""]
		}
		return -1
	}}
	Large = Box[Huge]{"[300]int64", 4, func(i int) (h Huge) {
		for k := range h {
			h[k] = int64(i * (k + 1))
		}
		return
	}, func(v Huge) int {
		for k := range v {
			if v[k] != v[0]*int64(k+1) {
				return -1
			}
		}
		return int(v[0])
	}}
	Struct = Box[Mixed]{"struct", 4, func(i int) Mixed {
		return []Mixed{{}, {A: 1, B: []byte{}}, {S: "x", F: math.NaN()}, {A: 3, S: "y", F: 1, B: []byte{1}, P: mixed[2]}}[i]
	}, func(v Mixed) int {
		switch {
		case v.A == 0 && v.S == "" && v.F == 0 && v.B == nil && v.P == nil:
			return 0
		case v.A == 1 && v.S == "" && v.F == 0 && v.B != nil && len(v.B) == 0 && v.P == nil:
			return 1
		case v.A == 0 && v.S == "x" && v.F != v.F && v.B == nil && v.P == nil:
			return 2
		case v.A == 3 && v.S == "y" && v.F == 1 && len(v.B) == 1 && v.B[0] == 1 && v.P == mixed[2]:
			return 3
		}
		return -1
	}}
	Any = Box[any]{"any", 16, func(i int) any {
		return []any{nil, 0, "", false, 1.5, (*int)(nil), &ints[1], []int(nil), []int{2}, map[string]int(nil), funcs[0], funcs[1], struct{}{}, (*Typed)(nil), math.NaN(), chans[1]}[i]
	}, func(v any) int {
		switch w := v.(type) {
		case nil:
			return 0
		case int:
			if w == 0 {
				return 1
			}
		case string:
			if w == "" {
				return 2
			}
		case bool:
			if !w {
				return 3
			}
		case float64:
			if w == 1.5 {
				return 4
			}
			if w != w {
				return 14
			}
		case *int:
			if w == nil {
				return 5
			}
			if w == &ints[1] {
				return 6
			}
		case []int:
			if w == nil {
				return 7
			}
			if len(w) == 1 && w[0] == 2 {
				return 8
			}
		case map[string]int:
			if w == nil {
				return 9
			}
		case func() int:
			if w == nil {
				return 10
			}
			return 10 + w()
		case struct{}:
			return 12
		case *Typed:
			if w == nil {
				return 13
			}
		case chan int:
			if w == chans[1] {
				return 15
			}
		}
		return -1
	}}
)
