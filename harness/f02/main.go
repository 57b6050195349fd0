// F02: optional parameters are applied in order, the constructor runs once.
package main

import (
	"errors"

	"github.com/unsafe-risk/utilx/configx/optionalx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type param struct{ trace []int }
type built struct{ p *param }

var boom = errors.New("boom")

// kinds of option function; each records the pointer it was given.
const (
	appendOne = iota // changes the parameter in place, making one if there is none
	double           // changes it in place in a way that does not commute
	replace          // returns a new parameter
	copying          // returns a changed copy
	drop             // returns none
	keep             // returns what it was given
	throws           // panics
	kinds
)

func apply(k, tag int, p *param) *param {
	switch k {
	case appendOne:
		if p == nil {
			p = &param{}
		}
		p.trace = append(p.trace, tag)
	case double:
		if p != nil {
			p.trace = append(p.trace, p.trace...)
		}
	case replace:
		p = &param{trace: []int{-tag}}
	case copying:
		q := &param{trace: []int{100 + tag}}
		if p != nil {
			q.trace = append(q.trace, p.trace...)
		}
		p = q
	case drop:
		p = nil
	case throws:
		panic(boom)
	}
	return p
}

func same(a, b *param) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if len(a.trace) != len(b.trace) {
		return false
	}
	for i := range a.trace {
		if a.trace[i] != b.trace[i] {
			return false
		}
	}
	return true
}

func sequences(max int, kinds int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		ks := make([]int, n)
		for i := range ks {
			ks[i] = vsched.Choose(kinds)
		}
		ctor := vsched.Choose(3) // returns an object, none, or panics
		spread := vsched.Choose(2)

		var calls []int
		var last *param // what the previous function returned
		fs := make([]func(*param) *param, n)
		for i := range fs {
			i := i
			fs[i] = func(p *param) *param {
				calls = append(calls, i)
				if p != last {
					vsched.Fail("function %d of %v got another parameter than the one before returned", i, ks)
				}
				last = apply(ks[i], i+1, p)
				return last
			}
		}
		if n == 0 && spread == 1 {
			fs = nil
		}
		made := 0
		var given *param
		res := &built{}
		f := func(p *param) *built {
			made++
			given = p
			if ctor == 2 {
				panic(boom)
			}
			if ctor == 1 {
				return nil
			}
			res.p = p
			return res
		}
		var got *built
		var thrown any
		func() {
			defer func() { thrown = recover() }()
			got = optionalx.Parameter(f, fs...)
		}()

		// reference
		var want *param
		ran := 0
		dead := false
		for i, k := range ks {
			ran = i + 1
			if k == throws {
				dead = true
				break
			}
			want = apply(k, i+1, want)
		}
		if len(calls) != ran {
			vsched.Fail("%v: functions %v ran, want the first %d once each", ks, calls, ran)
		}
		for i, c := range calls {
			if c != i {
				vsched.Fail("%v: functions ran in the order %v", ks, calls)
			}
		}
		if dead {
			if thrown != boom || made != 0 {
				vsched.Fail("%v: a panicking function gave %v, the constructor ran %d times", ks, thrown, made)
			}
			return
		}
		if made != 1 {
			vsched.Fail("%v: the constructor ran %d times", ks, made)
		}
		if given != last || !same(given, want) {
			vsched.Fail("%v: the constructor got %v, want %v", ks, given, want)
		}
		switch ctor {
		case 0:
			if thrown != nil || got != res {
				vsched.Fail("%v: the result is not what the constructor returned (%v)", ks, thrown)
			}
		case 1:
			if thrown != nil || got != nil {
				vsched.Fail("%v: the constructor returned nothing, Parameter %v (%v)", ks, got, thrown)
			}
		case 2:
			if thrown != boom {
				vsched.Fail("%v: a panicking constructor gave %v", ks, thrown)
			}
		}
	}
}

// long lists of options, and reusing the same functions for several objects.
func long() {
	n := vsched.Choose(73)
	if n >= 70 {
		n = []int{257, 1025, 70000}[n-70]
	}
	type num struct{ v, n int }
	fs := make([]func(*num) *num, n)
	want := 0
	for i := range fs {
		i := i
		fs[i] = func(p *num) *num {
			if p == nil {
				p = &num{}
			}
			return &num{v: (p.v*31 + i + 1) % 1000003, n: p.n + 1}
		}
		want = (want*31 + i + 1) % 1000003
	}
	for round := 0; round < 3; round++ {
		r := optionalx.Parameter(func(p *num) *num {
			if p == nil {
				return &num{}
			}
			return p
		}, fs...)
		drv.Eq("number of functions", r.n, n)
		drv.Eq("value", r.v, want)
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "F02",
		Level:       "model_checking",
		Rule:        "every sequence of option functions of seven kinds (change in place, replace, copy, drop, keep, panic), with a constructor that builds, returns nothing or panics; every number of options to 69, built three times",
		Bounds:      "sequences up to 5 (7); short runs on 22 types of every shape (zero size, large, not comparable, nil, NaN)",
		Assumptions: []string{},
		Units: func(th bool) []drv.Unit {
			n := 5
			if th {
				n = 7
			}
			return []drv.Unit{
				{Name: "sequences", Shards: 8, Split: 3, Body: sequences(n, kinds)},
				{Name: "shapes", Body: func() { everyShape[vsched.Choose(len(everyShape))]() }},
				{Name: "long", Body: long},
			}
		},
	})
}
