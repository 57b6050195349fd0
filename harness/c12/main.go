// C12: scoped closing runs every closer exactly once however the body ends.
package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/unsafe-risk/utilx/iox/usingx"
	"verif.local/mc/harness/known"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// a run's observations; -1 is the body.
type run struct{ log []int }

type closer struct {
	id  int
	err error
	cur **run
}

func (c *closer) Close() error {
	(*c.cur).log = append((*c.cur).log, c.id)
	return c.err
}

type nilErr struct{}

func (*nilErr) Error() string { return "typed nil" }

var shared = errors.New("shared")

func kindErr(k, i int) error {
	switch k {
	case 0:
		return nil
	case 1:
		return fmt.Errorf("closer %d", i)
	case 2:
		return shared
	default:
		return (*nilErr)(nil)
	}
}

type custom struct{ n int }

// wellKnown: closers returning errors that callers like to ignore; none is
// left out of the result.
func wellKnown(pairs bool) func() {
	return func() {
		end := []int{returns, panicString, goexit}[vsched.Choose(3)]
		var cur *run
		var cs []*closer
		var ios []io.Closer
		var errs []error
		add := func(e error) {
			c := &closer{len(cs), e, &cur}
			cs, ios = append(cs, c), append(ios, c)
			if e != nil {
				errs = append(errs, e)
			}
		}
		e := known.Errors[vsched.Choose(len(known.Errors))]
		if pairs {
			add(known.Errors[vsched.Choose(len(known.Errors))])
			add(e)
		} else {
			shape := vsched.Choose(5)
			if shape == 1 || shape == 3 {
				add(nil)
			}
			add(e)
			switch shape {
			case 2:
				add(shared)
				add(nil)
			case 3:
				add(e)
			case 4:
				add(e)
				add(nil)
				add(shared)
				add(e)
			}
		}
		check(cs, errs, &cur, usingx.Close(ios...), end)
	}
}

const (
	returns = iota
	panicString
	panicError
	panicStruct
	panicNilPtr
	panicRuntime
	panicNil
	goexit
	recovered // panics inside but recovers itself
	nestedUse
	endings
)

func body(end int, r *run) func() {
	return func() {
		r.log = append(r.log, -1)
		switch end {
		case panicString:
			panic("boom")
		case panicError:
			panic(shared)
		case panicStruct:
			panic(custom{7})
		case panicNilPtr:
			panic((*custom)(nil))
		case panicRuntime:
			var a []int
			_ = a[len(r.log)]
		case panicNil:
			panic(nil)
		case goexit:
			runtime.Goexit()
		case recovered:
			func() {
				defer func() { recover() }()
				panic("inner")
			}()
		case nestedUse:
			var ir run
			irp := &ir
			e := usingx.Close(&closer{5, shared, &irp})(func() { ir.log = append(ir.log, -1) })
			drv.EqSlice("inner calls", ir.log, []int{-1, 5})
			if len(e) != 1 || e[0] != shared {
				vsched.Fail("inner result %v", e)
			}
		}
	}
}

func check(closers []*closer, errs []error, cur **run, use func(func()) []error, end int) {
	r := &run{}
	*cur = r
	normal, exited := false, true
	var got []error
	var pv any
	t := vsched.GoNamed("user", func() {
		func() {
			defer func() {
				if !normal {
					if v := recover(); v != nil {
						if vsched.IsAbort(v) {
							panic(v)
						}
						pv = v
						exited = false
					}
				}
			}()
			got = use(body(end, r))
			normal = true
		}()
		exited = false
	})
	vsched.Join(t)
	want := []int{-1}
	for _, c := range closers {
		want = append(want, c.id)
	}
	drv.EqSlice("calls (-1 is the function)", r.log, want)
	switch end {
	case returns, recovered, nestedUse:
		if !normal {
			vsched.Fail("no normal return (panic %v)", pv)
		}
		if len(errs) == 0 && got != nil {
			vsched.Fail("result %#v, want nil", got)
		}
		if len(got) != len(errs) {
			vsched.Fail("errors %v, want %v", got, errs)
		}
		for i := range got {
			if !known.Same(got[i], errs[i]) {
				vsched.Fail("errors %v, want %v", got, errs)
			}
		}
	case goexit:
		if !exited || normal || pv != nil {
			vsched.Fail("ending the goroutine was swallowed (normal=%v panic=%v)", normal, pv)
		}
	default:
		if normal || exited {
			vsched.Fail("the panic was swallowed")
		}
		ok := false
		switch end {
		case panicString:
			ok = pv == "boom"
		case panicError:
			ok = pv == any(shared)
		case panicStruct:
			ok = pv == any(custom{7})
		case panicNilPtr:
			p, k := pv.(*custom)
			ok = k && p == nil
		case panicRuntime:
			_, ok = pv.(runtime.Error)
		case panicNil:
			_, ok = pv.(*runtime.PanicNilError)
		}
		if !ok {
			vsched.Fail("the panic value became %v", pv)
		}
	}
}

func build(n, kinds int, cur **run) ([]*closer, []io.Closer, []error) {
	var cs []*closer
	var ios []io.Closer
	var errs []error
	for i := 0; i < n; i++ {
		c := &closer{i, kindErr(vsched.Choose(kinds), i), cur}
		cs = append(cs, c)
		ios = append(ios, c)
		if c.err != nil {
			errs = append(errs, c.err)
		}
	}
	return cs, ios, errs
}

// combos: every ending and error pattern; the runner is used twice.
func combos(maxN int) func() {
	return func() {
		end := vsched.Choose(endings)
		n := vsched.Choose(maxN + 1)
		var cur *run
		cs, ios, errs := build(n, 4, &cur)
		use := usingx.Close(ios...)
		check(cs, errs, &cur, use, end)
		again := vsched.Choose(3)
		if again > 0 {
			check(cs, errs, &cur, use, []int{returns, panicString}[again-1])
		}
	}
}

func many() {
	end := []int{returns, panicString, goexit}[vsched.Choose(3)]
	n := vsched.Choose(73)
	if n >= 70 {
		n = []int{257, 1025, 5000}[n-70]
	}
	fail := vsched.Choose(2)
	var cur *run
	var cs []*closer
	var ios []io.Closer
	var errs []error
	for i := 0; i < n; i++ {
		c := &closer{i, kindErr(fail, i), &cur}
		cs, ios = append(cs, c), append(ios, c)
		if c.err != nil {
			errs = append(errs, c.err)
		}
	}
	check(cs, errs, &cur, usingx.Close(ios...), end)
}

// parallel: two goroutines each use their own closers, or one runner.
type pcloser struct {
	id  int
	err error
	n   vsched.Counter
}

func (p *pcloser) Close() error {
	p.n.Add(1)
	vsched.Point("closing")
	return p.err
}

func parallel(sharedRunner bool) func() {
	return func() {
		mk := func(base int) ([]*pcloser, func(func()) []error) {
			a, b := &pcloser{id: base, err: fmt.Errorf("e%d", base)}, &pcloser{id: base + 1, err: fmt.Errorf("e%d", base+1)}
			return []*pcloser{a, b}, usingx.Close(a, b)
		}
		c0, u0 := mk(0)
		c1, u1 := c0, u0
		if !sharedRunner {
			c1, u1 = mk(10)
		}
		var ts []*vsched.Thread
		for i := 0; i < 2; i++ {
			cs, use := c0, u0
			if i == 1 {
				cs, use = c1, u1
			}
			ts = append(ts, vsched.GoNamed("user", func() {
				n := 0
				errs := use(func() { n++; vsched.Point("body") })
				if n != 1 {
					vsched.Fail("the function ran %d times", n)
				}
				if len(errs) != 2 || errs[0] != cs[0].err || errs[1] != cs[1].err {
					vsched.Fail("errors %v", errs)
				}
			}))
		}
		vsched.Join(ts...)
		want := int64(1)
		if sharedRunner {
			want = 2
		}
		for _, c := range append(append([]*pcloser{}, c0...), c1...) {
			if c.n.Get() != want {
				vsched.Fail("closer %d closed %d times, want %d", c.id, c.n.Get(), want)
			}
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C12",
		Level:       "fault_enumeration",
		Rule:        "every combination of up to 4 (5) closers with 4 kinds of result each and 10 ways for the function to end (return, 6 kinds of panic, goroutine exit, recovered panic, nested use), the same runner used once or twice; closers returning any of 220 errors of the standard library or of odd types, alone, repeated, among others and in pairs; lists of up to 69 closers; two goroutines in all interleavings",
		Bounds:      "4 closers (5 in the thorough tier), up to 5000 in uniform lists, 2 goroutines",
		Assumptions: []string{"closers return (they do not panic)"},
		Units: func(th bool) []drv.Unit {
			n := 4
			if th {
				n = 5
			}
			us := []drv.Unit{
				{Name: "combinations", Thread: true, Delay: true, Shards: 8, Split: 4, Body: combos(n)},
				{Name: "well-known-errors", Thread: true, Delay: true, Shards: 2, Split: 2, Body: wellKnown(false)},
				{Name: "well-known-pairs", Thread: true, Delay: true, Shards: 2, Split: 2, Body: wellKnown(true)},
				{Name: "many", Thread: true, Delay: true, Body: many},
			}
			us = append(us, drv.Bounds(drv.Unit{Name: "parallel", Body: parallel(false)}, 12, 12)...)
			us = append(us, drv.Bounds(drv.Unit{Name: "parallel-one-runner", Body: parallel(true)}, 12, 12)...)
			return us
		},
	})
}
