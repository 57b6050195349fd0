// C11: the close manager closes everything once, in order, and reports every
// error.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"verif.local/mc/harness/known"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type manager interface {
	Append(io.Closer)
	Close() error
}

// pkg is the package-level default manager as an object.
type pkg struct{}

func (pkg) Append(c io.Closer) { closex.Append(c) }
func (pkg) Close() error       { return closex.Close() }

type closer struct {
	id    int
	err   error
	calls *[]int
}

func (c *closer) Close() error {
	*c.calls = append(*c.calls, c.id)
	return c.err
}

type valErr struct{ n int }

func (v valErr) Error() string { return fmt.Sprintf("value error %d", v.n) }

type nilErr struct{}

func (*nilErr) Error() string { return "typed nil error" }

type sliceErr []int

func (s sliceErr) Error() string { return fmt.Sprintf("uncomparable error %v", []int(s)) }

var shared = errors.New("shared error")

const kinds = 9

func kindErr(kind, i int) error {
	switch kind {
	case 0:
		return nil
	case 1:
		return fmt.Errorf("error of closer %d", i)
	case 2:
		return shared
	case 3:
		return closex.ErrorList{fmt.Errorf("inner a%d", i), fmt.Errorf("inner b%d", i)}
	case 4:
		return closex.ErrorList{}
	case 5:
		return fmt.Errorf("wrapping %d: %w", i, closex.ErrorList{shared, io.EOF})
	case 6:
		return (*nilErr)(nil)
	case 7:
		return valErr{i}
	case 8:
		return sliceErr{i}
	}
	panic("kind")
}

// same compares errors by identity where possible.
func same(a, b error) bool {
	switch x := a.(type) {
	case sliceErr:
		y, ok := b.(sliceErr)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	case closex.ErrorList:
		y, ok := b.(closex.ErrorList)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case sliceErr, closex.ErrorList:
		return false
	}
	return known.Same(a, b)
}

func compare(what string, got, want []error) {
	if len(got) != len(want) {
		vsched.Fail("%s: %d errors %v, want %d: %v", what, len(got), got, len(want), want)
	}
	for i := range got {
		if !same(got[i], want[i]) {
			vsched.Fail("%s: error %d is %v (%T), want %v (%T)", what, i, got[i], got[i], want[i], want[i])
		}
	}
}

func judge(err error, want []error) {
	if len(want) == 0 {
		if err != nil {
			vsched.Fail("nothing failed but Close returned %#v", err)
		}
		if l, ok := closex.AsErrs(err); ok || l != nil {
			vsched.Fail("AsErrs of nil: %v %v", l, ok)
		}
		return
	}
	if err == nil {
		vsched.Fail("Close returned nil though %v failed", want)
	}
	text := err.Error()
	at := 0
	for _, w := range want {
		k := strings.Index(text[at:], w.Error())
		if k < 0 {
			vsched.Fail("the text %q does not show %q in its place", text, w.Error())
		}
		at += k + len(w.Error())
	}
	for i, e := range []error{err, fmt.Errorf("outer: %w", err), errors.Join(errors.New("other"), err)} {
		l, ok := closex.AsErrs(e)
		if !ok {
			vsched.Fail("AsErrs does not recognise the error (wrapping %d)", i)
		}
		compare("AsErrs", l, want)
	}
}

func fresh(which int) manager {
	if which == 1 {
		closex.Default = closex.New()
		return pkg{}
	}
	return closex.New()
}

// sequential: every combination of closers and errors, with a second round of
// appends and closes.
func sequential(maxN int) func() {
	return func() {
		n := vsched.Choose(maxN + 1)
		var ks []int
		for i := 0; i < n; i++ {
			ks = append(ks, vsched.Choose(kinds))
		}
		m := fresh(vsched.Choose(2))
		split := vsched.Choose(n + 1) // closers appended before the first Close
		var calls, want []int
		var errs []error
		var first error
		var firstErrs []error
		for i := 0; i <= n; i++ {
			if i == split {
				calls = nil
				drv.NoPanic("Close", func() { first = m.Close() })
				drv.EqSlice("closers closed", calls, want)
				firstErrs = append([]error(nil), errs...)
				judge(first, firstErrs)
			}
			if i < n {
				e := kindErr(ks[i], i)
				drv.NoPanic("Append", func() { m.Append(&closer{i, e, &calls}) })
				want = append(want, i)
				if e != nil {
					errs = append(errs, e)
				}
			}
		}
		calls = nil
		var err error
		drv.NoPanic("Close", func() { err = m.Close() })
		if len(calls) != 0 || len(want) != split {
			drv.EqSlice("closers closed by a second Close", calls, want)
		}
		if split < n {
			judge(err, errs)
		}
		judge(first, firstErrs) // the earlier result is still intact
	}
}

// many: long lists, in two error patterns.
func many() {
	n := vsched.Choose(133)
	if n >= 130 {
		n = []int{257, 1025, 5000}[n-130]
	}
	pat := vsched.Choose(3)
	m := fresh(vsched.Choose(2))
	var calls, want []int
	var errs []error
	for i := 0; i < n; i++ {
		var e error
		if pat == 1 && i == n-1 || pat == 2 {
			e = kindErr(1+i%(kinds-1), i)
			errs = append(errs, e)
		}
		m.Append(&closer{i, e, &calls})
		want = append(want, i)
	}
	var err error
	drv.NoPanic("Close", func() { err = m.Close() })
	drv.EqSlice("closers closed", calls, want)
	judge(err, errs)
}

// nested: a manager closed by another one.
func nested() {
	k := [3]int{vsched.Choose(3), vsched.Choose(3), vsched.Choose(3)}
	var calls []int
	in, out := closex.New(), closex.New()
	var inErrs, outErrs []error
	e := [3]error{kindErr(k[0], 0), kindErr(k[1], 1), kindErr(k[2], 2)}
	in.Append(&closer{0, e[0], &calls})
	in.Append(&closer{1, e[1], &calls})
	for i := 0; i < 2; i++ {
		if e[i] != nil {
			inErrs = append(inErrs, e[i])
		}
	}
	out.Append(in)
	out.Append(&closer{2, e[2], &calls})
	if inErrs != nil {
		outErrs = append(outErrs, closex.ErrorList(inErrs))
	}
	if e[2] != nil {
		outErrs = append(outErrs, e[2])
	}
	var err error
	drv.NoPanic("Close", func() { err = out.Close() })
	drv.EqSlice("closers closed", calls, []int{0, 1, 2})
	judge(err, outErrs)
}

// wellKnown: closers returning errors that callers like to ignore or to merge;
// each is reported, in order, as often as it was returned.
func wellKnown(pairs bool) func() {
	return func() {
		pick := func() error { return known.Errors[vsched.Choose(len(known.Errors))] }
		e := pick()
		es := []error{e}
		if pairs {
			es = []error{pick(), e}
		} else {
			switch vsched.Choose(5) {
			case 1:
				es = []error{nil, e}
			case 2:
				es = []error{e, shared, nil}
			case 3:
				es = []error{nil, e, e}
			case 4:
				es = []error{e, e, nil, shared, e}
			}
		}
		m := fresh(0)
		var calls, want []int
		var errs []error
		for i, e := range es {
			m.Append(&closer{i, e, &calls})
			want = append(want, i)
			if e != nil {
				errs = append(errs, e)
			}
		}
		var err error
		drv.NoPanic("Close", func() { err = m.Close() })
		drv.EqSlice("closers closed", calls, want)
		judge(err, errs)
	}
}

// plain: AsErrs says no to errors that are not lists.
func plain() {
	for _, e := range []error{nil, io.EOF, fmt.Errorf("a: %w", io.EOF), valErr{1}, sliceErr{1}, (*nilErr)(nil), errors.Join(io.EOF, shared)} {
		if l, ok := closex.AsErrs(e); ok || l != nil {
			vsched.Fail("AsErrs(%v) = %v, %v", e, l, ok)
		}
	}
}

// ---- concurrent use

type ccloser struct {
	id  int
	err error
}

type evt struct{ thread, closer int }

func (c *ccloser) Close() error {
	vsched.LogD(evt{vsched.ThreadID(), c.id})
	vsched.Point("closing")
	return c.err
}

func concurrent(which, pre, appenders, each, closes, kind int) func() {
	return func() {
		m := fresh(which)
		total := pre + appenders*each
		cs := make([]*ccloser, total)
		for i := range cs {
			cs[i] = &ccloser{id: i}
			if kind == 1 && i%2 == 0 || kind == 2 {
				cs[i].err = fmt.Errorf("error of closer %d", i)
			}
		}
		var now vsched.Counter
		ret := make([]vsched.Counter, total) // when Append returned
		beg := make([]vsched.Counter, total) // when Append was called
		add := func(i int) {
			beg[i].Set(now.Add(1))
			m.Append(cs[i])
			ret[i].Set(now.Add(1))
		}
		for i := 0; i < pre; i++ {
			add(i)
		}
		doClose := func() []int {
			start := now.Add(1)
			mark := len(vsched.Events())
			err := m.Close()
			end := now.Add(1)
			me := vsched.ThreadID()
			var order []int
			seen := map[int]bool{}
			for _, e := range vsched.Events()[mark:] {
				v, ok := e.Data.(evt)
				if !ok || v.thread != me {
					continue
				}
				if seen[v.closer] {
					vsched.Fail("one Close closed closer %d twice", v.closer)
				}
				seen[v.closer] = true
				order = append(order, v.closer)
				if b := beg[v.closer].Get(); b == 0 || b > end {
					vsched.Fail("closer %d closed before it was appended", v.closer)
				}
			}
			for i := range cs {
				if r := ret[i].Get(); r != 0 && r < start && !seen[i] {
					vsched.Fail("Close missed closer %d, appended before it began", i)
				}
			}
			var want []error
			for k, i := range order {
				for _, j := range order[:k] {
					if r := ret[i].Get(); r != 0 && r < beg[j].Get() {
						vsched.Fail("closer %d, appended before %d, was closed after it", i, j)
					}
				}
				if cs[i].err != nil {
					want = append(want, cs[i].err)
				}
			}
			judge(err, want)
			return order
		}
		var ts []*vsched.Thread
		for a := 0; a < appenders; a++ {
			ts = append(ts, vsched.GoNamed("appender", func() {
				for k := 0; k < each; k++ {
					add(pre + a*each + k)
				}
			}))
		}
		for c := 0; c < closes; c++ {
			ts = append(ts, vsched.GoNamed("closer", func() { doClose() }))
		}
		vsched.Join(ts...)
		vsched.Outcome("%v", doClose())
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C11",
		Level:       "model_checking",
		Rule:        "sequentially every combination of up to 4 (5) closers, 9 kinds of error each, appended before or after a first Close, on a new and on the default manager; any of 220 errors of the standard library or of odd types alone, repeated, among others and in pairs; concurrently every interleaving, within the bounds, of appenders and closing goroutines",
		Bounds:      "at most 4 closers (5 in the thorough tier) sequentially; concurrently up to 3 appenders and 2 closers under deviation bounds given per unit",
		Assumptions: []string{"closers do not themselves use the manager that is closing them"},
		Units: func(th bool) []drv.Unit {
			n, x := 4, 0
			if th {
				n, x = 5, 2
			}
			us := []drv.Unit{
				{Name: "combinations", Shards: 8, Split: 4, Body: sequential(n)},
				{Name: "many", Body: many},
				{Name: "well-known-errors", Shards: 2, Split: 2, Body: wellKnown(false)},
				{Name: "well-known-pairs", Shards: 4, Split: 2, Body: wellKnown(true)},
				{Name: "nested", Body: nested},
				{Name: "plain", Body: plain},
			}
			add := func(name string, d, p int, f func()) {
				us = append(us, drv.Bounds(drv.Unit{Name: name, Body: f}, d+x, p+x)...)
			}
			add("append-append-close", 10, 10, concurrent(0, 1, 2, 1, 1, 1))
			add("append2-append2-close", 8, 6, concurrent(0, 1, 2, 2, 1, 2))
			add("close-close", 10, 10, concurrent(0, 2, 0, 0, 2, 2))
			add("append-close-close", 8, 6, concurrent(0, 1, 1, 2, 2, 1))
			add("default", 10, 10, concurrent(1, 1, 2, 1, 1, 1))
			add("three-appenders", 6, 4, concurrent(0, 0, 3, 1, 1, 2))
			return us
		},
	})
}
