// C09: the conversion registry.
package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/typex/convx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/lin"
	"verif.local/mc/mc/vsched"
)

const pkg = "github.com/unsafe-risk/utilx/typex/convx"

// Two source and two target types of the harness's own.
type (
	a struct{ v int }
	b struct{ v int }
	x struct{ tag, v int }
	y struct{ tag, v int }
)

// model: the converter registered for each of the four pairs (0: none).
type table [4]int

type reg struct {
	name string
	// run performs the operation and returns its rendering
	run func(h *world) string
	mod func(t table) (string, table)
}

type world struct {
	applied vsched.Counter
}

func conv[S, T any](w *world, id int, val func(S) int, mk func(tag, v int) T, mid func()) func(S) T {
	return func(s S) T {
		w.applied.Add(1)
		if mid != nil {
			mid()
		}
		return mk(id, val(s))
	}
}

func av(s a) int         { return s.v }
func bv(s b) int         { return s.v }
func mx(tag, v int) x    { return x{tag, v} }
func my(tag, v int) y    { return y{tag, v} }
func pn(p int) string    { return [...]string{"a>x", "a>y", "b>x", "b>y"}[p] }
func tag(ok bool) string { return map[bool]string{true: "yes", false: "no"}[ok] }

func register(w *world, p, id int, mid func()) {
	switch p {
	case 0:
		convx.Register(conv(w, id, av, mx, mid))
	case 1:
		convx.Register(conv(w, id, av, my, mid))
	case 2:
		convx.Register(conv(w, id, bv, mx, mid))
	case 3:
		convx.Register(conv(w, id, bv, my, mid))
	}
}

func unregister(p int) {
	switch p {
	case 0:
		convx.Unregister[a, x]()
	case 1:
		convx.Unregister[a, y]()
	case 2:
		convx.Unregister[b, x]()
	case 3:
		convx.Unregister[b, y]()
	}
}

func exists(p int) bool {
	switch p {
	case 0:
		return convx.Exists[a, x]()
	case 1:
		return convx.Exists[a, y]()
	case 2:
		return convx.Exists[b, x]()
	}
	return convx.Exists[b, y]()
}

// into converts the value 5 and renders what came out.
func into(p int) string {
	switch p {
	case 0:
		r, ok := convx.Into[a, x](a{5})
		return fmt.Sprint(ok, r.tag, r.v)
	case 1:
		r, ok := convx.Into[a, y](a{5})
		return fmt.Sprint(ok, r.tag, r.v)
	case 2:
		r, ok := convx.Into[b, x](b{5})
		return fmt.Sprint(ok, r.tag, r.v)
	}
	r, ok := convx.Into[b, y](b{5})
	return fmt.Sprint(ok, r.tag, r.v)
}

func intoOr(p int) string {
	switch p {
	case 0:
		r := convx.IntoOr(a{5}, x{77, 6})
		return fmt.Sprint(r.tag, r.v)
	case 1:
		r := convx.IntoOr(a{5}, y{77, 6})
		return fmt.Sprint(r.tag, r.v)
	case 2:
		r := convx.IntoOr(b{5}, x{77, 6})
		return fmt.Sprint(r.tag, r.v)
	}
	r := convx.IntoOr(b{5}, y{77, 6})
	return fmt.Sprint(r.tag, r.v)
}

func wantInto(t table, p int) string {
	if t[p] == 0 {
		return "false 0 0"
	}
	return fmt.Sprint(true, t[p], 5)
}

func wantOr(t table, p int) string {
	if t[p] == 0 {
		return "77 6"
	}
	return fmt.Sprint(t[p], 5)
}

type op struct {
	kind int // 0 register 1 unregister 2 exists 3 into 4 intoOr
	pair int
	id   int
}

func (o op) String() string {
	return fmt.Sprintf("%s(%s,%d)", [...]string{"Register", "Unregister", "Exists", "Into", "IntoOr"}[o.kind], pn(o.pair), o.id)
}

func (o op) run(w *world) string {
	switch o.kind {
	case 0:
		register(w, o.pair, o.id, nil)
	case 1:
		unregister(o.pair)
	case 2:
		return fmt.Sprint(exists(o.pair))
	case 3:
		return into(o.pair)
	case 4:
		return intoOr(o.pair)
	}
	return ""
}

func (o op) model(t table) (string, table) {
	switch o.kind {
	case 0:
		t[o.pair] = o.id
	case 1:
		t[o.pair] = 0
	case 2:
		return fmt.Sprint(t[o.pair] != 0), t
	case 3:
		return wantInto(t, o.pair), t
	case 4:
		return wantOr(t, o.pair), t
	}
	return "", t
}

func history(depth int) func() {
	return func() {
		vsched.ResetPkg(pkg)
		w := &world{}
		var t table
		for i := 0; i < depth; i++ {
			k := vsched.Choose(14)
			var o op
			switch {
			case k < 4:
				o = op{0, k, i + 1}
			case k < 8:
				o = op{1, k - 4, 0}
			case k < 11:
				o = op{2 + k - 8, 0, 0}
			default:
				o = op{2 + k - 11, 3, 0}
			}
			before := w.applied.Get()
			got := o.run(w)
			want, nt := o.model(t)
			if got != want {
				vsched.Fail("%s = %q, want %q with table %v", o, got, want, t)
			}
			n := int64(0)
			if o.kind >= 3 && t[o.pair] != 0 {
				n = 1
			}
			if d := w.applied.Get() - before; d != n {
				vsched.Fail("%s applied a converter %d times, want %d", o, d, n)
			}
			t = nt
			for p := range t {
				if exists(p) != (t[p] != 0) {
					vsched.Fail("after %s: Exists(%s) = %v, table %v", o, pn(p), exists(p), t)
				}
				if g := into(p); g != wantInto(t, p) {
					vsched.Fail("after %s: Into(%s) = %q, table %v", o, pn(p), g, t)
				}
			}
		}
		if !convx.Exists[int, string]() || convx.IntoOr(12, "") != "12" {
			vsched.Fail("built-in conversions disturbed")
		}
		vsched.Outcome("%v", t)
	}
}

func racing(pre []op, threads [][]op) func() {
	return func() {
		w := &world{}
		var t table
		for _, o := range pre {
			o.run(w)
			_, t = o.model(t)
		}
		h := &lin.History{}
		var ts []*vsched.Thread
		for _, ops := range threads {
			ops := ops
			ts = append(ts, vsched.GoNamed("user", func() {
				for _, o := range ops {
					o := o
					c := h.Call(o.String())
					got := o.run(w)
					h.Return(c, got, func(s any) (any, bool) {
						want, nt := o.model(s.(table))
						return nt, want == got
					})
				}
			}))
		}
		vsched.Join(ts...)
		vsched.Outcome("%s", h.Results())
		for p := 0; p < 4; p++ {
			for _, o := range []op{{2, p, 0}, {3, p, 0}} {
				o := o
				c := h.Call(o.String())
				got := o.run(w)
				h.Return(c, got, func(s any) (any, bool) {
					want, nt := o.model(s.(table))
					return nt, want == got
				})
			}
		}
		h.Require(t, nil)
	}
}

// reentrant: the converter of a>x itself uses the registry, alone or while
// another goroutine registers.
func reentrant(inner op, rival bool) func() {
	return func() {
		w := &world{}
		register(w, 3, 9, nil)
		var inside string
		calls := 0
		register(w, 0, 1, func() {
			calls++
			if calls == 1 {
				inside = inner.run(w)
			}
		})
		var ts []*vsched.Thread
		ts = append(ts, vsched.GoNamed("converting", func() {
			if g := into(0); g != "true 1 5" {
				vsched.Fail("Into with a converter that does %s gives %q", inner, g)
			}
		}))
		if rival {
			ts = append(ts, vsched.GoNamed("rival", func() { register(w, 1, 4, nil) }))
		}
		vsched.Join(ts...)
		if inner.pair == 3 {
			if want, _ := inner.model(table{1, 0, 0, 9}); inside != want {
				vsched.Fail("inside the converter: %s = %q, want %q", inner, inside, want)
			}
		}
		if rival && into(1) != "true 4 5" {
			vsched.Fail("rival registration lost")
		}
		t := table{1, 0, 0, 9}
		_, t = inner.model(t)
		if inner.pair != 1 && into(inner.pair) != wantInto(t, inner.pair) {
			vsched.Fail("after a converter did %s: Into = %q, want %q", inner, into(inner.pair), wantInto(t, inner.pair))
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "C09",
		Level:       "model_checking",
		Rule:        "every operation sequence to the depth bound against a table model; every interleaving within the bounds of threads using the registry, each history checked for linearizability; converters that use the registry themselves; the package's state is initialised afresh for every execution",
		Bounds:      "two source and two target types; sequences of 4 (quick) or 5 (thorough) operations; sequences of 2 (3) registrations and removals over 31 pairs of easily confused types (same name, same underlying type, interfaces, tags, directions); 2-3 threads with 1-3 operations; deviation bounds per unit",
		Assumptions: []string{"unsynchronised accesses are reported by the race detector on every explored schedule"},
		Units: func(th bool) []drv.Unit {
			d, xx := 4, 0
			if th {
				d, xx = 5, 1
			}
			us := []drv.Unit{{Name: "history", Steps: 100000, Shards: 8, Split: 2, Body: history(d)}}
			us = append(us, drv.Unit{Name: "identities", Steps: 100000, Shards: 8, Split: 1, Body: identities(2 + xx)})
			add := func(name string, delay, preempt int, f func()) {
				us = append(us, drv.Bounds(drv.Unit{Name: name, Steps: 100000, Spin: 1 << 20, Body: f}, delay+xx, preempt+xx)...)
			}
			R := func(p, id int) op { return op{0, p, id} }
			U := func(p int) op { return op{1, p, 0} }
			E := func(p int) op { return op{2, p, 0} }
			I := func(p int) op { return op{3, p, 0} }
			O := func(p int) op { return op{4, p, 0} }
			add("register-same-pair", 6, 3, racing(nil, [][]op{{R(0, 1), I(0)}, {R(0, 2), I(0)}}))
			add("register-same-source", 6, 3, racing(nil, [][]op{{R(0, 1), I(1)}, {R(1, 2), I(0)}}))
			add("register-other-source", 6, 3, racing(nil, [][]op{{R(0, 1), E(3)}, {R(3, 2), E(0)}}))
			add("three-registrations", 4, 2, racing(nil, [][]op{{R(0, 1)}, {R(1, 2)}, {R(2, 3), I(0)}}))
			add("replace", 6, 3, racing([]op{R(0, 1)}, [][]op{{R(0, 2), U(0)}, {I(0), I(0)}}))
			add("unregister", 6, 3, racing([]op{R(0, 1), R(1, 2)}, [][]op{{U(0), R(0, 3)}, {O(0), E(0), O(1)}}))
			add("unregister-both", 6, 3, racing([]op{R(0, 1), R(1, 2)}, [][]op{{U(0), I(1)}, {U(1), I(0)}}))
			add("readers", 4, 2, racing([]op{R(0, 1)}, [][]op{{I(0), O(0)}, {E(0), I(0)}, {R(0, 2)}}))
			for i, in := range []op{R(0, 5), R(2, 5), U(0), U(3), I(3), O(3), E(3), I(0)} {
				add(fmt.Sprintf("reentrant-%d", i), 4, 2, reentrant(in, i%2 == 0))
				add(fmt.Sprintf("reentrant-%d-rival", i), 4, 2, reentrant(in, true))
			}
			return us
		},
	})
}
