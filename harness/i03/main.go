// I03: functions that the library calls back may use the library.
package main

import (
	"verif.local/mc/harness/comp"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// what collects the operations a callback may perform.
type inner struct {
	name string
	run  func() string
}

// nested: at every (or one) call of the callback of every operation, an inner
// operation; both must give what they give alone.
func nested(s comp.Script, pick func() inner, depth int) func() {
	return func() {
		vcrand.Reset()
		vcrand.Quiet, vargon2.Quiet = true, true
		defer func() { vcrand.Quiet, vargon2.Quiet = false, false }()
		outer := s.Back()
		op := outer[vsched.Choose(len(outer))]
		calls := 0
		want := op.Run(func() { calls++ })
		if calls == 0 {
			vsched.Fail("%s never calls back", op.Name)
		}
		at := vsched.Choose(calls + 1) // the last: at every call
		in := pick()
		alone := in.run()
		n := 0
		level := 0
		var got string
		var cb func()
		cb = func() {
			n++
			if at < calls && n-1 != at {
				return
			}
			if level < depth {
				level++
				v := n
				again := op.Run(func() { n = at; cb() })
				n = v
				level--
				if again != want {
					vsched.Fail("%s inside its own callback gives %q, alone %q", op.Name, again, want)
				}
			}
			if r := in.run(); r != alone {
				vsched.Fail("%s inside a callback of %s gives %q, alone %q", in.name, op.Name, r, alone)
			}
		}
		drv.NoPanic(op.Name+" with "+in.name+" in its callback", func() { got = op.Run(cb) })
		if got != want {
			vsched.Fail("%s with %s in its callback gives %q, without it %q", op.Name, in.name, got, want)
		}
	}
}

// others lets every operation of the components be chosen.
func others(all []comp.Script) func() inner {
	return func() inner {
		s := all[vsched.Choose(len(all))]
		var ops []comp.Op
		k := vsched.Choose(3)
		switch {
		case k == 1 && s.Read != nil:
			ops = s.Read()
		case k == 2 && s.Back != nil:
			ops = s.Back()
		case k > 0:
			return inner{"nothing", func() string { return "" }}
		default:
			return inner{s.Name + " script", func() string { s.Run(1, func() {}); return "" }}
		}
		o := ops[vsched.Choose(len(ops))]
		return inner{s.Name + " " + o.Name, func() string { return o.Run(func() {}) }}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "I03",
		Level:       "model_checking",
		Rule:        "for every operation that takes a function (or prints values with methods of their own, or builds, closes or locks something): at each of its calls, and at every call, the callback performs every script, reading operation and calling operation of the same component on another value, nested up to a depth, and of every other component; and every reading operation on the value the outer operation is working on; the outer and inner results must be what they are alone",
		Bounds:      "all operations listed in harness/comp; nesting to depth 2 (3)",
		Assumptions: []string{"a callback does not change the value being worked on (D11 covers the changes Range allows)", "a closer does not use the manager that closes it; the same pointer is not locked twice"},
		Units: func(th bool) (us []drv.Unit) {
			d := 1
			if th {
				d = 2
			}
			for i, s := range comp.All {
				if s.Back == nil {
					continue
				}
				us = append(us, drv.Unit{Name: comp.Slug(s.Name), Shards: 4, Split: 3, Body: nested(s, others(comp.All[i:i+1]), d)})
				var rest []comp.Script
				rest = append(append(rest, comp.All[:i]...), comp.All[i+1:]...)
				us = append(us, drv.Unit{Name: comp.Slug(s.Name) + "/others", Shards: 4, Split: 3, Body: nested(s, others(rest), 0)})
			}
			us = append(us, drv.Unit{Name: "same-value", Shards: 4, Split: 2, Body: same})
			return us
		},
	})
}

// same: reading operations on the value being worked on.
func same() {
	pair := comp.Shared[vsched.Choose(len(comp.Shared))]
	twin := pair()
	want, calls := "", 0
	want = twin.Outer.Run(func() { calls++ })
	var alone []string
	for _, o := range twin.Reads {
		alone = append(alone, o.Run(nil))
	}
	at := vsched.Choose(calls + 1)
	k := vsched.Choose(len(twin.Reads))
	p := pair()
	n := 0
	got := ""
	drv.NoPanic(p.Outer.Name+" with "+p.Reads[k].Name+" in its callback", func() {
		got = p.Outer.Run(func() {
			n++
			if at < calls && n-1 != at {
				return
			}
			if r := p.Reads[k].Run(nil); r != alone[k] {
				vsched.Fail("%s inside the callback of %s on the same value gives %q, alone %q", p.Reads[k].Name, p.Outer.Name, r, alone[k])
			}
		})
	})
	if got != want {
		vsched.Fail("%s with %s on the same value in its callback gives %q, without it %q", p.Outer.Name, p.Reads[k].Name, got, want)
	}
}
