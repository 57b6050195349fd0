// I01: separate values never influence each other.
package main

import (
	"verif.local/mc/harness/comp"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// quiet makes random draws and hashes scheduling points with visible buffers.
func quiet() func() {
	vcrand.Reset()
	vcrand.Quiet, vargon2.Quiet = true, true
	return func() { vcrand.Quiet, vargon2.Quiet = false, false }
}

// own: two goroutines, each with a value of its own.
func own(a, b comp.Script, points bool) func() {
	return func() {
		defer quiet()()
		pt := func() {}
		if points {
			pt = func() { vsched.Point("between operations") }
		}
		vsched.Join(
			vsched.GoNamed("first", func() { a.Run(0, pt) }),
			vsched.GoNamed("second", func() { b.Run(1, pt) }))
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "I01",
		Level:       "model_checking",
		Rule:        "for every component, two goroutines that each use a value of their own through a script of all its operations, under every interleaving within the bounds with scheduling points between all operations and inside callbacks; each script checks every result, and the race detector judges every schedule",
		Bounds:      "two goroutines, one script each (10 to 40 operations); two (three) preemptions between operations, and three (four) at synchronisation operations only; every pair of different components with one (two) preemptions at synchronisation operations",
		Assumptions: []string{"a value of a type that is not itself synchronised is used by one goroutine"},
		Units: func(th bool) (us []drv.Unit) {
			x := 0
			if th {
				x = 1
			}
			for _, s := range comp.All {
				us = append(us,
					drv.Unit{NoReset: comp.NoReset(s), Name: comp.Slug(s.Name), Thread: true, Shards: 4, Bound: 2 + x, Body: own(s, s, true)},
					drv.Unit{NoReset: comp.NoReset(s), Name: comp.Slug(s.Name) + "/sync", Thread: true, Shards: 4, Bound: 3 + x, Body: own(s, s, false)},
					drv.Stalled(drv.Unit{Exact: true, NoReset: comp.NoReset(s), Name: comp.Slug(s.Name), Body: own(s, s, false)}, 1))
			}
			for i, a := range comp.All {
				for _, b := range comp.All[:i] {
					us = append(us, drv.Unit{NoReset: comp.NoReset(a, b), Name: comp.Slug(a.Name + "/" + b.Name), Thread: true, Bound: 1 + x, Body: own(a, b, false)})
				}
			}
			return us
		},
	})
}
