// I02: operations that only read may run at the same time on one value.
package main

import (
	"verif.local/mc/harness/comp"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// readers: goroutines that each apply reading operations to one value, after
// which every operation must give what it gives on a twin used alone.
func readers(s comp.Script, each []int) func() {
	return func() {
		vcrand.Reset()
		vargon2.Calls = nil
		vcrand.Quiet, vargon2.Quiet = true, true
		defer func() { vcrand.Quiet, vargon2.Quiet = false, false }()
		twin, ops := s.Read(), s.Read()
		var want []string
		for _, o := range twin {
			want = append(want, o.Run(nil))
		}
		var ts []*vsched.Thread
		for _, n := range each {
			var pick []int
			for i := 0; i < n; i++ {
				pick = append(pick, vsched.Choose(len(ops)))
			}
			ts = append(ts, vsched.GoNamed("reader", func() {
				for _, i := range pick {
					vsched.Point("between operations")
					if got := ops[i].Run(nil); got != want[i] {
						vsched.Fail("%s among other readers gives %q, alone %q", ops[i].Name, got, want[i])
					}
				}
			}))
		}
		vsched.Join(ts...)
		for i, o := range ops {
			if got := o.Run(nil); got != want[i] {
				vsched.Fail("%s after the readers gives %q, on an untouched value %q", o.Name, got, want[i])
			}
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "I02",
		Level:       "model_checking",
		Rule:        "for every component and every assignment of reading operations to two or three goroutines that share one value (for encryption and conversion: its inputs), every interleaving within the bounds with scheduling points between operations: each result must be what the operation gives on an identical value used alone, also afterwards, and the race detector judges every schedule",
		Bounds:      "two goroutines with one operation each and with two and one, three with one each (for AES, passwords, conversions and the skip list only the first two; thorough: two with two each); two preemptions",
		Assumptions: []string{"nothing writes the value meanwhile; iterators belong to one goroutine; a lazy value has been constructed (C07 covers the first Get)"},
		Units: func(th bool) (us []drv.Unit) {
			for _, s := range comp.All {
				if s.Read == nil {
					continue
				}
				sets := [][]int{{1, 1}, {2, 1}, {1, 1, 1}}
				names := []string{"1-1", "2-1", "1-1-1"}
				if th {
					sets, names = append(sets, []int{2, 2}), append(names, "2-2")
				}
				us = append(us, drv.Stalled(drv.Unit{Exact: true, NoReset: comp.NoReset(s), Name: comp.Slug(s.Name), Body: readers(s, []int{1, 1})}, 1))
				for i := range sets {
					if !th && len(sets[i]) == 3 && (s.Name == "AES" || s.Name == "passwords" || s.Name == "skip list" || s.Name == "conversions") {
						continue
					}
					us = append(us, drv.Unit{NoReset: comp.NoReset(s), Name: comp.Slug(s.Name) + "/" + names[i], Thread: true, Shards: 1 + i, Split: 1, Bound: 2, Body: readers(s, sets[i])})
				}
			}
			return us
		},
	})
}
