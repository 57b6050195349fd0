// Package skl lets harnesses decide the skip list's tower heights.
package skl

import (
	"verif.local/mc/mc/vrand"
	"verif.local/mc/mc/vsched"
)

// Tall is a height beyond every limit: the coin never says stop.
const Tall = 64

var want, flips int

// Arm makes the next insertion draw the given height.
func Arm(h int) {
	want, flips = h, 0
	vrand.HeightHook = func() (uint64, bool) {
		flips++
		z := want - flips // tails left before the stop
		if z >= 64 {
			return 0, true
		}
		if z < 0 {
			z = 0
		}
		return ^uint64(0) << uint(z), true
	}
}

// Choose arms one of the given heights.
func Choose(hs []int) {
	h := hs[0]
	if len(hs) > 1 {
		h = hs[vsched.Choose(len(hs))]
	}
	Arm(h)
}

var (
	ops  int
	till int64
	late bool
)

// Long begins a run that is cut off after a while: lists with unfavourable
// towers are slow, which is not for the checks to judge. The result ends it.
func Long() func() {
	till, late = vsched.CPU()+20e9, false
	return func() { till, late = 0, false }
}

// Late: the long run should end here. Called at every operation, it also tells
// the watch, now and then, that operations go on.
func Late() bool {
	if ops++; till != 0 && ops%64 == 0 {
		vsched.Alive()
		late = late || vsched.CPU() > till
	}
	return late
}
