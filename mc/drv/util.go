package drv

import (
	"fmt"
	"runtime"

	"verif.local/mc/mc/vsched"
)

// Try runs f and returns the value it panicked with, if any.
func Try(f func()) (panicked any) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if r == nil {
			return // Goexit
		}
		if vsched.IsAbort(r) {
			panic(r)
		}
		panicked = r
		if panicked == nil {
			panicked = "nil panic"
		}
	}()
	f()
	ok = true
	return nil
}

// NoPanic fails the execution if f panics.
func NoPanic(what string, f func()) {
	if p := Try(f); p != nil {
		if e, ok := p.(runtime.Error); ok {
			vsched.Fail("%s panics: %v", what, e)
		}
		vsched.Fail("%s panics: %v", what, p)
	}
}

// Eq compares two comparable values.
func Eq[T comparable](what string, got, want T) {
	if got != want {
		vsched.Fail("%s: got %v, want %v", what, got, want)
	}
}

// EqSlice compares slices element by element.
func EqSlice[T comparable](what string, got, want []T) {
	if len(got) != len(want) {
		vsched.Fail("%s: got %v, want %v", what, got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			vsched.Fail("%s: got %v, want %v", what, got, want)
		}
	}
}

// Require fails the execution unless ok.
func Require(ok bool, format string, a ...any) {
	if !ok {
		vsched.Fail("%s", fmt.Sprintf(format, a...))
	}
}

// Pick is a free choice among values.
func Pick[T any](vs ...T) T { return vs[vsched.Choose(len(vs))] }

// Bounds returns one unit per bounding scheme: all schedules with at most
// delay departures from the deterministic scheduler, and all schedules with at
// most preempt preemptions (switches at blocking points are then free); and schedules with few departures
// and long stalls.  A negative number leaves the scheme out.
func Bounds(u Unit, delay, preempt int) []Unit {
	u.Thread = true
	if u.Shards == 0 {
		u.Shards = 4
	}
	var r []Unit
	if delay >= 0 {
		d := u
		d.Name, d.Delay, d.Bound = fmt.Sprintf("%s/delay-%d", u.Name, delay), true, delay
		r = append(r, d)
	}
	if preempt >= 0 {
		p := u
		p.Name, p.Bound = fmt.Sprintf("%s/preempt-%d", u.Name, preempt), preempt
		r = append(r, p)
	}
	if delay >= 0 {
		r = append(r, Stalled(u, min(delay, 3, max(2, delay-2))))
	}
	return r
}

// Stalled returns the unit with schedules in which a thread stops anywhere for
// so long that others, if they wait for it, try again and again, timers firing
// at any point.
func Stalled(u Unit, delay int) Unit {
	const turns = 5000
	u.Thread, u.Delay, u.Bound = true, true, delay
	u.Stall, u.Spin, u.Steps = turns, 4*turns, 40*turns+u.Steps
	if u.Early == 0 && !u.Exact {
		u.Early = 1
	}
	if u.Shards == 0 {
		u.Shards = 4
	}
	u.Name = fmt.Sprintf("%s/stall-%d", u.Name, delay)
	return u
}
