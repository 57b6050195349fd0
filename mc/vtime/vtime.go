// Package vtime stands in for the clock of package time.
package vtime

import (
	"time"

	"verif.local/mc/mc/vsched"
)

// Reads counts clock reads in the current execution.
var Reads int

func Now() time.Time                  { Reads++; return vsched.ReadClock() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if d <= 0 {
		vsched.Point("Sleep(0)")
		return
	}
	w := new(bool)
	vsched.StartTimer(d, 0, func() { *w = true })
	vsched.Block("Sleep", func() bool { return *w })
}

type Timer struct {
	C *vsched.Chan[time.Time]
	t *vsched.Timer
}

type Ticker struct {
	C *vsched.Chan[time.Time]
	t *vsched.Timer
	d time.Duration
}

func NewTimer(d time.Duration) *Timer {
	vsched.Point("NewTimer")
	c := vsched.MakeChan[time.Time](1)
	return &Timer{C: c, t: vsched.StartTimer(d, 0, func() { c.TrySendNoPoint(vsched.Now()) })}
}

func After(d time.Duration) *vsched.Chan[time.Time] { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	vsched.Point("AfterFunc")
	return &Timer{t: vsched.StartTimer(d, 0, func() { vsched.SpawnFromTimer("AfterFunc", f) })}
}

func (t *Timer) Stop() bool {
	vsched.Point("Timer.Stop")
	return t.t.Disarm()
}

func (t *Timer) Reset(d time.Duration) bool {
	vsched.Point("Timer.Reset")
	a := t.t.Disarm()
	t.t.Arm(d, 0)
	return a
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	vsched.Point("NewTicker")
	c := vsched.MakeChan[time.Time](1)
	return &Ticker{C: c, d: d, t: vsched.StartTimer(d, d, func() { c.TrySendNoPoint(vsched.Now()) })}
}

func Tick(d time.Duration) *vsched.Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	vsched.Point("Ticker.Stop")
	t.t.Disarm()
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	vsched.Point("Ticker.Reset")
	t.t.Disarm()
	t.t.Arm(d, d)
}
