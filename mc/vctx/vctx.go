// Package vctx stands in for package context.
package vctx

import (
	"context"
	"errors"
	"time"

	"verif.local/mc/mc/vsched"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vsched.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type empty struct{}

func (empty) Deadline() (time.Time, bool)  { return time.Time{}, false }
func (empty) Done() *vsched.Chan[struct{}] { return nil }
func (empty) Err() error                   { return nil }
func (empty) Value(any) any                { return nil }

func Background() Context { return empty{} }
func TODO() Context       { return empty{} }

type ctxCore struct {
	parent   Context
	done     *vsched.Chan[struct{}]
	err      error
	cause    error
	kids     []*ctxCore
	funcs    []*afterFn
	deadline time.Time
	hasDl    bool
}

type afterFn struct {
	f    func()
	dead bool
}

func (c *ctxCore) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctxCore) Done() *vsched.Chan[struct{}] { return c.done }
func (c *ctxCore) Err() error {
	vsched.Point("ctx.Err")
	return c.err
}
func (c *ctxCore) Value(k any) any { return c.parent.Value(k) }

type valueCtx struct {
	Context
	k, v any
}

func (v *valueCtx) Value(k any) any {
	if k == v.k {
		return v.v
	}
	return v.Context.Value(k)
}

func WithValue(parent Context, k, v any) Context { return &valueCtx{parent, k, v} }

type withoutCancel struct{ p Context }

func (withoutCancel) Deadline() (time.Time, bool)  { return time.Time{}, false }
func (withoutCancel) Done() *vsched.Chan[struct{}] { return nil }
func (withoutCancel) Err() error                   { return nil }
func (w withoutCancel) Value(k any) any            { return w.p.Value(k) }
func WithoutCancel(parent Context) Context         { return withoutCancel{parent} }

func coreOf(c Context) *ctxCore {
	for {
		switch v := c.(type) {
		case *ctxCore:
			return v
		case *valueCtx:
			c = v.Context
		default:
			return nil
		}
	}
}

func newCore(parent Context) *ctxCore {
	vsched.Point("context.With")
	c := &ctxCore{parent: parent, done: vsched.MakeChan0[struct{}]()}
	if p := coreOf(parent); p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func (c *ctxCore) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	c.done.CloseNoPoint()
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	for _, a := range c.funcs {
		if !a.dead {
			a.dead = true
			vsched.SpawnFromTimer("context.AfterFunc", a.f)
		}
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCore(parent)
	return c, func() {
		vsched.Point("cancel")
		c.cancel(Canceled, nil)
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCore(parent)
	return c, func(cause error) {
		vsched.Point("cancel")
		c.cancel(Canceled, cause)
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vsched.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vsched.Now().Add(d), cause)
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	if pd, ok := parent.Deadline(); ok && pd.Before(t) {
		return WithCancel(parent)
	}
	c := newCore(parent)
	c.deadline, c.hasDl = t, true
	d := t.Sub(vsched.Now())
	if d <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() {}
	}
	tm := vsched.StartTimer(d, 0, func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() {
		vsched.Point("cancel")
		tm.Disarm()
		c.cancel(Canceled, nil)
	}
}

func Cause(c Context) error {
	if k := coreOf(c); k != nil {
		vsched.Point("ctx.Cause")
		return k.cause
	}
	return nil
}

func AfterFunc(c Context, f func()) func() bool {
	vsched.Point("context.AfterFunc")
	a := &afterFn{f: f}
	k := coreOf(c)
	if k == nil {
		return func() bool { a.dead = true; return true }
	}
	if k.err != nil {
		a.dead = true
		vsched.SpawnFromTimer("context.AfterFunc", f)
	} else {
		k.funcs = append(k.funcs, a)
	}
	return func() bool {
		vsched.Point("AfterFunc stop")
		was := a.dead
		a.dead = true
		return !was
	}
}

var ErrUnsupported = errors.ErrUnsupported
