// Package vsignal stands in for os/signal.
package vsignal

import (
	"os"

	"verif.local/mc/mc/vctx"
	"verif.local/mc/mc/vsched"
)

type reg struct {
	c    *vsched.Chan[os.Signal]
	all  bool
	sigs []os.Signal
}

var (
	regs    []*reg
	ignored []os.Signal
	epoch   int64
)

func fresh() {
	if id := vsched.ExecID(); id != epoch {
		epoch = id
		regs, ignored = nil, nil
	}
}

func Notify(c *vsched.Chan[os.Signal], sigs ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	fresh()
	vsched.Point("signal.Notify")
	regs = append(regs, &reg{c, len(sigs) == 0, append([]os.Signal(nil), sigs...)})
}

func Stop(c *vsched.Chan[os.Signal]) {
	fresh()
	vsched.Point("signal.Stop")
	var r []*reg
	for _, g := range regs {
		if g.c != c {
			r = append(r, g)
		}
	}
	regs = r
}

func Reset(sigs ...os.Signal) {
	fresh()
	vsched.Point("signal.Reset")
	for _, g := range regs {
		var keep []os.Signal
		for _, s := range g.sigs {
			if !has(sigs, s) && len(sigs) > 0 {
				keep = append(keep, s)
			}
		}
		g.sigs = keep
		if len(sigs) == 0 {
			g.all = false
		}
	}
}

func Ignore(sigs ...os.Signal) { fresh(); Reset(sigs...); ignored = append(ignored, sigs...) }
func Ignored(s os.Signal) bool { fresh(); return has(ignored, s) }

func has(l []os.Signal, s os.Signal) bool {
	for _, t := range l {
		if t == s {
			return true
		}
	}
	return false
}

func NotifyContext(parent vctx.Context, sigs ...os.Signal) (vctx.Context, vctx.CancelFunc) {
	ctx, cancel := vctx.WithCancel(parent)
	ch := vsched.MakeChan[os.Signal](1)
	Notify(ch, sigs...)
	vsched.Go(func() {
		s := vsched.NewSelect(false)
		ch.SelRecv(s)
		ctx.Done().SelRecv(s)
		if s.Wait() == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(ch) }
}

// Deliver is the operating system sending s: how many channels registered for
// it, and how many had room to take it.
func Deliver(s os.Signal) (registered, taken int) {
	fresh()
	vsched.Point("deliver " + s.String())
	for _, g := range regs {
		if g.all || has(g.sigs, s) {
			registered++
			if g.c.TrySendNoPoint(s) {
				taken++
			}
		}
	}
	return
}
