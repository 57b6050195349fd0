package vsched

import "unsafe"

// Chan models a Go channel.  Sends and receives are scheduling points; a
// blocked operation is disabled until it can proceed.  Everything that touches
// the model's own memory is in non-generic functions of this package, which
// the race detector does not see; the generic methods only convert values.
type Chan[T any] struct{ c chanCore }

type chanCore struct {
	buf    []any
	cap    int
	closed bool
	recvq  []*waiter // announced receivers (unbuffered channels)
	sendq  []*waiter
	hb     byte
	slots  []byte // one happens-before cell per buffer slot
	nsend  int
	nrecv  int
}

// op is one blocking operation (a send, a receive or a whole select).
type op struct {
	done bool
	idx  int
	hb   byte
}

type waiter struct {
	o   *op
	idx int
	v   any
	ok  bool
}

// MakeChan is make(chan T, n).
func MakeChan[T any, N int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr](n N) *Chan[T] {
	c := new(Chan[T])
	initChan(&c.c, int(n))
	return c
}

// MakeChan0 is make(chan T).
func MakeChan0[T any]() *Chan[T] { return new(Chan[T]) }

func initChan(c *chanCore, k int) {
	if k < 0 {
		panic("makechan: size out of range")
	}
	c.cap = k
	if k > 0 {
		c.slots = make([]byte, k)
	}
}

func core[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

func dequeue(q []*waiter, o *op) []*waiter {
	r := q[:0]
	for _, w := range q {
		if w.o != o {
			r = append(r, w)
		}
	}
	return r
}

func peer(q []*waiter, o *op) *waiter {
	for _, w := range q {
		if w.o != o && !w.o.done {
			return w
		}
	}
	return nil
}

func (c *chanCore) sendReady(o *op) bool {
	if c == nil {
		return false
	}
	return c.closed || len(c.buf) < c.cap || (c.cap == 0 && peer(c.recvq, o) != nil)
}

func (c *chanCore) recvReady(o *op) bool {
	if c == nil {
		return false
	}
	return len(c.buf) > 0 || c.closed || (c.cap == 0 && peer(c.sendq, o) != nil)
}

func (c *chanCore) slot(n int) {
	s := unsafe.Pointer(&c.slots[n%c.cap])
	raceAcquire(s)
	raceRelease(s)
}

// doSend performs a ready send; it reports false when the channel is closed.
func (c *chanCore) doSend(v any, o *op) bool {
	if c.closed {
		return false
	}
	if c.cap > 0 {
		c.slot(c.nsend)
		c.nsend++
		c.buf = append(c.buf, v)
		return true
	}
	w := peer(c.recvq, o)
	w.v, w.ok = v, true
	rendezvous(w)
	return true
}

func (c *chanCore) doRecv(o *op) (v any, ok bool) {
	if len(c.buf) > 0 {
		c.slot(c.nrecv)
		c.nrecv++
		v = c.buf[0]
		c.buf = without(c.buf, 0)
		return v, true
	}
	if c.cap == 0 {
		if w := peer(c.sendq, o); w != nil {
			rendezvous(w)
			return w.v, true
		}
	}
	raceAcquire(unsafe.Pointer(&c.hb))
	return nil, false
}

// rendezvous: both sides synchronise with each other.
func rendezvous(w *waiter) {
	w.o.done = true
	w.o.idx = w.idx
	raceAcquire(unsafe.Pointer(&w.o.hb)) // released by the peer before it parked
	raceRelease(unsafe.Pointer(&w.o.hb)) // acquired by the peer when it resumes
}

func (c *chanCore) send(v any) {
	e := x
	if e == nil || e.seqMode {
		if e != nil {
			point("send", func() bool { return c.sendReady(nil) })
		} else if !c.sendReady(nil) {
			panic("vsched: channel send would block outside an execution")
		}
		if !c.doSend(v, nil) {
			panic("send on closed channel")
		}
		return
	}
	o := &op{}
	park := c != nil && c.cap == 0 && !e.aborting
	if park {
		raceRelease(unsafe.Pointer(&o.hb))
		c.sendq = append(c.sendq, &waiter{o: o, v: v})
	}
	point("send", func() bool { return o.done || c.sendReady(o) })
	if park {
		c.sendq = dequeue(c.sendq, o)
		if o.done {
			raceAcquire(unsafe.Pointer(&o.hb))
			return
		}
	}
	if !c.doSend(v, o) {
		panic("send on closed channel")
	}
}

func (c *chanCore) recv() (any, bool) {
	e := x
	if e == nil || e.seqMode {
		if e != nil {
			point("recv", func() bool { return c.recvReady(nil) })
		} else if !c.recvReady(nil) {
			panic("vsched: channel receive would block outside an execution")
		}
		return c.doRecv(nil)
	}
	o := &op{}
	w := &waiter{o: o}
	park := c != nil && c.cap == 0 && !e.aborting
	if park {
		raceRelease(unsafe.Pointer(&o.hb))
		c.recvq = append(c.recvq, w)
	}
	point("recv", func() bool { return o.done || c.recvReady(o) })
	if park {
		c.recvq = dequeue(c.recvq, o)
		if o.done {
			raceAcquire(unsafe.Pointer(&o.hb))
			return w.v, w.ok
		}
	}
	return c.doRecv(o)
}

func (c *chanCore) close() {
	Point("close")
	if c == nil {
		panic("close of nil channel")
	}
	c.closeNow()
}

func (c *chanCore) closeNow() {
	if c.closed {
		panic("close of closed channel")
	}
	raceRelease(unsafe.Pointer(&c.hb))
	c.closed = true
}

func (c *chanCore) isClosed() bool {
	Point("observe closed")
	if c.closed {
		raceAcquire(unsafe.Pointer(&c.hb))
	}
	return c.closed
}

func (c *chanCore) trySend(v any) bool {
	if c == nil || c.closed || !c.sendReady(nil) {
		return false
	}
	return c.doSend(v, &op{})
}

func (c *chanCore) drain() {
	c.nrecv += len(c.buf)
	c.buf = nil
}

func (c *chanCore) length() int {
	if c == nil {
		return 0
	}
	Point("len(chan)")
	return len(c.buf)
}

func (c *chanCore) capacity() int {
	if c == nil {
		return 0
	}
	return c.cap
}

func (c *chanCore) peekClosed() bool { return c != nil && c.closed }

// Send is c <- v.
func (c *Chan[T]) Send(v T) { core(c).send(v) }

// Recv is <-c.
func (c *Chan[T]) Recv() T {
	a, _ := core(c).recv()
	v, _ := a.(T)
	return v
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	a, ok := core(c).recv()
	v, _ := a.(T)
	return v, ok
}

// Range3 starts a range loop over c.
func (c *Chan[T]) Range3() (*Chan[T], T, bool) {
	v, ok := c.Recv2()
	return c, v, ok
}

// Close is close(c).
func (c *Chan[T]) Close() { core(c).close() }

// CloseNoPoint closes without a scheduling point (shim-internal use).
func (c *Chan[T]) CloseNoPoint() { core(c).closeNow() }

// Closed reports whether c was closed (harness use, invisible).
func (c *Chan[T]) Closed() bool { return core(c).peekClosed() }

// IsClosed is a scheduling point that observes closing, with the
// happens-before edge a receive on the closed channel would give.
func (c *Chan[T]) IsClosed() bool { return core(c).isClosed() }

// TrySendNoPoint is the runtime's own non-blocking send (timers, signals).
func (c *Chan[T]) TrySendNoPoint(v T) bool { return core(c).trySend(v) }

// DrainNoPoint empties the buffer.
func (c *Chan[T]) DrainNoPoint() { core(c).drain() }

func (c *Chan[T]) Len() int { return core(c).length() }
func (c *Chan[T]) Cap() int { return core(c).capacity() }

// ---------------------------------------------------------------- select

// Select models one select statement.
type Select struct {
	o     op
	def   bool
	cases []*selCase
}

type selCase struct {
	c    *chanCore
	send bool
	v    any
	ok   bool
	w    *waiter
}

// NewSelect starts a select statement.
func NewSelect(hasDefault bool) *Select { return &Select{def: hasDefault} }

// SelCase holds the result of a receive case.
type SelCase[T any] struct{ k *selCase }

func (k *selCase) result() (any, bool) { return k.v, k.ok }

func (r SelCase[T]) V() T {
	a, _ := r.k.result()
	v, _ := a.(T)
	return v
}

func (r SelCase[T]) OK() bool {
	_, ok := r.k.result()
	return ok
}

func (s *Select) add(c *chanCore, send bool, v any) *selCase {
	k := &selCase{c: c, send: send, v: v}
	if c != nil && c.cap == 0 && !s.def && x != nil && !x.seqMode {
		k.w = &waiter{o: &s.o, idx: len(s.cases), v: v}
		if send {
			c.sendq = append(c.sendq, k.w)
		} else {
			c.recvq = append(c.recvq, k.w)
		}
	}
	s.cases = append(s.cases, k)
	return k
}

// SelRecv adds a receive case.
func (c *Chan[T]) SelRecv(s *Select) SelCase[T] {
	return SelCase[T]{s.add(core(c), false, nil)}
}

// SelSend adds a send case.
func (c *Chan[T]) SelSend(s *Select, v T) { s.add(core(c), true, v) }

func (k *selCase) ready(o *op) bool {
	if k.send {
		return k.c.sendReady(o)
	}
	return k.c.recvReady(o)
}

// Wait performs the select and returns the chosen case (-1: default).
func (s *Select) Wait() int {
	if !s.def {
		raceRelease(unsafe.Pointer(&s.o.hb))
	}
	point("select", func() bool {
		if s.def || s.o.done {
			return true
		}
		for _, k := range s.cases {
			if k.ready(&s.o) {
				return true
			}
		}
		return false
	})
	for _, k := range s.cases {
		if k.w == nil {
			continue
		}
		if k.send {
			k.c.sendq = dequeue(k.c.sendq, &s.o)
		} else {
			k.c.recvq = dequeue(k.c.recvq, &s.o)
		}
	}
	if s.o.done {
		raceAcquire(unsafe.Pointer(&s.o.hb))
		k := s.cases[s.o.idx]
		if !k.send {
			k.v, k.ok = k.w.v, k.w.ok
		}
		return s.o.idx
	}
	var ready []int
	for i, k := range s.cases {
		if k.ready(&s.o) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if s.def {
			return -1
		}
		panic("vsched: select would block outside an execution")
	}
	i := ready[0]
	if len(ready) > 1 && InExec() {
		i = ready[Choose(len(ready))]
	}
	k := s.cases[i]
	if k.send {
		if !k.c.doSend(k.v, &s.o) {
			panic("send on closed channel")
		}
	} else {
		k.v, k.ok = k.c.doRecv(&s.o)
	}
	return i
}

// without returns s less element i, element by element: the runtime reports
// append's and copy's bulk moves to the race detector even for this package.
func without[T any](s []T, i int) []T {
	r := make([]T, 0, len(s))
	for j, v := range s {
		if j != i {
			r = append(r, v)
		}
	}
	return r
}
