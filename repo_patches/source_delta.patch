From 038b95231dfef6ba5b9e60479659127a0bbca5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 01/32] fix: gopoolx worker must not read its channel from the
 recycled worker record

The collector resets and recycles the record of a retired worker, and Run puts
a new channel in it, while the goroutine started for it may not have read w.ch
yet: the goroutine then ranges over a nil or another worker's channel. Hand the
channel to the goroutine when it is started.
---
 poolx/gopoolx/timedpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..f1ad139 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -56,7 +56,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 			w := pool.pool.Get()
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -160,7 +160,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
-- 
2.43.0


From 8b03965324894fb5debd05607364b91f4f52cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 02/32] fix: gopoolx preheating must not exceed the worker
 limit

---
 poolx/gopoolx/timedpool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index f1ad139..d2fccf9 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -50,6 +50,9 @@ func (pool *TimedPool[T]) start(preheat int) {
 	})
 	pool.stop = make(chan struct{})
 
+	if int64(preheat) > pool.maxWorkers {
+		preheat = int(pool.maxWorkers)
+	}
 	if preheat > 0 {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
-- 
2.43.0


From db7ef02ec60ca88ff126aeaa0d70eba09897543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 03/32] fix: gopoolx Stop may be called concurrently

The unsynchronised check and reset of pool.stop raced with the collector and let
two callers send to a collector that receives once, blocking the second forever.
---
 poolx/gopoolx/timedpool.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index d2fccf9..8dd1474 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -48,7 +48,8 @@ func (pool *TimedPool[T]) start(preheat int) {
 			ch: make(chan T, 1),
 		}
 	})
-	pool.stop = make(chan struct{})
+	stop := make(chan struct{})
+	pool.stop = stop
 
 	if int64(preheat) > pool.maxWorkers {
 		preheat = int(pool.maxWorkers)
@@ -113,7 +114,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 				}
 				wbuffer = wbuffer[:0]
 
-			case <-pool.stop:
+			case <-stop:
 				pool.mu.Lock()
 				pool.maxWorkers = -1
 				for i := range pool.dobby {
@@ -208,11 +209,14 @@ func NewTimedPool[T any](maxWorkers int64, handler func(T), idleTimeout, gcPerio
 }
 
 func (pool *TimedPool[T]) Stop() {
-	if pool.stop == nil {
+	pool.mu.Lock()
+	stop := pool.stop
+	pool.stop = nil
+	pool.mu.Unlock()
+	if stop == nil {
 		return
 	}
-	pool.stop <- struct{}{}
-	pool.stop = nil
+	stop <- struct{}{}
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From 4f027ea3684b33af2f31bc6f5d2250bf78ecd38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 04/32] fix: decouplex a write that retries or drops must not
 consume a ring position

Every attempt took a ticket, so a dropped payload, or a retry that lost its slot,
left a position without payload: the reader then waits there forever, and
payloads are read out of order. Take the ticket once the slot is held.
---
 iox/decouplex/decouple.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..de9badc 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -51,7 +51,7 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 	}
 
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
+		ts := atomic.LoadUint64(&d._write) + 1
 		idx := ts % d.size
 
 		lock := atomic.LoadUint64(&d.locktab[idx])
@@ -59,6 +59,12 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
 				continue
 			}
+			// Take the ticket only with the slot in hand, a ticket without
+			// a payload would stop the reader forever.
+			if !atomic.CompareAndSwapUint64(&d._write, ts-1, ts) {
+				atomic.StoreUint64(&d.locktab[idx], empty)
+				continue
+			}
 			d.buffer[idx] = append(d.buffer[idx][:0], b...)
 			atomic.StoreUint64(&d.locktab[idx], ts)
 			atomic.AddUint64(&d._len, 1)
-- 
2.43.0


From 690df4ee5e23e9c4401ad82fe0d2e8c2c9e21b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 05/32] fix: decouplex count a payload before making it
 readable

Next could consume a stored but uncounted payload at the expense of the count of
another one, and then report an empty ring although a completed write was
pending.
---
 iox/decouplex/decouple.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index de9badc..9803957 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -66,8 +66,10 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 				continue
 			}
 			d.buffer[idx] = append(d.buffer[idx][:0], b...)
-			atomic.StoreUint64(&d.locktab[idx], ts)
+			// Count before publishing: once readable, a payload may be taken
+			// at the expense of the count of another one.
 			atomic.AddUint64(&d._len, 1)
+			atomic.StoreUint64(&d.locktab[idx], ts)
 			return len(b), nil
 		}
 
-- 
2.43.0


From 27f15729ddfe6e136e09302831de82a291574042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 06/32] fix: lockx Lock never acquired the lock of an ordinary
 value

Lock compared the first word of the value itself with the value's address and
overwrote it with nil: for any ordinary value that never matches, so Lock spun
forever, and a match would have destroyed the value (or memory beyond a small
one). Keep the locked pointers in a table instead, and release on panic.
---
 syncx/lockx/lockx.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/syncx/lockx/lockx.go b/syncx/lockx/lockx.go
index ce07a8c..ac28625 100644
--- a/syncx/lockx/lockx.go
+++ b/syncx/lockx/lockx.go
@@ -2,18 +2,20 @@ package lockx
 
 import (
 	"runtime"
-	"sync/atomic"
-	"unsafe"
+	"sync"
 )
 
+// held has the pointers whose values are locked.
+var held sync.Map
+
+// Lock calls f with l while no other call of Lock holds l.
 func Lock[T any](l *T, f func(*T)) {
-	p := l
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), unsafe.Pointer(p), nil) {
-		runtime.Gosched()
-		p = l
-	}
-	f(p)
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
+	for {
+		if _, busy := held.LoadOrStore(l, struct{}{}); !busy {
+			break
+		}
 		runtime.Gosched()
 	}
+	defer held.Delete(l)
+	f(l)
 }
-- 
2.43.0


From 34177129894028985859e213c43aea7d3ceec58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 07/32] fix: sleepx Wakeup could race with the start of a sleep
 and be lost

Wakeup replaced the context while a starting sleep read it: a data race, and a
sleep that picked up the new context stayed asleep although Wakeup had reported
true.
---
 timex/sleepx/sleepx.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..00a8fe9 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -9,6 +10,9 @@ import (
 )
 
 type Sleeper struct {
+	// mu orders the start of a sleep and its wakeup
+	mu sync.Mutex
+
 	// wakeup signal
 	ctx    context.Context
 	cancel context.CancelFunc
@@ -26,12 +30,22 @@ func New() *Sleeper {
 	}
 }
 
-func (s *Sleeper) SleepFor(d time.Duration) bool {
+// begin starts a sleep, if none is in progress, and returns its wakeup signal.
+func (s *Sleeper) begin() (<-chan struct{}, bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if !s.slept.CompareAndSwap(false, true) {
+		return nil, false
+	}
+	return s.ctx.Done(), true
+}
+
+func (s *Sleeper) SleepFor(d time.Duration) bool {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +57,11 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +73,11 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-done:
@@ -73,6 +87,8 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if !s.slept.Load() {
 		return false
 	}
-- 
2.43.0


From fdfed593c177b37404bbe9cc5a824d4fdcd2a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 08/32] fix: convx Into must not hold the registry lock while
 converting

---
 typex/convx/convx.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..16540c6 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -39,13 +39,10 @@ func Exists[T, R any]() bool {
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
+	// The converter runs without the lock, it may use the registry itself.
 	convertersLock.RLock()
-	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
-	if m == nil {
-		return
-	}
-	v := m[reflect.TypeOf(rs)]
+	v := converters[reflect.TypeOf(value)][reflect.TypeOf(rs)]
+	convertersLock.RUnlock()
 	if v == nil {
 		return
 	}
-- 
2.43.0


From edb2de91594b7e01c07f3cc86bcfb8632e4891e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 09/32] fix: closex CloseManager.Close returned a non-nil error
 when nothing failed

---
 iox/managerx/closex/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..766bc42 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,9 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
+
 	return errs
 }
-- 
2.43.0


From 083cc6b28a0dc4ed031ca6bccc3d6fe676553977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 10/32] fix: osx/closex a second signal ran the handler again
 and closed C twice

---
 osx/closex/closex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..6a0e44c 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -23,6 +23,9 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 			logger.Printf("Receive signal %s, Shutting down...", signal)
 			handler()
 			close(intr.C)
+			// Later signals stay registered, so they neither run the handler
+			// again nor kill the process, and are dropped.
+			return
 		}
 	}()
 	return intr
-- 
2.43.0


From b4918717465a0dd8cc2537b6c59b177f0c7ed1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 11/32] fix: linkedx/queuex Dequeue returned the following
 value and crashed on the last one

---
 dsx/linkedx/queuex/queuex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..af16dd3 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -32,6 +32,7 @@ func New[T any]() *Queue[T] {
 func (q *Queue[T]) Enqueue(data T) bool {
 	n := q.pool.Get().(*node[T])
 	n.data = data
+	n.next = nil
 	if q.head == nil {
 		q.head = n
 		q.tail = n
@@ -46,9 +47,10 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
+	data = q.head.data
 	q.pool.Put(q.head)
 	q.head = q.head.next
-	return q.head.data, true
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From f1e80c7b923fd5588dd1ee4076db02cc16edf643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 12/32] fix: linkedx/stackx Pop returned the following value
 and crashed on the last one

---
 dsx/linkedx/stackx/stackx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..ff19295 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,10 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
+	data = s.head.data
 	s.pool.Put(s.head)
 	s.head = s.head.next
-	return s.head.data, true
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From d99d4098c78e2bbbe93fe52ca2a4ee573acc6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 13/32] fix: linkedx/listx Insert and Remove lost the tail and
 miscounted out-of-range calls

---
 dsx/linkedx/listx/listx.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..d949b58 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.length {
+		return
+	}
+	if index == l.length {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
@@ -71,26 +73,29 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
+	if index < 0 || index >= l.length {
+		return
+	}
 	l.length--
 	if index == 0 {
-		if l.head == nil {
-			return
-		}
 		rs = l.head.data
 		l.pool.Put(l.head)
 		l.head = l.head.next
+		if l.head == nil {
+			l.tail = nil
+		}
 		ok = true
 		return
 	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
-			if p.next == nil {
-				return
-			}
 			rs = p.next.data
 			l.pool.Put(p.next)
 			p.next = p.next.next
+			if p.next == nil {
+				l.tail = p
+			}
 			ok = true
 			return
 		}
-- 
2.43.0


From 9c463def3f89a17dc454611c55f8f8fea8961fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 14/32] fix: linkedx/dequex emptying from one end left the
 other end in use

---
 dsx/linkedx/dequex/dequex.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..10dbe37 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -89,11 +89,15 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 	data = t.head.data[t.head.start]
 	t.head.start++
 	if t.head.start == t.head.end {
-		t.pool.Put(t.head)
-		t.head = t.head.next
+		n := t.head
+		t.head = n.next
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
+		n.next = nil
+		t.pool.Put(n)
 	}
 	return data, true
 }
@@ -105,11 +109,15 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 	t.tail.end--
 	data = t.tail.data[t.tail.end]
 	if t.tail.start == t.tail.end {
-		t.pool.Put(t.tail)
-		t.tail = t.tail.prev
+		n := t.tail
+		t.tail = n.prev
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
+		n.prev = nil
+		t.pool.Put(n)
 	}
 	return data, true
 }
-- 
2.43.0


From e615627055ee67d366e3fa9bf9b7f7bb85c08dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 15/32] fix: slicex/queuex Ring needs one slot more than its
 capacity

---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..fbe7081 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -18,7 +18,7 @@ func New[T any](cap int) *Ring[T] {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From a11553b4ccab25e3090b83e1a8602a64da5294f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 16/32] fix: slicex Splice overwrote the spare capacity of the
 inserted slice

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 08cdfc1..75d27e6 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -58,7 +58,7 @@ func (s *Slice[T]) Slice(i, j int) *Slice[T] {
 
 func (s *Slice[T]) Splice(i, j int, v ...T) *Slice[T] {
 	preprocIndexException(&i, &j, len(*s))
-	*s = append((*s)[:i], append(v, (*s)[j:]...)...)
+	*s = append((*s)[:i], append(v[:len(v):len(v)], (*s)[j:]...)...)
 	return s
 }
 
-- 
2.43.0


From 9ddcbf3cd1e6254cf4372c287e7219994caa1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 17/32] fix: slicex Delete of the largest int emptied the slice

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 75d27e6..b9693ca 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -75,6 +75,9 @@ func (s *Slice[T]) Cut(i, j int) *Slice[T] {
 }
 
 func (s *Slice[T]) Delete(i int) *Slice[T] {
+	if i < 0 || i >= len(*s) {
+		return s
+	}
 	return s.Cut(i, i+1)
 }
 
-- 
2.43.0


From d9892a58b258e7cf6b24cda66a3b0812416cc894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 18/32] fix: slicex DeleteReplace panicked past the end and on
 an empty slice

---
 dsx/slicex/slicex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index b9693ca..e84083f 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -110,7 +110,10 @@ func (s *Slice[T]) Shift() T {
 }
 
 func (s *Slice[T]) DeleteReplace(i int) *Slice[T] {
-	preprocIndexException(&i, nil, len(*s))
+	if len(*s) == 0 {
+		return s
+	}
+	preprocIndexException(&i, nil, len(*s)-1)
 	(*s)[i] = (*s)[len(*s)-1]
 	*s = (*s)[:len(*s)-1]
 	return s
-- 
2.43.0


From bb2245b7343caa414ba93a66786f9a3c4c9a915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 19/32] fix: slicex Rotate by the smallest int panicked

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index e84083f..d01cfb1 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -135,7 +135,7 @@ func (s *Slice[T]) Rotate(n int) *Slice[T] {
 		index := n % len(*s)
 		*s = append((*s)[index:], (*s)[:index]...)
 	} else if n < 0 {
-		index := -n % len(*s)
+		index := -(n % len(*s))
 		*s = append((*s)[len(*s)-index:], (*s)[:len(*s)-index]...)
 	}
 	return s
-- 
2.43.0


From e8802e9bf9f7fff1b2ab44eb6c050e4ae5ece99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 20/32] fix: slicex Repeat panicked for a negative count

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index d01cfb1..dd37cfa 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -161,6 +161,9 @@ func (s *Slice[T]) Filter(f func(T) bool) *Slice[T] {
 }
 
 func (s *Slice[T]) Repeat(cnt int) *Slice[T] {
+	if cnt < 0 || len(*s) == 0 {
+		cnt = 0
+	}
 	repeat := make(Slice[T], 0, len(*s)*cnt)
 	for i := 0; i < cnt; i++ {
 		repeat = append(repeat, *s...)
-- 
2.43.0


From 4b4ac2c72507d8481b849daf1dfc31724a857514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 21/32] fix: slicex Split overflowed for huge sizes

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index dd37cfa..93c8e73 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -177,6 +177,9 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 	var end int
 	for i := 0; i < len(splits); i++ {
 		endNext := end + splits[i]
+		if splits[i] > len(s)-end {
+			endNext = len(s)
+		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
 			r = append(r, s[endNext:end])
-- 
2.43.0


From b7e33562275fb277ee89d7191cf7aeabbaca68d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 22/32] fix: sklmapx Iterator.Next crashed when called again
 after the end

---
 dsx/mapx/sklmapx/sklmapx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..b55215a 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -213,7 +213,7 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
-	} else {
+	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
 	if i.node == i.list.skl.tail {
-- 
2.43.0


From dc7ecb6d7faccbfba7b3b42e8417ac254ef6d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 23/32] fix: sortx.Sort ignored its reverse argument

---
 algox/sortx/sortx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index c43c333..2d87a18 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -6,6 +6,10 @@ import (
 )
 
 func Sort[T constraints.Ordered](s []T, reverse bool) {
+	if reverse {
+		SortReverse(s)
+		return
+	}
 	SortCustom(s, func(i, j T) bool {
 		return i < j
 	})
-- 
2.43.0


From f31131acef02a169ca4247a1cafabc19209e4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 24/32] fix: aesx panicked on data of an unsuitable length

---
 cryptox/aesx/aesx.go | 5 +++++
 cryptox/aesx/cbcx.go | 6 ++++++
 cryptox/aesx/ctrx.go | 3 +++
 cryptox/aesx/gcmx.go | 3 +++
 4 files changed, 17 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 3d6349e..8eb065a 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -1 +1,6 @@
 package aesx
+
+import "errors"
+
+// ErrInvalidLength is returned for data whose length the mode cannot process.
+var ErrInvalidLength = errors.New("invalid data length")
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..2ac5974 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -13,6 +13,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrInvalidLength
+	}
 	iv := make([]byte, block.BlockSize())
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
@@ -30,6 +33,9 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize || len(data)%ivSize != 0 {
+		return nil, ErrInvalidLength
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..854fbb9 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrInvalidLength
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..0f9f8c8 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrInvalidLength
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From a0f629c418e1a0e7677a5aac8c7244308a07c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 25/32] fix: bcryptx.Decrypt accepted passwords differing only
 after byte 72

---
 cryptox/bcryptx/bcryptx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptox/bcryptx/bcryptx.go b/cryptox/bcryptx/bcryptx.go
index 086716c..6367733 100644
--- a/cryptox/bcryptx/bcryptx.go
+++ b/cryptox/bcryptx/bcryptx.go
@@ -28,6 +28,9 @@ func Encrypt(pw []byte) ([]byte, error) {
 }
 
 func Decrypt(enc, pw []byte) (bool, error) {
+	if len(pw) > DefMaxLen {
+		return false, ErrPasswordTooLong
+	}
 	err := bcrypt.CompareHashAndPassword(enc, pw)
 	if err != nil {
 		if err == bcrypt.ErrMismatchedHashAndPassword {
-- 
2.43.0


From 6748b0a7f5892bf0b5e08dbf666ae165618ef236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 26/32] fix: intersectionx result depended on the order of the
 arguments

---
 timex/intersectionx/intersectionx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..532743e 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,7 +17,11 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
-	return s[i].Offset < s[j].Offset
+	if s[i].Offset != s[j].Offset {
+		return s[i].Offset < s[j].Offset
+	}
+	// At the same point intervals begin before others end.
+	return s[i].Type < s[j].Type
 }
 
 func (s iSlice) Swap(i, j int) {
-- 
2.43.0


From e6aff434a6741f62dbe024a87b3ae65882680d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 27/32] fix: autotidy and autoupdate ran again in the root for
 a directory they cannot enter or list

---
 cmd/autotidy/autotidy.go     | 11 +++++++++--
 cmd/autoupdate/autoupdate.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 6ebbac2..fba0288 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -10,12 +10,19 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// path was visited already but cannot be listed
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if err := os.Chdir(path); err != nil {
+				log.Println("skipping", path, err)
+				return nil
+			}
 			log.Println("entering", path)
 			exec.Command("go", "mod", "tidy").Run()
 			log.Println("leaving", path)
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 556d49a..23eee06 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -10,12 +10,19 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// path was visited already but cannot be listed
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if err := os.Chdir(path); err != nil {
+				log.Println("skipping", path, err)
+				return nil
+			}
 			log.Println("entering", path)
 			exec.Command("go", "get", "-u").Run()
 			log.Println("leaving", path)
-- 
2.43.0


From e271654856a2329d49747467e2e6dafe9744add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 28/32] fix: gopoolx: a handler that ends its goroutine frees
 its worker's place

---
 poolx/gopoolx/timedpool.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 8dd1474..aea0b40 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -30,16 +30,19 @@ type TimedPool[T any] struct {
 }
 
 func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	// Deferred, the handler may end the goroutine.
+	defer func() {
+		pool.mu.Lock()
+		pool.workers--
+		pool.mu.Unlock()
+	}()
+
 	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
 		}
 	}
-
-	pool.mu.Lock()
-	pool.workers--
-	pool.mu.Unlock()
 }
 
 func (pool *TimedPool[T]) start(preheat int) {
@@ -136,7 +139,6 @@ func (pool *TimedPool[T]) free(w *timedworker[T]) (stop bool) {
 	w.tt = time.Now().UnixNano()
 	pool.mu.Lock()
 	if pool.maxWorkers == -1 {
-		pool.workers--
 		pool.mu.Unlock()
 		return true
 	}
-- 
2.43.0


From c4331e0f3e72a85d316f8a52eacd8e9aa9b9d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:53 +0000
Subject: [PATCH 29/32] fix: SleepFor of many seconds overflowed and returned
 at once

---
 timex/sleepx/sleepx.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index 00a8fe9..a584bb2 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -40,6 +41,17 @@ func (s *Sleeper) begin() (<-chan struct{}, bool) {
 	return s.ctx.Done(), true
 }
 
+// seconds returns the Duration of n seconds, or the nearest there is.
+func seconds(n time.Duration) time.Duration {
+	if n < 0 {
+		return 0
+	}
+	if n > math.MaxInt64/time.Second {
+		return math.MaxInt64
+	}
+	return n * time.Second
+}
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
 	done, ok := s.begin()
 	if !ok {
@@ -48,7 +60,7 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 	defer s.slept.Store(false)
 	for {
 		select {
-		case <-time.After(time.Duration(d) * time.Second):
+		case <-time.After(seconds(d)):
 			return true
 		case <-done:
 			return true
-- 
2.43.0


From 79cfa6668ed01a57cbd8a3ba49a307255790ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:39 +0000
Subject: [PATCH 30/32] fix: sklmapx an iterator returned entries removed
 during the walk, and crashed after Clear

---
 dsx/mapx/sklmapx/sklmapx.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index b55215a..444ff68 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -79,6 +79,7 @@ func (l *skl[K, V]) delete(key K, ctx *[MAX_HEIGHT]*sknode[K, V]) bool {
 	for i := 0; i < x.Height(); i++ {
 		ctx[i].next[i] = x.next[i]
 	}
+	x.height = 0 // removed, iterators pass over it
 	l.len--
 
 	return true
@@ -186,8 +187,17 @@ func (m *SkipListMap[K, V]) ToMap() map[K]V {
 }
 
 func (m *SkipListMap[K, V]) Clear() {
-	// Clear the map by creating a new one.
-	*m = *New[K, V]()
+	if m.skl.head == nil {
+		*m = *New[K, V]()
+		return
+	}
+	for x := m.skl.head.next[0]; x != m.skl.tail; x = x.next[0] {
+		x.height = 0 // removed, iterators pass over it
+	}
+	for i := range m.skl.head.next {
+		m.skl.head.next[i] = m.skl.tail
+	}
+	m.skl.len = 0
 }
 
 type Iterator[K constraints.Ordered, V any] struct {
@@ -216,6 +226,9 @@ func (i *Iterator[K, V]) Next() (K, V, bool) {
 	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
+	for i.node != i.list.skl.tail && i.node.height == 0 {
+		i.node = i.node.next[0]
+	}
 	if i.node == i.list.skl.tail {
 		var zero K
 		var zeroV V
-- 
2.43.0


From 4facdfd8924ffa73fb5115ff229d39459062d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:06 +0000
Subject: [PATCH 31/32] fix: convx kept all interface types under one key and
 never used their converters

---
 typex/convx/convx.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index 16540c6..0ade2b5 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -8,40 +8,45 @@ import (
 var converters = make(map[reflect.Type]map[reflect.Type]any)
 var convertersLock = sync.RWMutex{}
 
+// typeOf returns the type T, also of an interface type.
+func typeOf[T any]() reflect.Type {
+	return reflect.TypeOf((*T)(nil)).Elem()
+}
+
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[typeOf[T]()] == nil {
+		converters[typeOf[T]()] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[typeOf[T]()][typeOf[R]()] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, typeOf[R]())
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[typeOf[R]()]
 	return ok
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	// The converter runs without the lock, it may use the registry itself.
 	convertersLock.RLock()
-	v := converters[reflect.TypeOf(value)][reflect.TypeOf(rs)]
+	v := converters[typeOf[T]()][typeOf[R]()]
 	convertersLock.RUnlock()
 	if v == nil {
 		return
-- 
2.43.0


From cf910bdac252ad12fbf5f3e0e611aef5dcdb3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:49 +0000
Subject: [PATCH 32/32] fix: slicex/listx Insert at a position outside the list
 panicked and left an element behind

---
 dsx/slicex/listx/listx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/listx/listx.go b/dsx/slicex/listx/listx.go
index c13e611..d5a97ff 100644
--- a/dsx/slicex/listx/listx.go
+++ b/dsx/slicex/listx/listx.go
@@ -11,6 +11,9 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > len(*l) {
+		return
+	}
 	*l = append(*l, data)
 	copy((*l)[index+1:], (*l)[index:])
 	(*l)[index] = data
-- 
2.43.0

