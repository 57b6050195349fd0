// Package dec drives the ring decoupler for C05 and C06.
package dec

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/unsafe-risk/utilx/iox/decouplex"
	"verif.local/mc/harness/known"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// Which property's assertions are on.
type Mode int

const (
	Conserve Mode = iota // C05
	Order                // C06
)

const maxW = 15

type write struct {
	called, returned vsched.Counter // event times, 0: not yet
	accepted         vsched.Counter // 1 yes 2 dropped
	dropped          vsched.Counter // times passed to the drop function
	delivered        vsched.Counter // times handed to the consumer
	order            vsched.Counter // delivery position
	maxHeld          vsched.Counter // most payloads held by the ring during the call
	inProgress       vsched.Counter
}

type World struct {
	mode  Mode
	size  int64
	d     *decouplex.Decoupler
	w     [maxW]write
	clock vsched.Counter
	held  vsched.Counter // stored or in-progress payloads
	done  vsched.Counter // writes that returned accepted, not yet delivered
	nDel  vsched.Counter
	next  int // harness: ids
}

func fail(format string, a ...any) { vsched.Fail(format, a...) }

var errDrop [maxW]error

func init() {
	for i := range errDrop {
		errDrop[i] = errors.New(fmt.Sprint("drop ", i))
	}
}

func payload(id int) []byte {
	n := 1 + (id*3)%4
	b := make([]byte, n, n+2)
	for i := range b {
		b[i] = byte(id*16 + i + 1)
	}
	return b
}

func ident(b []byte) int {
	if len(b) == 0 {
		return -1
	}
	id := int(b[0]-1) / 16
	if id < 0 || id >= maxW {
		return -1
	}
	p := payload(id)
	if len(p) != len(b) {
		return -1
	}
	for i := range p {
		if p[i] != b[i] {
			return -1
		}
	}
	return id
}

func New(mode Mode, size uint64) *World {
	w := &World{mode: mode, size: int64(size)}
	w.d = decouplex.NewDecoupler(size, func(b []byte) (int, error) {
		id := ident(b)
		if id < 0 {
			fail("drop function got %v, which nobody wrote", b)
		}
		if n := w.w[id].dropped.Add(1); n > 1 {
			fail("payload %d dropped twice", id)
		}
		vsched.Trace("drop %d", id)
		return 100 + id, errDrop[id]
	})
	return w
}

// bump records a new level of the ring for every write in progress.
func (w *World) bump() {
	for i := range w.w {
		if w.w[i].inProgress.Get() == 1 {
			if h := w.held.Get() - 1; h > w.w[i].maxHeld.Get() {
				w.w[i].maxHeld.Set(h)
			}
		}
	}
}

func (w *World) Write(id int) {
	r := &w.w[id]
	b := payload(id)
	r.called.Set(w.clock.Add(1))
	r.inProgress.Set(1)
	w.held.Add(1)
	w.bump()
	n, err := w.d.Write(b)
	r.inProgress.Set(0)
	r.returned.Set(w.clock.Add(1))
	if vsched.Tracing() {
		vsched.Trace("Write(%d) = %d, %v", id, n, err)
	}
	for i := range b { // the caller reuses its buffer
		b[i] = 0xEE
	}
	b = append(b, 0xEE, 0xEE)
	_ = b
	if r.dropped.Get() > 0 {
		r.accepted.Set(2)
		w.held.Add(-1)
		if w.mode == Conserve && (n != 100+id || err != errDrop[id]) {
			fail("payload %d was dropped; Write returned %d, %v instead of the drop function's result", id, n, err)
		}
		if w.mode == Order && r.maxHeld.Get() < w.size {
			fail("payload %d was dropped although the ring (size %d) held at most %d payloads", id, w.size, r.maxHeld.Get())
		}
		return
	}
	r.accepted.Set(1)
	if w.mode == Conserve && (n != len(payload(id)) || err != nil) {
		fail("payload %d was stored; Write returned %d, %v", id, n, err)
	}
	if r.delivered.Get() == 0 {
		w.done.Add(1)
	}
}

// Next consumes one payload; it reports what Next returned.
func (w *World) Next(useNil bool) bool {
	pending := w.done.Get()
	got := -1
	calls := 0
	var ok bool
	view := func(b []byte) {
		calls++
		id := ident(b)
		if id < 0 {
			fail("consumer got %v, which nobody wrote", b)
		}
		vsched.Point("view")
		if ident(b) != id {
			fail("payload %d changed to %v while the consumer was looking at it", id, b)
		}
		got = id
	}
	if useNil {
		ok = w.d.Next(nil)
	} else {
		ok = w.d.Next(view)
	}
	if vsched.Tracing() {
		vsched.Trace("Next = %v (payload %d)", ok, got)
	}
	if !ok {
		if calls != 0 {
			fail("Next returned false but showed a payload")
		}
		if w.mode == Order && pending > 0 {
			fail("Next returned false with %d completed writes pending", pending)
		}
		return false
	}
	w.held.Add(-1)
	if useNil {
		return true
	}
	if calls != 1 {
		fail("Next returned true and showed %d payloads", calls)
	}
	r := &w.w[got]
	if r.called.Get() == 0 {
		fail("payload %d delivered before it was written", got)
	}
	if n := r.delivered.Add(1); n > 1 {
		fail("payload %d delivered %d times", got, n)
	}
	if r.dropped.Get() > 0 {
		fail("payload %d delivered and dropped", got)
	}
	r.order.Set(w.nDel.Add(1))
	if r.accepted.Get() == 1 {
		w.done.Add(-1)
	}
	if w.mode == Order {
		for i := range w.w {
			o := &w.w[i]
			if i != got && o.delivered.Get() > 0 && r.returned.Get() > 0 && r.returned.Get() < o.called.Get() {
				fail("payload %d, written before %d, delivered after it", got, i)
			}
		}
	}
	return true
}

// Drain empties the ring after every write has returned.
func (w *World) Drain() {
	want := 0
	for i := range w.w {
		if w.w[i].accepted.Get() == 1 && w.w[i].delivered.Get() == 0 {
			want++
		}
	}
	n := 0
	for w.Next(false) {
		if n++; n > want {
			fail("more payloads than were stored")
		}
	}
	out := ""
	for i := range w.w {
		r := &w.w[i]
		if r.called.Get() == 0 {
			continue
		}
		switch {
		case r.dropped.Get()+r.delivered.Get() == 0:
			fail("payload %d neither delivered nor dropped", i)
		case r.dropped.Get()+r.delivered.Get() > 1:
			fail("payload %d delivered %d times and dropped %d times", i, r.delivered.Get(), r.dropped.Get())
		}
		out += fmt.Sprint(r.order.Get())
	}
	vsched.Outcome("order=%s", out)
}

type Cfg struct {
	Size    uint64
	Fill    int   // payloads stored first
	Eat     int   // of which consumed first
	Writers []int // payloads per writer
	Nexts   int   // concurrent Next calls
}

func Racing(mode Mode, c Cfg) func() {
	return func() {
		w := New(mode, c.Size)
		id := 0
		for i := 0; i < c.Fill; i++ {
			w.Write(id)
			id++
		}
		for i := 0; i < c.Eat; i++ {
			w.Next(false)
		}
		var ts []*vsched.Thread
		for _, k := range c.Writers {
			k, first := k, id
			id += k
			ts = append(ts, vsched.GoNamed("writer", func() {
				for i := 0; i < k; i++ {
					w.Write(first + i)
				}
			}))
		}
		if c.Nexts > 0 {
			ts = append(ts, vsched.GoNamed("consumer", func() {
				for i := 0; i < c.Nexts; i++ {
					w.Next(false)
				}
			}))
		}
		vsched.Join(ts...)
		w.Drain()
	}
}

// History runs every sequence of operations against an exact model.
func History(mode Mode, size uint64, depth int) func() {
	return func() {
		if vsched.Choose(2) == 1 {
			nilDrop(mode, size, depth-3)
			return
		}
		w := New(mode, size)
		var q []int
		id := 0
		for i := 0; i < depth; i++ {
			switch vsched.Choose(3) {
			case 0:
				w.Write(id)
				acc := w.w[id].accepted.Get() == 1
				if want := len(q) < int(size); acc != want {
					fail("ring of %d holding %d: accepted=%v", size, len(q), acc)
				}
				if acc {
					q = append(q, id)
				}
				id++
			case 1:
				before := w.nDel.Get()
				ok := w.Next(false)
				if ok != (len(q) > 0) {
					fail("ring holding %d: Next returned %v", len(q), ok)
				}
				if ok {
					if w.w[q[0]].order.Get() != before+1 && mode == Order {
						fail("Next skipped payload %d", q[0])
					}
					for k, v := range q {
						if w.w[v].order.Get() == before+1 {
							q = append(q[:k:k], q[k+1:]...)
							break
						}
					}
				}
			case 2:
				if i > 0 {
					continue
				}
				emptyWrites(size)
			}
		}
		w.Drain()
	}
}

// emptyWrites: an empty payload always goes to the drop function.
func emptyWrites(size uint64) {
	calls := 0
	e := errors.New("x")
	d := decouplex.NewDecoupler(size, func(b []byte) (int, error) {
		calls++
		if len(b) != 0 {
			fail("drop function got %v for an empty payload", b)
		}
		return 42, e
	})
	for i := 0; i < 2; i++ {
		var b []byte
		if vsched.Choose(2) == 1 {
			b = []byte{}
		}
		calls = 0
		n, err := d.Write(b)
		if calls != 1 || n != 42 || err != e {
			fail("empty payload: drop called %d times, Write returned %d, %v", calls, n, err)
		}
		if d.Next(func([]byte) {}) {
			fail("empty payload was stored")
		}
		if i == 0 {
			if _, err := d.Write([]byte{7}); err != nil {
				fail("Write after an empty payload: %v", err)
			}
			if !d.Next(nil) {
				fail("payload written after an empty one is lost")
			}
		}
	}
}

// nilDrop: the default drop function reports success; nil views consume.
func nilDrop(mode Mode, size uint64, depth int) {
	d := decouplex.NewDecoupler(size, nil)
	var q []int
	id := 0
	for i := 0; i < depth; i++ {
		switch vsched.Choose(3) {
		case 0:
			p := payload(id)
			n, err := d.Write(p)
			if n != len(p) || err != nil {
				fail("Write returned %d, %v", n, err)
			}
			if len(q) < int(size) {
				q = append(q, id)
			}
			id++
		case 1, 2:
			var got = -2
			var ok bool
			if vsched.Choose(2) == 0 {
				ok = d.Next(func(b []byte) { got = ident(b) })
				if ok && len(q) > 0 && got != q[0] {
					fail("Next showed payload %d, want %d", got, q[0])
				}
			} else {
				ok = d.Next(nil)
			}
			if ok != (len(q) > 0) {
				fail("ring holding %d: Next returned %v", len(q), ok)
			}
			if ok {
				q = q[1:]
			}
		}
	}
	for range q {
		if !d.Next(nil) {
			fail("stored payload lost")
		}
	}
	if d.Next(nil) {
		fail("payload out of nowhere")
	}
}

// lengths: short and long payloads from one reused buffer, at all places of
// the ring.
func lengths(size uint64, depth int, ns ...int) func() {
	return func() {
		var dropped []byte
		d := decouplex.NewDecoupler(size, func(b []byte) (int, error) {
			dropped = append([]byte{}, b...)
			return -len(b), errDrop[0]
		})
		var q [][]byte
		buf := make([]byte, 1<<20)
		id := byte(0)
		next := func() {
			ok := d.Next(func(b []byte) {
				if len(q) == 0 || string(b) != string(q[0]) {
					fail("a payload of %d bytes differs from what was written, %d waiting", len(b), len(q))
				}
			})
			if ok != (len(q) > 0) {
				fail("ring holding %d: Next returned %v", len(q), ok)
			}
			if ok {
				q = q[1:]
			}
		}
		for i := 0; i < depth; i++ {
			c := vsched.Choose(len(ns) + 1)
			if c == len(ns) {
				next()
				continue
			}
			n := ns[c]
			id++
			b := buf[:n]
			for j := range b {
				b[j] = id + byte(j)*3
			}
			p := append([]byte{}, b...)
			dropped = nil
			m, err := d.Write(b)
			if string(b) != string(p) {
				fail("Write changes its argument")
			}
			if len(q) < int(size) {
				if m != n || err != nil || dropped != nil {
					fail("ring of %d holding %d: Write of %d bytes gives (%d, %v), dropped %v", size, len(q), n, m, err, dropped != nil)
				}
				q = append(q, p)
			} else if m != -n || err != errDrop[0] || string(dropped) != string(p) {
				fail("full ring: Write of %d bytes gives (%d, %v), the drop function got %d bytes", n, m, err, len(dropped))
			}
		}
		for range append(q, nil) {
			next()
		}
	}
}

// results: the drop function's result reaches the caller as it is, whatever
// number or error.
func results() {
	n := []int{0, 1, -1, 3, 4, 5, 1 << 40, -1 << 63, 1<<63 - 1}[vsched.Choose(9)]
	k := vsched.Choose(len(known.Errors) + 1)
	var e error
	if k > 0 {
		e = known.Errors[k-1]
	}
	calls := 0
	d := decouplex.NewDecoupler(1, func(b []byte) (int, error) { calls++; return n, e })
	if _, err := d.Write([]byte("full")); err != nil || calls != 0 {
		fail("ring of 1: the first Write gives %v, %d drops", err, calls)
	}
	for i := 1; i < 4; i++ {
		m, err := d.Write([]byte("many")[:i])
		if calls != i || m != n || !known.Same(err, e) {
			fail("full ring: drop called %d times in %d writes; Write gives (%d, %v), the drop function gave (%d, %v)", calls, i, m, err, n, e)
		}
	}
	if !d.Next(func(b []byte) {
		if string(b) != "full" {
			fail("Next shows %q", b)
		}
	}) || d.Next(nil) {
		fail("not just the payload stored is delivered")
	}
}

// marathon: very many payloads through rings of many sizes, the ring never
// full, full now and then, or always full.
func marathon(count int) func() {
	return func() {
		size := []int{1, 2, 3, 5, 7, 64, 1000, 65535, 65536, 65537, 70000}[vsched.Choose(11)]
		level := []int{1, size/2 + 1, size}[vsched.Choose(3)] // payloads held before reading
		burst := []int{1, size/3 + 1, size}[vsched.Choose(3)] // payloads read at a time
		drops := 0
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { drops++; return 0, nil })
		var buf [8]byte
		w, r := 0, 0
		read := func() {
			ok := d.Next(func(b []byte) {
				if len(b) != 8 || binary.LittleEndian.Uint64(b) != uint64(r)+1 {
					fail("ring of %d: payload %d is %x", size, r, b)
				}
			})
			if !ok {
				fail("ring of %d holding %d after %d payloads: nothing to read", size, w-r, w)
			}
			r++
		}
		for w < count {
			for w-r < level {
				binary.LittleEndian.PutUint64(buf[:], uint64(w)+1)
				if n, err := d.Write(buf[:]); n != 8 || err != nil {
					fail("ring of %d holding %d after %d payloads: Write gives (%d, %v), dropped %d", size, w-r, w, n, err, drops)
				}
				w++
			}
			if level == size {
				drops = 0
				if d.Write(buf[:]); drops != 1 {
					fail("full ring of %d after %d payloads: a further one is not dropped", size, w)
				}
				drops = 0
			}
			for i := 0; i < burst && r < w; i++ {
				read()
			}
		}
		for r < w {
			read()
		}
		if d.Next(nil) || drops != 0 {
			fail("ring of %d: something is left, or %d dropped", size, drops)
		}
	}
}

// large: rings of many sizes, filled and emptied at every offset.
func large() {
	size := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257}[vsched.Choose(19)]
	eat := vsched.Choose(size + 1)
	drops := 0
	d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { drops++; return 0, nil })
	w, r := 0, 0
	for round := 0; round < 4; round++ {
		for w-r < size {
			d.Write([]byte(fmt.Sprint("payload ", w)))
			w++
		}
		if drops != round {
			fail("ring of %d drops before it is full", size)
		}
		d.Write([]byte("too much"))
		if drops != round+1 {
			fail("full ring of %d accepts a payload", size)
		}
		n := eat
		if round == 3 {
			n = size
		}
		for i := 0; i < n; i++ {
			if !d.Next(func(b []byte) {
				if string(b) != fmt.Sprint("payload ", r) {
					fail("ring of %d: payload %d is %q", size, r, b)
				}
			}) {
				fail("ring of %d holding %d: nothing to read", size, w-r)
			}
			r++
		}
	}
	if d.Next(nil) {
		fail("payload out of nowhere")
	}
}

func Units(mode Mode) func(th bool) []drv.Unit {
	return func(th bool) []drv.Unit {
		var us []drv.Unit
		depth := 10
		if th {
			depth = 13
		}
		for size := uint64(1); size <= 3; size++ {
			us = append(us, drv.Unit{Name: fmt.Sprintf("history-%d", size), Steps: 2000, Shards: 2, Split: 4, Body: History(mode, size, depth)})
		}
		ld := 6
		if th {
			ld = 7
		}
		for size := uint64(1); size <= 3; size++ {
			us = append(us, drv.Unit{Name: fmt.Sprintf("lengths-%d", size), Shards: 2, Split: 2, Body: lengths(size, ld, 1, 30, 300, 1500, 9000)})
			us = append(us, drv.Unit{Name: fmt.Sprintf("lengths-%d-huge", size), Shards: 2, Split: 2, Body: lengths(size, ld-2, 5, 1<<16, 70000, 1<<20)})
		}
		us = append(us, drv.Unit{Name: "results", Body: results})
		count := 150000
		if th {
			count = 2000000
		}
		us = append(us, drv.Unit{Name: "marathon", Steps: 1 << 40, Shards: 8, Split: 3, Body: marathon(count)})
		us = append(us, drv.Unit{Name: "large-rings", Shards: 4, Split: 2, Body: large})
		add := func(name string, delay, preempt int, c Cfg) {
			if th {
				delay++
				preempt++
			}
			us = append(us, drv.Bounds(drv.Unit{Name: name, Steps: 3000, Spin: 15, Body: Racing(mode, c)}, delay, preempt)...)
		}
		add("two-writers-one-slot", 4, 2, Cfg{Size: 1, Writers: []int{1, 1}, Nexts: 2})
		add("two-writers-two-slots", 4, 2, Cfg{Size: 2, Writers: []int{1, 1}, Nexts: 2})
		add("two-by-two", 4, 2, Cfg{Size: 2, Writers: []int{2, 2}, Nexts: 2})
		add("full-ring", 4, 2, Cfg{Size: 2, Fill: 2, Writers: []int{1, 1}, Nexts: 2})
		add("full-ring-wrapped", 4, 2, Cfg{Size: 2, Fill: 2, Eat: 1, Writers: []int{2, 1}, Nexts: 3})
		add("three-writers", 3, 1, Cfg{Size: 2, Writers: []int{1, 1, 1}, Nexts: 2})
		add("three-slots", 3, 1, Cfg{Size: 3, Fill: 2, Eat: 1, Writers: []int{2, 2}, Nexts: 2})
		add("writers-only", 4, 2, Cfg{Size: 2, Writers: []int{2, 2}})
		if th {
			add("three-by-two", 3, 1, Cfg{Size: 2, Writers: []int{2, 2, 1}, Nexts: 3})
			add("one-slot-three", 4, 2, Cfg{Size: 1, Writers: []int{1, 1, 1}, Nexts: 3})
		}
		return us
	}
}

var Assumptions = []string{"one consumer at a time, ring size at least 1", "scheduling points at every atomic operation; unsynchronised accesses are reported by the race detector on every explored schedule", "memory is sequentially consistent at atomic operations (Go's memory model)"}

const Bounds = "ring size 1-3; 1-3 writers with 1-2 payloads each, 0-3 concurrent Next calls; operation sequences of 10 (quick) or 13 (thorough); payloads of 1-9000 bytes in sequences of 6 (7), of up to 1 MiB in sequences of 4 (5); rings of up to 257 slots filled and emptied at every offset; 150000 (2 million) payloads through rings of 1 to 70000 slots; deviation bounds per unit"
