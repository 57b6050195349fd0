// M01: using a value over and over needs memory for its contents only.
package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llistx "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueuex "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstackx "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slistx "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeuex "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstackx "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	"github.com/unsafe-risk/utilx/syncx/lockx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/timex/sleepx"
	"github.com/unsafe-risk/utilx/timex/truncatex"
	"github.com/unsafe-risk/utilx/typex/convx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// op performs the i-th use and says by how much the contents grew.
type op struct {
	name string
	run  func(i int) int
}

type subject struct {
	name  string
	quick int // word length
	deep  int
	mk    func() []op
	reps  int
}

func b(ok bool, d int) int {
	if ok {
		return d
	}
	return 0
}

// payload makes elements that hold memory of their own.
type payload struct{ b [48]byte }

func val(i int) *payload { return &payload{} }

func fifo(q interface {
	Enqueue(*payload) bool
	Dequeue() (*payload, bool)
	Peek() (*payload, bool)
}) []op {
	return []op{
		{"Enqueue", func(i int) int { return b(q.Enqueue(val(i)), 1) }},
		{"Dequeue", func(i int) int { _, ok := q.Dequeue(); return b(ok, -1) }},
		{"Peek", func(i int) int { q.Peek(); return 0 }},
	}
}

func lifo(s interface {
	Push(*payload) bool
	Pop() (*payload, bool)
	Peek() (*payload, bool)
}) []op {
	return []op{
		{"Push", func(i int) int { return b(s.Push(val(i)), 1) }},
		{"Pop", func(i int) int { _, ok := s.Pop(); return b(ok, -1) }},
		{"Peek", func(i int) int { s.Peek(); return 0 }},
	}
}

type list interface {
	Append(*payload)
	Insert(int, *payload)
	Remove(int) (*payload, bool)
	At(int) (*payload, bool)
	Iterate(func(*payload) bool)
	Len() int
}

func lists(l list) []op {
	grown := func(f func()) func(int) int {
		return func(int) int { n := l.Len(); f(); return l.Len() - n }
	}
	return []op{
		{"Append", grown(func() { l.Append(val(0)) })},
		{"Insert first", grown(func() { l.Insert(0, val(0)) })},
		{"Insert second", grown(func() { l.Insert(min(1, l.Len()), val(0)) })},
		{"Remove first", grown(func() { l.Remove(0) })},
		{"Remove second", grown(func() { l.Remove(1) })},
		{"Remove last", grown(func() { l.Remove(l.Len() - 1) })},
		{"read", grown(func() { l.At(0); l.Iterate(func(*payload) bool { return true }) })},
	}
}

func slices() []op {
	s := slicex.New[*payload]()
	grown := func(f func()) func(int) int {
		return func(int) int { n := s.Len(); f(); return s.Len() - n }
	}
	return []op{
		{"Push", grown(func() { s.Push(val(0)) })},
		{"Pop", grown(func() { s.Pop() })},
		{"UnShift", grown(func() { s.UnShift(val(0)) })},
		{"Shift", grown(func() { s.Shift() })},
		{"Insert", grown(func() { s.Insert(min(1, s.Len()), val(0)) })},
		{"Delete", grown(func() { s.Delete(0) })},
		{"Cut", grown(func() { s.Cut(0, 2) })},
		{"Rotate", grown(func() { s.Rotate(1) })},
		{"Splice", grown(func() { s.Splice(0, 1, val(0)) })},
		{"Clear", grown(func() { s.Clear() })},
		{"Copy, Split", grown(func() { s.Copy(); s.Split(1); s.Batch(2) })},
	}
}

// maps: fixed keys and keys that never return.
func maps(set func(int, *payload), del func(int), clear, read func(), size func() int, back int) []op {
	grown := func(f func(i int)) func(int) int {
		return func(i int) int { n := size(); f(i); return size() - n }
	}
	return []op{
		{"Set old", grown(func(i int) { set(1, val(0)) })},
		{"Set new", grown(func(i int) { set(1000+i, val(0)) })},
		{"Del old", grown(func(i int) { del(1) })},
		{"Del newest", grown(func(i int) { del(1000 + i) })},
		{"Del previous", grown(func(i int) { del(1000 + i - 1) })},
		{"Del absent", grown(func(i int) { del(-i) })},
		{"Clear", grown(func(i int) { clear() })},
		{"read", grown(func(i int) { read() })},
	}
}

type closer struct{ err error }

func (c closer) Close() error { return c.err }

var errClose = errors.New("close")

var subjects = []subject{
	{"linked-queue", 6, 8, func() []op { return fifo(lqueuex.New[*payload]()) }, 0},
	{"ring-queue", 6, 8, func() []op { return fifo(squeuex.New[*payload](3)) }, 0},
	{"linked-stack", 6, 8, func() []op { return lifo(lstackx.New[*payload]()) }, 0},
	{"slice-stack", 6, 8, func() []op { return lifo(sstackx.New[*payload]()) }, 0},
	{"linked-list", 4, 5, func() []op { return lists(llistx.New[*payload]()) }, 0},
	{"slice-list", 4, 5, func() []op { return lists(new(slistx.List[*payload])) }, 0},
	{"deque", 6, 8, func() []op {
		d := dequex.New[*payload]()
		return []op{
			{"PushFront", func(i int) int { d.PushFront(val(i)); return 1 }},
			{"PushBack", func(i int) int { d.PushBack(val(i)); return 1 }},
			{"PopFront", func(i int) int { _, ok := d.PopFront(); return b(ok, -1) }},
			{"PopBack", func(i int) int { _, ok := d.PopBack(); return b(ok, -1) }},
		}
	}, 0},
	{"deque-chunks", 5, 6, func() []op {
		d := dequex.New[*payload]()
		n := 0
		many := func(f func() bool, by int) func(int) int {
			return func(int) int {
				r := 0
				for i := 0; i < 70; i++ {
					if by > 0 && n+r >= 300 {
						break
					}
					r += b(f(), by)
				}
				n += r
				return r
			}
		}
		return []op{
			{"PushFront", many(func() bool { d.PushFront(val(0)); return true }, 1)},
			{"PushBack", many(func() bool { d.PushBack(val(0)); return true }, 1)},
			{"PopFront", many(func() bool { _, ok := d.PopFront(); return ok }, -1)},
			{"PopBack", many(func() bool { _, ok := d.PopBack(); return ok }, -1)},
		}
	}, 400},
	{"slice", 3, 4, slices, 0},
	{"skip-list", 4, 5, func() []op {
		m := sklmapx.New[int, *payload]()
		return maps(m.Set, func(k int) { m.Del(k) }, m.Clear, func() {
			m.Get(1)
			m.Keys()
			it := m.Iterator()
			it.Seek(0)
			it.Next()
		}, m.Len, 0)
	}, 0},
	{"ordered-map", 4, 5, func() []op {
		m := ordmapx.New[int, *payload]()
		return maps(m.Set, m.Del, m.Clear, func() {
			m.Get(1)
			m.Keys()
			m.Range(func(int, *payload) bool { return false })
		}, m.Len, 0)
	}, 0},
	{"synchronised-map", 4, 5, func() []op {
		m := syncmapx.New[int, *payload]()
		return maps(m.Set, m.Delete, m.Clear, func() {
			m.Get(1)
			m.Keys()
			m.Values()
		}, m.Size, 0)
	}, 0},
	{"lock", 3, 5, func() []op {
		var old payload
		return []op{
			{"Lock old", func(i int) int { lockx.Lock(&old, func(p *payload) { p.b[0]++ }); return 0 }},
			{"Lock new", func(i int) int { lockx.Lock(new(payload), func(p *payload) { p.b[0]++ }); return 0 }},
			{"Lock nested", func(i int) int {
				lockx.Lock(new(payload), func(p *payload) { lockx.Lock(new(payload), func(p *payload) {}) })
				return 0
			}},
			{"Lock and panic", func(i int) int {
				drv.Try(func() { lockx.Lock(new(payload), func(p *payload) { panic("body") }) })
				return 0
			}},
		}
	}, 0},
	{"conversions", 3, 4, func() []op {
		type key struct{ i int }
		has := func() int { return b(convx.Exists[key, string](), 1) }
		grown := func(f func(i int)) func(int) int {
			return func(i int) int { n := has(); f(i); return has() - n }
		}
		return []op{
			{"Register", grown(func(i int) { p := val(i); convx.Register(func(k key) string { p.b[0]++; return "" }) })},
			{"Unregister", grown(func(i int) { convx.Unregister[key, string]() })},
			{"Into", grown(func(i int) { convx.Into[key, string](key{i}) })},
			{"Into missing", grown(func(i int) { convx.Into[string, key](fmt.Sprint(i)) })},
			{"Into built-in", grown(func(i int) { convx.Into[int, string](i); convx.Into[string, []rune](fmt.Sprint(i)) })},
			{"IntoOr", grown(func(i int) { convx.IntoOr(key{i}, "or") })},
		}
	}, 0},
	{"decoupler", 6, 8, func() []op {
		d := decouplex.NewDecoupler(4, func(p []byte) (int, error) { return 0, io.ErrShortWrite })
		buf := make([]byte, 64)
		return []op{
			{"Write", func(i int) int { _, err := d.Write(buf); return b(err == nil, 1) }},
			{"Write short", func(i int) int { _, err := d.Write(buf[:i%5]); return b(err == nil, 1) }},
			{"Next", func(i int) int { return b(d.Next(func([]byte) {}), -1) }},
		}
	}, 0},
	{"sleeper", 3, 4, func() []op {
		s := sleepx.New()
		return []op{
			{"SleepFor", func(i int) int { s.SleepFor(time.Millisecond); return 0 }},
			{"Wakeup", func(i int) int { s.Wakeup(); return 0 }},
			{"New", func(i int) int { s = sleepx.New(); return 0 }},
		}
	}, 0},
	{"short-lived", 3, 4, func() []op {
		var p syncpoolx.Pool[payload]
		p.Init(func() *payload { return new(payload) })
		return []op{
			{"using", func(i int) int { usingx.Close(closer{nil}, closer{errClose})(func() {}); return 0 }},
			{"lazy", func(i int) int { lazyx.New(func() *payload { return val(i) }).Get(); return 0 }},
			{"pool", func(i int) int { p.Put(p.Get()); return 0 }},
			{"maps", func(i int) int {
				m, o := sklmapx.New[int, int](), ordmapx.New[int, int]()
				m.Set(i, i)
				o.Set(i, i)
				return 0
			}},
			{"decoupler", func(i int) int { decouplex.NewDecoupler(2, nil).Write(make([]byte, 32)); return 0 }},
			{"sequences", func(i int) int {
				dequex.New[int]().PushBack(i)
				lqueuex.New[int]().Enqueue(i)
				squeuex.New[int](3).Enqueue(i)
				llistx.New[int]().Append(i)
				return 0
			}},
		}
	}, 0},
}

// data differs every time.
func data(i int) []byte { return []byte(fmt.Sprintf("%032d", i)) }

func crypt(enc, dec func(a, b []byte) ([]byte, error)) func(i int) int {
	return func(i int) int {
		ct, err := enc(data(i), data(-i)[:1+i%31])
		if err == nil {
			dec(ct, data(-i)[:1+i%31])
		}
		dec(data(i), data(i))
		return 0
	}
}

func init() {
	subjects = append(subjects, subject{"functions", 2, 3, func() []op {
		return []op{
			{"CBC", crypt(aesx.EncryptCBC, aesx.DecryptCBC)},
			{"CTR", crypt(aesx.EncryptCTR, aesx.DecryptCTR)},
			{"GCM", crypt(aesx.EncryptGCM, aesx.DecryptGCM)},
			{"malformed hashes", func(i int) int {
				passhashx.Verify(data(i), data(-i))
				passhashx.VerifyBase64(data(i), base64.StdEncoding.EncodeToString(data(i)))
				bcryptx.Decrypt(data(i), data(i))
				return 0
			}},
			{"time", func(i int) int {
				t := int64(i) * 86400
				truncatex.TruncateYear(t)
				truncatex.TruncateMonth(t)
				truncatex.TruncateWeek(t)
				truncatex.TruncateDay(t)
				timex.Custom(t, t)
				intersectionx.Intersection(intersectionx.Interval{Offset: t, ConfidenceBand: 5}, intersectionx.Interval{Offset: t + 1, ConfidenceBand: 5})
				d := diffx.New()
				d.Start()
				d.End()
				return 0
			}},
			{"sorting", func(i int) int {
				a := []int{i, i - 1, i + 5, i / 2}
				sortx.Sort(a, i%2 == 0)
				sortx.SortStable(a)
				searchx.Search(a, i)
				return 0
			}},
			{"functional", func(i int) int {
				optionx.Some(val(i)).Match(func(*payload) (*payload, error) { return nil, nil }, func() (*payload, error) { return nil, nil })
				resultx.Ok[*payload, error](val(i)).Match(func(*payload) (*payload, error) { return nil, nil }, func(error) (*payload, error) { return nil, nil })
				optionalx.Parameter(func(p *payload) *payload { return p }, func(*payload) *payload { return val(i) })
				return 0
			}},
		}
	}, 0}, subject{"hashing", 1, 2, func() []op {
		return []op{
			{"passhash", func(i int) int {
				h, _ := passhashx.Hash(data(i), passhashx.SecurityLevelMobileLow)
				passhashx.Verify(data(i), h)
				passhashx.Verify(data(i+1), h)
				return 0
			}},
			{"passhash base64", func(i int) int {
				h, _ := passhashx.HashBase64(data(i), passhashx.SecurityLevelMobileLow)
				passhashx.VerifyBase64(data(i), h)
				return 0
			}},
			{"bcrypt", func(i int) int {
				h, _ := bcryptx.Encrypt(data(i))
				bcryptx.Decrypt(h, data(i))
				return 0
			}},
		}
	}, 300})
}

type usage struct{ objects, bytes int64 }

func measure() usage {
	runtime.GC()
	runtime.GC() // pooled objects
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return usage{int64(m.HeapObjects), int64(m.HeapAlloc)}
}

// words repeats every word of operations that leaves the contents' size as it
// was, and compares the memory held after few and after many repetitions.
func words(s subject, n int) func() {
	return func() {
		vcrand.Reset()
		vargon2.Calls = nil
		vcrand.Quiet, vargon2.Quiet = true, true
		defer func() { vcrand.Quiet, vargon2.Quiet = false, false }()
		ops := s.mk()
		var w []op
		var name []string
		for l := 1 + vsched.Choose(n); len(w) < l; {
			o := ops[vsched.Choose(len(ops))]
			w = append(w, o)
			name = append(name, o.name)
		}
		i, size := 0, 0
		round := func() {
			i++
			for _, o := range w {
				size += o.run(i)
			}
		}
		for k := 0; k < 8; k++ {
			round()
		}
		settled := size
		round()
		if size != settled {
			vsched.LogD("growing")
			return
		}
		reps := 3000
		if s.reps > 0 {
			reps = s.reps
		}
		for k := 0; k < reps/10; k++ {
			round()
		}
		before := measure()
		for k := 0; k < reps; k++ {
			round()
		}
		after := measure()
		if size != settled {
			vsched.LogD("growing")
			return
		}
		do, db := after.objects-before.objects, after.bytes-before.bytes
		if do > int64(reps/3)+50 || db > int64(4*reps)+4096 {
			// Once more: memory held because of the uses keeps growing.
			for k := 0; k < reps; k++ {
				round()
			}
			last := measure()
			if last.objects-after.objects > int64(reps/3)+50 || last.bytes-after.bytes > int64(4*reps)+4096 {
				vsched.Fail("%d repetitions of %s, which leave %d elements, hold %d more objects and %d more bytes", reps, strings.Join(name, ", "), size, do, db)
			}
		}
		runtime.KeepAlive(ops)
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "M01",
		Level:       "model_checking",
		Rule:        "for every container, lock, registry, sleeper, decoupler and short-lived value: every word of its operations up to a length; a word that leaves the number of elements as it was is repeated thousands of times on the real code, and the objects and bytes reachable after garbage collection may not grow with the repetitions",
		Bounds:      "words of 3 to 6 (4 to 8) operations depending on the component; 3000 repetitions (400 of 70 operations each for deque chunks)",
		Assumptions: []string{"a close manager holds what was appended; goroutines that stay behind are C04's and C08's matter"},
		Units: func(th bool) (us []drv.Unit) {
			for _, s := range subjects {
				n := s.quick
				if th {
					n = s.deep
				}
				us = append(us, drv.Unit{Name: s.name, Shards: 4, Split: 3, Steps: 1 << 30, Body: words(s, n)})
			}
			return us
		},
	})
}
