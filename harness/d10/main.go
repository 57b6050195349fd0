// D10: the skip-list iterator walks in order, seeks exactly and ends cleanly.
package main

import (
	"fmt"
	"sort"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"verif.local/mc/harness/skl"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

const (
	fresh     = iota // Next gives the smallest
	at               // on entry key, still in the map
	gone             // on entry key, deleted; nothing changed since
	loose            // on entry key, deleted; the set of keys changed since
	end              // exhausted
	undefined        // needs Rewind or Seek
)

type iter struct {
	it    *sklmapx.Iterator[int, *drv.Tok]
	state int
	key   int
	kept  []int // loose: the keys above key that were there all along
}

type world struct {
	m     *sklmapx.SkipListMap[int, *drv.Tok]
	model map[int]*drv.Tok
	its   []*iter
	n     int
}

func mk(its int) *world {
	w := &world{m: sklmapx.New[int, *drv.Tok](), model: map[int]*drv.Tok{}}
	for i := 0; i < its; i++ {
		w.its = append(w.its, &iter{it: w.m.Iterator()})
	}
	return w
}

func (w *world) keys() []int {
	var r []int
	for k := range w.model {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// succ is the smallest key above k (from the very start if !has).
func (w *world) succ(k int, has bool) (int, bool) {
	for _, j := range w.keys() {
		if !has || j > k {
			return j, true
		}
	}
	return 0, false
}

// loosen: the entry the iterator is on is deleted, and other keys come and go.
func (w *world) loosen(i *iter) {
	i.state, i.kept = loose, nil
	for _, k := range w.keys() {
		if k > i.key {
			i.kept = append(i.kept, k)
		}
	}
}

// changed: the set of keys is about to change.
func (w *world) changed() {
	for _, i := range w.its {
		if i.state == gone {
			w.loosen(i)
		}
	}
}

// drop: k is not there all along.
func (w *world) drop(k int) {
	for _, i := range w.its {
		for j, kk := range i.kept {
			if kk == k {
				i.kept = append(i.kept[:j:j], i.kept[j+1:]...)
				break
			}
		}
	}
}

func (w *world) clear() {
	for _, i := range w.its {
		if i.state == at || i.state == gone || i.state == loose {
			i.state, i.kept = loose, nil
		}
	}
	drv.NoPanic("Clear", func() { w.m.Clear() })
	w.model = map[int]*drv.Tok{}
}

func (w *world) set(k int) {
	w.n++
	t := drv.NewTok(w.n)
	if _, ok := w.model[k]; !ok {
		w.changed()
	}
	drv.NoPanic("Set", func() { w.m.Set(k, t) })
	w.model[k] = t
}

func (w *world) del(k int) {
	_, ok := w.model[k]
	if ok {
		w.changed()
		for _, i := range w.its {
			if i.state == at && i.key == k {
				i.state = gone
			}
		}
	}
	got := false
	drv.NoPanic("Del", func() { got = w.m.Del(k) })
	if got != ok {
		vsched.Fail("Del(%d) is %v", k, got)
	}
	delete(w.model, k)
	w.drop(k)
}

func (w *world) next(x int) {
	i := w.its[x]
	if i.state == undefined {
		return
	}
	var k int
	var v *drv.Tok
	var ok bool
	drv.NoPanic(fmt.Sprintf("Next (keys %v, iterator state %d at %d)", w.keys(), i.state, i.key), func() { k, v, ok = i.it.Next() })
	if i.state == end {
		if ok {
			vsched.Fail("Next after the end gives (%d, %v)", k, v)
		}
		return
	}
	if i.state == loose {
		// any entry there is, but not past one that was there all along
		if !ok {
			if len(i.kept) > 0 || k != 0 || v != nil {
				vsched.Fail("Next gives (%d, %v, false) past %d; keys %v", k, v, i.key, w.keys())
			}
			i.state = end
			return
		}
		t, has := w.model[k]
		if !has || t != v || k <= i.key || len(i.kept) > 0 && k > i.kept[0] {
			vsched.Fail("Next gives (%d, %v) past %d, which was deleted; keys %v, of which %v were there all along", k, v, i.key, w.keys(), i.kept)
		}
		i.state, i.key, i.kept = at, k, nil
		return
	}
	want, has := w.succ(i.key, i.state != fresh)
	var wt *drv.Tok
	if has {
		wt = w.model[want]
	}
	if ok != has || k != want || v != wt {
		vsched.Fail("Next gives (%d, %v, %v), want (%d, %v, %v); keys %v", k, v, ok, want, wt, has, w.keys())
	}
	if !has {
		i.state = end
		return
	}
	i.state, i.key = at, want
}

func (w *world) seek(x, k int) {
	i := w.its[x]
	var j int
	var v *drv.Tok
	var ok bool
	drv.NoPanic("Seek", func() { j, v, ok = i.it.Seek(k) })
	t, has := w.model[k]
	if ok != has || v != t || has && j != k || !has && j != 0 {
		vsched.Fail("Seek(%d) gives (%d, %v, %v); keys %v", k, j, v, ok, w.keys())
	}
	i.kept = nil
	if has {
		i.state, i.key = at, k
	} else {
		i.state = undefined
	}
}

func (w *world) rewind(x int) {
	drv.NoPanic("Rewind", func() { w.its[x].it.Rewind() })
	w.its[x].state, w.its[x].kept = fresh, nil
}

func (w *world) desc() string {
	s := fmt.Sprint(w.keys())
	for _, i := range w.its {
		k := i.key
		if i.state != at && i.state != gone && i.state != loose {
			k = 0
		}
		s += fmt.Sprintf("/%d@%d%v", i.state, k, i.kept)
	}
	return s
}

// states: breadth first over maps and iterators.
func states(keys, heights []int, its int) func() {
	return func() {
		w := mk(its)
		for vsched.Step(func() string {
			var live []*drv.Tok
			for _, k := range w.keys() {
				live = append(live, w.model[k])
			}
			roots := []any{w.m}
			for _, i := range w.its {
				roots = append(roots, i.it)
			}
			return w.desc() + drv.CanonTok(live, roots...)
		}) {
			n := len(keys)
			op := vsched.Choose(2*n + its*(2+n) + 1)
			switch {
			case op == 2*n+its*(2+n):
				w.clear()
			case op < n:
				skl.Choose(heights)
				w.set(keys[op])
			case op < 2*n:
				w.del(keys[op-n])
			default:
				op -= 2 * n
				x, o := op%its, op/its
				switch {
				case o == 0:
					w.next(x)
				case o == 1:
					w.rewind(x)
				default:
					w.seek(x, keys[o-2])
				}
			}
		}
	}
}

// walk: a map of chosen keys and heights, walked to the end and beyond with
// an action at every entry.
func walk(n int, heights []int) func() {
	return func() {
		w := mk(2)
		for k := 0; k < n; k++ {
			if vsched.Choose(2) == 1 {
				skl.Choose(heights)
				w.set(k * 2)
			}
		}
		start := vsched.Choose(2*n + 2)
		if start < 2*n+1 {
			w.seek(0, start-1)
			if w.its[0].state == undefined {
				w.rewind(0)
			}
		}
		for round := 0; round < 2; round++ {
			for w.its[0].state != end {
				w.next(0)
				if w.its[0].state != at {
					break
				}
				k := w.its[0].key
				switch vsched.Choose(7) {
				case 4:
					w.del(k)
					if nx, has := w.succ(k, true); has {
						w.del(nx)
					}
				case 5:
					w.del(k)
					w.set(k + 1)
					w.del(k + 1)
				case 6:
					w.clear()
					if vsched.Choose(2) == 1 {
						w.set(k + 2)
					}
				case 1:
					w.del(k)
				case 2:
					w.set(k)
				case 3:
					w.next(1)
				}
			}
			w.next(0)
			w.next(0)
			if vsched.Choose(2) == 1 {
				w.seek(0, 2*(n-1))
			}
			w.rewind(0)
		}
		for w.its[1].state == at || w.its[1].state == loose || w.its[1].state == gone || w.its[1].state == fresh {
			w.next(1)
		}
	}
}

// many: long maps walked with deletions.
func many() {
	w := mk(1)
	n := []int{17, 64, 257, 1000}[vsched.Choose(4)]
	hm := vsched.Choose(3)
	for i := 0; i < n; i++ {
		switch hm {
		case 0:
			skl.Arm(1)
		case 1:
			skl.Arm(1 + i%17)
		case 2:
			skl.Arm(skl.Tall)
		}
		w.n++
		t := drv.NewTok(w.n)
		w.m.Set(i*7%n*3+i, t)
		w.model[i*7%n*3+i] = t
	}
	ks := w.keys()
	step := vsched.Choose(4)
	it := w.m.Iterator()
	for round := 0; round < 2; round++ {
		j := 0
		for _, k := range ks {
			if _, ok := w.model[k]; !ok {
				continue
			}
			var kk int
			var v *drv.Tok
			var ok bool
			drv.NoPanic("Next", func() { kk, v, ok = it.Next() })
			if !ok || kk != k || v != w.model[k] {
				vsched.Fail("Next gives (%d, %v, %v), want %d", kk, v, ok, k)
			}
			if step > 0 && j%step == 0 {
				w.m.Del(k)
				delete(w.model, k)
			}
			j++
		}
		for i := 0; i < 3; i++ {
			drv.NoPanic("Next at the end", func() {
				if _, _, ok := it.Next(); ok {
					vsched.Fail("Next after the end")
				}
			})
		}
		it.Rewind()
	}
	for _, k := range ks {
		kk, v, ok := it.Seek(k)
		t, has := w.model[k]
		if ok != has || has && (kk != k || v != t) {
			vsched.Fail("Seek(%d) gives (%d, %v, %v)", k, kk, v, ok)
		}
	}
}

// large: over a map of n keys, every sequence of moves and changes next to
// where the iterator is and at the ends.
func large(sizes []int, depth int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		w := mk(2)
		for i := 0; i < n; i++ {
			h := 1
			for j := i + 1; j%2 == 0; j /= 2 {
				h++
			}
			skl.Arm(h)
			w.set(4 * i)
		}
		skl.Arm(2)
		for d := 0; d < depth; d++ {
			ks := w.keys()
			i := w.its[0]
			nx, has := w.succ(i.key, i.state == at || i.state == gone || i.state == loose)
			switch vsched.Choose(15) {
			case 13: // all behind and around, and the next ones
				if i.state == at {
					w.del(i.key)
					for j := 0; j < 20 && len(w.model) > 2; j++ {
						if nx, has := w.succ(i.key, true); has {
							w.del(nx)
						}
					}
				}
			case 14:
				w.clear()
				w.set(i.key)
				w.set(i.key + 9)
			case 0:
				w.next(0)
			case 1:
				w.rewind(0)
			case 2:
				w.seek(0, ks[0])
			case 3:
				w.seek(0, ks[len(ks)/2])
			case 4:
				w.seek(0, ks[len(ks)-1])
			case 5:
				w.seek(0, ks[len(ks)/2]+1)
			case 6:
				w.seek(0, i.key+1)
			case 7:
				if has {
					w.seek(0, nx)
				}
			case 8:
				if i.state == at {
					w.del(i.key)
				}
			case 9:
				if has && len(ks) > 2 {
					w.del(nx)
				}
			case 10:
				w.set(i.key + 1)
			case 11:
				w.set(ks[len(ks)-1] + 4)
			case 12:
				w.next(1)
			}
		}
		// from here to the end, and over it
		if w.its[0].state == undefined {
			w.rewind(0)
		}
		for w.its[0].state != end {
			w.next(0)
		}
		w.next(0)
		w.rewind(0)
		w.next(0)
		w.next(0)
	}
}

// zero: keys whose value is the zero of the type, and zero values.
func zero() {
	skl.Arm(1 + vsched.Choose(3))
	m := sklmapx.New[string, int]()
	it := m.Iterator()
	if k, v, ok := it.Next(); ok || k != "" || v != 0 {
		vsched.Fail("Next of an empty map gives (%q, %v, %v)", k, v, ok)
	}
	if _, _, ok := it.Seek(""); ok {
		vsched.Fail("Seek of the empty key in an empty map")
	}
	it.Rewind()
	m.Set("", 0)
	if k, v, ok := it.Seek(""); !ok || k != "" || v != 0 {
		vsched.Fail("Seek(\"\") gives (%q, %v, %v)", k, v, ok)
	}
	it.Rewind()
	if k, v, ok := it.Next(); !ok || k != "" || v != 0 {
		vsched.Fail("Next gives (%q, %v, %v)", k, v, ok)
	}
	for i := 0; i < 2; i++ {
		drv.NoPanic("Next", func() {
			if _, _, ok := it.Next(); ok {
				vsched.Fail("Next after the end")
			}
		})
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "D10",
		Level:       "model_checking",
		Rule:        "every reachable state of a map over N keys (tower heights included) and one or two iterators, breadth first without bound on the history: insertions, overwrites, deletions, Next, Rewind and Seek to every key, each result checked; every walk with an action at every entry; long walks with deletions",
		Bounds:      "breadth first: one iterator over 3 keys (heights 1, 2 when thorough) and 2 keys with heights 1-3 and unlimited; two iterators over 2 keys; thorough also 3-4 keys with several heights as far as the time allows; walks over every subset of 3 (4) keys; sequences of 3 (4) moves and changes in maps of up to 130 keys",
		Assumptions: []string{"an iterator whose entry was deleted, and after that other keys, need not see keys inserted since; after a failed Seek it is rewound or sought again"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			ks := []int{-1, 0, 2, 5, 7}
			us := []drv.Unit{
				{Name: "one-iterator", BFS: true, Body: states(ks[:3], []int{1, 2}[:x(1, 2)], 1)},
				{Name: "one-iterator-heights", BFS: true, Body: states(ks[:2], []int{1, 2, 3, skl.Tall}[:x(3, 4)], 1)},
				{Name: "two-iterators", BFS: true, Body: states(ks[:2], []int{1, 2}[:x(1, 2)], 2)},
				{Name: "walks", Shards: 8, Split: 5, Body: walk(x(3, 4), []int{1, 2})},
				{Name: "many", Steps: 1 << 30, Shards: 4, Split: 2, Body: many},
				{Name: "large", Steps: 1 << 30, Shards: 8, Split: 3, Body: large([]int{5, 18, 33, 65, 130}, x(3, 4))},
				{Name: "zero", Body: zero},
			}
			if th {
				us = append(us,
					drv.Unit{Name: "one-iterator-3-heights", BFS: true, Body: states(ks[:3], []int{1, 3, skl.Tall}, 1)},
					drv.Unit{Name: "one-iterator-4", BFS: true, Body: states(ks[:4], []int{1, 2}, 1)},
					drv.Unit{Name: "two-iterators-3", BFS: true, Body: states(ks[:3], []int{1}, 2)})
			}
			return us
		},
	})
}
