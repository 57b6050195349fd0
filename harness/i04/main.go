// I04: arguments stay as they are and results belong to the caller.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/typex/convx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// buffer holds an argument with spare capacity; all of it is watched.
type buffer[T comparable] struct {
	s     []T
	whole []T // expected contents of the array
}

func newBuffer[T comparable](v []T, room, spare int, fill T) *buffer[T] {
	if room < len(v) {
		room = len(v)
	}
	a := make([]T, room+spare)
	for i := range a {
		a[i] = fill
	}
	copy(a, v)
	return &buffer[T]{a[:len(v)], append([]T(nil), a...)}
}

// put replaces the contents in place.
func (b *buffer[T]) put(v []T) {
	a := b.s[:cap(b.s)]
	copy(a, v)
	b.s = a[:len(v)]
	copy(b.whole, v)
}

func (b *buffer[T]) same(what string) {
	for i, v := range b.s[:cap(b.s)] {
		if v != b.whole[i] {
			vsched.Fail("%s changes element %d of the array of an argument (length %d): %v, was %v", what, i, len(b.s), v, b.whole[i])
		}
	}
}

// fun is a function of slices; render says everything there is to say about
// its results, by themselves or together with the arguments.
type fun[T comparable] struct {
	name   string
	inputs [][][]T
	run    func(a [][]T) (outs [][]T, text string)
}

func clone[T any](x [][]T) (r [][]T) {
	for _, v := range x {
		r = append(r, append([]T(nil), v...))
	}
	return
}

func same[T comparable](what string, got, want [][]T) {
	for i := range want {
		for j, v := range want[i] {
			if got[i][j] != v {
				vsched.Fail("%s: element %d of a result became %v, was %v", what, j, got[i][j], v)
			}
		}
	}
}

// owner: the function is used on a buffer, again after the buffer changed in
// place, and again after the results were overwritten.
func owner[T comparable](fs func() []fun[T], fill, scribble T) func() {
	return func() {
		quiet()
		defer loud()
		all := fs()
		f := all[vsched.Choose(len(all))]
		a := f.inputs[vsched.Choose(len(f.inputs))]
		b := f.inputs[vsched.Choose(len(f.inputs))]
		spare := []int{0, 3, 40}[vsched.Choose(3)]
		_, wantA := f.run(clone(a))
		_, wantB := f.run(clone(b))
		var bufs []*buffer[T]
		for i := range a {
			bufs = append(bufs, newBuffer(a[i], len(b[i]), spare, fill))
		}
		call := func(want string) (outs, copies [][]T) {
			var args [][]T
			for _, x := range bufs {
				args = append(args, x.s)
			}
			drv.NoPanic(f.name, func() {
				var text string
				outs, text = f.run(args)
				if text != want {
					vsched.Fail("%s(%v) gives %s with its arguments in a used buffer, %s with fresh ones", f.name, args, text, want)
				}
			})
			for _, x := range bufs {
				x.same(f.name)
			}
			return outs, clone(outs)
		}
		o1, c1 := call(wantA)
		for i := range bufs {
			bufs[i].put(b[i])
		}
		same("changing an argument of "+f.name, o1, c1)
		o2, c2 := call(wantB)
		same("calling "+f.name+" again", o1, c1)
		for _, o := range o1 {
			o = o[:cap(o)]
			for i := range o {
				o[i] = scribble
			}
		}
		same("changing an earlier result of "+f.name, o2, c2)
		for _, x := range bufs {
			x.same("changing a result of " + f.name)
		}
		o3, c3 := call(wantB)
		same("calling "+f.name+" again", o2, c2)
		for _, o := range o2 {
			o = o[:cap(o)]
			for i := range o {
				o[i] = scribble
			}
		}
		same("changing an earlier result of "+f.name, o3, c3)
		call(wantB)
	}
}

func quiet() {
	vcrand.Reset()
	vcrand.Quiet, vargon2.Quiet = true, true
}

func loud() { vcrand.Quiet, vargon2.Quiet = false, false }

func blk(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i)*7
	}
	return b
}

type bs = [][]byte

func byteFuns() (fs []fun[byte]) {
	for _, m := range []struct {
		name     string
		enc, dec func(a, b []byte) ([]byte, error)
		sizes    []int
	}{
		{"CBC", aesx.EncryptCBC, aesx.DecryptCBC, []int{0, 16, 48, 4112}},
		{"CTR", aesx.EncryptCTR, aesx.DecryptCTR, []int{0, 1, 16, 37, 5000}},
		{"GCM", aesx.EncryptGCM, aesx.DecryptGCM, []int{0, 1, 16, 37, 5000}},
	} {
		e := fun[byte]{name: "Encrypt" + m.name}
		d := fun[byte]{name: "Decrypt" + m.name}
		for i, n := range m.sizes {
			for j, k := range []int{0, 16, 32} {
				data, key := blk(n, byte(i)), blk(k, byte(90+j))
				e.inputs = append(e.inputs, bs{data, key})
				ct, _ := m.enc(data, key)
				d.inputs = append(d.inputs, bs{ct, key})
			}
			ct, _ := m.enc(blk(n, byte(i)), blk(16, 91))
			ct[len(ct)-1] ^= 1
			d.inputs = append(d.inputs, bs{ct, blk(16, 91)})
		}
		d.inputs = append(d.inputs, bs{blk(5, 1), blk(16, 90)})
		e.run = func(a bs) (bs, string) {
			ct, err := m.enc(a[0], a[1])
			pt, err2 := m.dec(append([]byte(nil), ct...), append([]byte(nil), a[1]...))
			return bs{ct}, fmt.Sprintf("%v %d %x %v", err, len(ct), pt, err2)
		}
		d.run = func(a bs) (bs, string) {
			pt, err := m.dec(a[0], a[1])
			return bs{pt}, fmt.Sprintf("%x %v", pt, err)
		}
		fs = append(fs, e, d)
	}
	pws := []string{"", "p", "password", "passwore", strings.Repeat("long", 12)}
	h := fun[byte]{name: "passhash Hash"}
	v := fun[byte]{name: "passhash Verify"}
	w := fun[byte]{name: "passhash VerifyBase64"}
	t := fun[byte]{name: "passhash HashBase64"}
	be := fun[byte]{name: "bcrypt Encrypt"}
	bd := fun[byte]{name: "bcrypt Decrypt"}
	hash, _ := passhashx.Hash([]byte("password"), passhashx.SecurityLevelMobileLow)
	hash2, _ := passhashx.Hash([]byte("passwore"), passhashx.SecurityLevelMobileLow)
	text, _ := passhashx.HashBase64([]byte("password"), passhashx.SecurityLevelMobileLow)
	enc, _ := bcryptx.Encrypt([]byte("password"))
	enc2, _ := bcryptx.Encrypt([]byte("passwore"))
	for _, p := range pws {
		pw := []byte(p)
		h.inputs = append(h.inputs, bs{pw})
		t.inputs = append(t.inputs, bs{pw})
		w.inputs = append(w.inputs, bs{pw})
		be.inputs = append(be.inputs, bs{pw})
		for _, x := range [][]byte{hash, hash2, hash[:9]} {
			v.inputs = append(v.inputs, bs{pw, x})
		}
		for _, x := range [][]byte{enc, enc2, enc[:9]} {
			bd.inputs = append(bd.inputs, bs{x, pw})
		}
	}
	h.run = func(a bs) (bs, string) {
		out, err := passhashx.Hash(a[0], passhashx.SecurityLevelMobileLow)
		return bs{out}, fmt.Sprint(err, len(out), passhashx.Verify(append([]byte(nil), a[0]...), append([]byte(nil), out...)))
	}
	v.run = func(a bs) (bs, string) { return nil, fmt.Sprint(passhashx.Verify(a[0], a[1])) }
	t.run = func(a bs) (bs, string) {
		out, err := passhashx.HashBase64(a[0], passhashx.SecurityLevelMobileLow)
		return nil, fmt.Sprint(err, len(out), passhashx.VerifyBase64(append([]byte(nil), a[0]...), out))
	}
	w.run = func(a bs) (bs, string) { return nil, fmt.Sprint(passhashx.VerifyBase64(a[0], text)) }
	be.run = func(a bs) (bs, string) {
		out, err := bcryptx.Encrypt(a[0])
		ok, err2 := bcryptx.Decrypt(append([]byte(nil), out...), append([]byte(nil), a[0]...))
		return bs{out}, fmt.Sprint(err, len(out), ok, err2)
	}
	bd.run = func(a bs) (bs, string) {
		ok, err := bcryptx.Decrypt(a[0], a[1])
		return nil, fmt.Sprint(ok, err != nil)
	}
	conv := fun[byte]{name: "bytes to string", run: func(a bs) (bs, string) {
		s, ok := convx.Into[[]byte, string](a[0])
		keep(s)
		return nil, fmt.Sprintf("%q %v", s, ok)
	}}
	back := fun[byte]{name: "string to bytes", run: func(a bs) (bs, string) {
		s := string(a[0])
		out, ok := convx.Into[string, []byte](s)
		r := fmt.Sprintf("%x %v", out, ok)
		if len(out) > 0 {
			// The result may be overwritten without touching the string.
			out[0] ^= 255
			if s != string(a[0]) {
				vsched.Fail("changing the bytes of a converted string changes the string")
			}
			out[0] ^= 255
		}
		return bs{out}, r
	}}
	for _, n := range []int{0, 1, 5, 40, 100} {
		conv.inputs = append(conv.inputs, bs{blk(n, 60)}, bs{blk(n, 61)})
	}
	back.inputs = conv.inputs
	dec := fun[byte]{name: "decoupler", run: func(a bs) (bs, string) {
		d := decouplex.NewDecoupler(3, nil)
		n, err := d.Write(a[0])
		m, err2 := d.Write(a[1])
		r := fmt.Sprint(n, err, m, err2)
		for d.Next(func(b []byte) {
			r += fmt.Sprintf(" %x", b)
			// The view may use its payload as it likes.
			for i := range b {
				b[i] = 0xdd
			}
			_ = append(b, "more than the payload"...)
		}) {
		}
		return nil, r
	}}
	for _, n := range []int{1, 5, 40} {
		for _, m := range []int{1, 7} {
			dec.inputs = append(dec.inputs, bs{blk(n, 3), blk(m, 77)})
		}
	}
	// The library may keep what it has made of earlier arguments, not the
	// arguments: an object used before and after they change.
	return append(fs, h, v, t, w, be, bd, conv, back, dec)
}

// strings that were handed out; they may not change.
var kept []struct{ live, copy string }

func keep(s string) string {
	kept = append(kept, struct{ live, copy string }{s, string(append([]byte(nil), s...))})
	return s
}

func stillKept() {
	for _, k := range kept {
		if k.live != k.copy {
			vsched.Fail("a string that was %q became %q", k.copy, k.live)
		}
	}
}

func ownerBytes() {
	kept = nil
	owner(byteFuns, 0xee, 0xaa)()
	stillKept()
}

type is = [][]int

func intFuns() []fun[int] {
	var data is
	for _, n := range []int{0, 1, 2, 5, 13, 40} {
		for k := 0; k < 3; k++ {
			var a []int
			for i := 0; i < n; i++ {
				switch k {
				case 0:
					a = append(a, 2*i)
				case 1:
					a = append(a, 50-i)
				case 2:
					a = append(a, i*7919%13)
				}
			}
			data = append(data, a)
		}
	}
	var one []([][]int)
	for _, d := range data {
		one = append(one, is{d})
	}
	unary := func(name string, f func(a []int) string) fun[int] {
		return fun[int]{name, one, func(a is) (is, string) { return nil, f(a[0]) }}
	}
	sp := func(a ...any) string { return fmt.Sprintln(a...) }
	return []fun[int]{
		unary("Search", func(a []int) string {
			if !sort.IntsAreSorted(a) {
				searchx.Search(a, 4)
				return ""
			}
			x, y := searchx.Search(a, 4)
			z, w := searchx.Search(a, 100)
			return sp(x, y, z, w)
		}),
		unary("SearchCustom", func(a []int) string {
			if !sort.IntsAreSorted(a) {
				searchx.SearchCustom(a, 4, func(i, j int) int { return i - j })
				return ""
			}
			x, y := searchx.SearchCustom(a, 4, func(i, j int) int { return i - j })
			return sp(x, y)
		}),
		unary("IsSorted", func(a []int) string { return sp(sortx.IsSorted(a), sortx.IsSortedReverse(a)) }),
		unary("IsSortedCustom", func(a []int) string { return sp(sortx.IsSortedCustom(a, func(i, j int) bool { return i > j })) }),
		unary("Intersection", func(a []int) string {
			var iv []intersectionx.Interval
			for i := 0; i+1 < len(a); i += 2 {
				iv = append(iv, intersectionx.Interval{Offset: int64(a[i]), ConfidenceBand: int64(1 + a[i+1])})
			}
			if len(iv) == 0 {
				return ""
			}
			b := newBuffer(iv, 0, 4, intersectionx.Interval{Offset: -1, ConfidenceBand: -1})
			u, l, ok := intersectionx.Intersection(b.s...)
			b.same("Intersection")
			// Again after the intervals changed in place.
			rev := make([]intersectionx.Interval, len(iv))
			for i := range iv {
				rev[i] = iv[len(iv)-1-i]
				rev[i].Offset++
			}
			b.put(rev)
			u2, l2, ok2 := intersectionx.Intersection(b.s...)
			u3, l3, ok3 := intersectionx.Intersection(rev...)
			if u2 != u3 || l2 != l3 || ok2 != ok3 {
				vsched.Fail("Intersection of changed intervals gives (%d, %d, %v), fresh (%d, %d, %v)", u2, l2, ok2, u3, l3, ok3)
			}
			return sp(u, l, ok)
		}),
		unary("bit set", func(a []int) string {
			var m []int
			for _, v := range a {
				m = append(m, v%64)
			}
			b := newBuffer(m, 0, 3, 9)
			var s bitsetx.BitSet[uint64]
			s.Set(b.s...)
			b.same("Set")
			r := sp(s, s.Test(b.s...))
			b.same("Test")
			s.Toggle(b.s...)
			b.same("Toggle")
			r += sp(s)
			s.Clear(b.s...)
			b.same("Clear")
			return r + sp(s)
		}),
		unary("Split", func(a []int) string {
			s := slicex.New(blkInts(10)...)
			var at []int
			for _, v := range a {
				if v >= 0 && v < 4 {
					at = append(at, v)
				}
			}
			b := newBuffer(at, 0, 3, 1)
			r := sp(s.Split(b.s...))
			b.same("Split")
			return r
		}),
		{"sorted results", one, func(a is) (is, string) {
			// Sorting is in place; elements beyond the slice are not its own.
			b := newBuffer(a[0], 0, 5, -3)
			for i := 0; i < 6; i++ {
				b.put(a[0])
				switch i {
				case 0:
					sortx.Sort(b.s, false)
				case 1:
					sortx.SortReverse(b.s)
				case 2:
					sortx.SortStable(b.s)
				case 3:
					sortx.SortStableReverse(b.s)
				case 4:
					sortx.SortCustom(b.s, func(i, j int) bool { return i < j })
				case 5:
					sortx.SortStableCustom(b.s, func(i, j int) bool { return i < j })
				}
				for j, v := range b.s[:cap(b.s)] {
					if j >= len(b.s) && v != b.whole[j] {
						vsched.Fail("sort %d changes element %d of the array of a slice of length %d", i, j, len(b.s))
					}
				}
			}
			return nil, ""
		}},
	}
}

func blkInts(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

type rs = [][]rune

func runeFuns() []fun[rune] {
	var in []rs
	for _, s := range []string{"", "a", "b", "aé世", "世éa\U0001f600", strings.Repeat("xé", 30)} {
		in = append(in, rs{[]rune(s)})
	}
	return []fun[rune]{
		{"runes to string", in, func(a rs) (rs, string) {
			s, ok := convx.Into[[]rune, string](a[0])
			keep(s)
			return nil, fmt.Sprintf("%q %v", s, ok)
		}},
		{"string to runes", in, func(a rs) (rs, string) {
			out, ok := convx.Into[string, []rune](string(a[0]))
			return rs{out}, fmt.Sprintf("%q %v", out, ok)
		}},
	}
}

func ownerRunes() {
	kept = nil
	owner(runeFuns, 'Z', 'Y')()
	stillKept()
}

type text struct {
	name string
	f    func(v int) string
}

func into[T any](v T) string { return convx.IntoOr(v, "none") }

func texts() []text {
	return []text{
		{"int to string", func(v int) string { return into(1000003 * (v + 1)) }},
		{"negative", func(v int) string { return into(int64(-7 - 1001*v)) }},
		{"uint8 to string", func(v int) string { return into(uint8(200 + v)) }},
		{"uint64 to string", func(v int) string { return into(^uint64(0) - uint64(v)) }},
		{"float64 to string", func(v int) string { return into(1.25 + float64(v)) }},
		{"float32 to string", func(v int) string { return into(float32(0.5) / float32(v+1)) }},
		{"bool to string", func(v int) string { return into(v == 1) }},
		{"bytes to string", func(v int) string { b := blk(20, byte(v)); s := into(b); b[3]++; return s }},
		{"runes to string", func(v int) string { b := []rune{'é', rune('a' + v)}; s := into(b); b[1]++; return s }},
		{"skip list", func(v int) string {
			m := sklmapx.New[int, string]()
			for i := 0; i <= v; i++ {
				m.Set(i, fmt.Sprint("v", v))
			}
			return m.String()
		}},
		{"Join", func(v int) string { return slicex.New(v, v+1, v+2).Join("--") }},
		{"Join one", func(v int) string { return slicex.New(fmt.Sprint("x", v)).Join("--") }},
		{"errors", func(v int) string {
			return closex.ErrorList{errors.New(fmt.Sprint("e", v)), io.EOF}.Error()
		}},
		{"HashBase64", func(v int) string {
			s, _ := passhashx.HashBase64([]byte{byte(v)}, passhashx.SecurityLevelMobileLow)
			return s
		}},
	}
}

// strs: texts that were returned do not change.
func strs(depth int) func() {
	return func() {
		quiet()
		defer loud()
		kept = nil
		ts := texts()
		for i := 0; i < depth; i++ {
			t := ts[vsched.Choose(len(ts))]
			for v := 0; v < 2; v++ {
				keep(t.f(v))
				stillKept()
			}
		}
	}
}

// snap is a view of a map that was handed out.
type snap struct {
	what string
	ks   []int
	m    map[int]int
	want string
}

func (s *snap) text() string {
	if s.m != nil {
		return fmt.Sprint(s.m)
	}
	return fmt.Sprint(s.ks)
}

// views: whatever the views of a map returned stays as it is, and overwriting
// it leaves the map and the other views as they are.
func views(kind, depth int) func() {
	return func() {
		var sk *sklmapx.SkipListMap[int, int]
		var om *ordmapx.OrdMap[int, int]
		var sm *syncmapx.Map[int, int]
		model := map[int]int{}
		var keys, values func() []int
		var set func(k, v int)
		var del func(k int)
		var clear func()
		var get func(k int) int
		switch kind {
		case 0:
			sk = sklmapx.New[int, int]()
			keys, values, set, clear = sk.Keys, sk.Values, sk.Set, sk.Clear
			del = func(k int) { sk.Del(k) }
			get = func(k int) int { v, _ := sk.Get(k); return v }
		case 1:
			om = ordmapx.New[int, int]()
			keys, values, set, clear, del = om.Keys, om.Values, om.Set, om.Clear, om.Del
			get = func(k int) int { v, _ := om.Get(k); return v }
		case 2:
			sm = syncmapx.New[int, int]()
			keys, values, set, clear, del, get = sm.Keys, sm.Values, sm.Set, sm.Clear, sm.Delete, sm.Get
		}
		var snaps []*snap
		take := func() {
			var k, v []int
			for x, y := range model {
				k, v = append(k, x), append(v, y)
			}
			sort.Ints(k)
			if kind == 2 {
				sort.Ints(v)
			} else {
				v = v[:0]
				for _, x := range k {
					v = append(v, model[x])
				}
			}
			ks, vs := keys(), values()
			if kind == 2 {
				sort.Ints(ks)
				sort.Ints(vs)
			}
			got := []*snap{{"Keys", ks, nil, fmt.Sprint(k)}, {"Values", vs, nil, fmt.Sprint(v)}}
			if kind == 0 {
				got = append(got, &snap{"ToMap", nil, sk.ToMap(), fmt.Sprint(model)})
			}
			for _, s := range got {
				if s.text() != s.want {
					vsched.Fail("%s gives %s, want %s", s.what, s.text(), s.want)
				}
			}
			snaps = append(snaps, got...)
		}
		check := func(after string) {
			for i, s := range snaps {
				if s.text() != s.want {
					vsched.Fail("after %s, view %d of the map (%s), which was %s, is %s", after, i, s.what, s.want, s.text())
				}
			}
		}
		for i := 0; i < 3; i++ {
			set(i, 10+i)
			model[i] = 10 + i
		}
		take()
		for i := 0; i < depth; i++ {
			after := ""
			switch c := vsched.Choose(9); c {
			case 0, 1, 2, 3: // 1 is among the keys
				k := []int{-1, 1, 5, 6}[c]
				set(k, 100+10*i+c)
				model[k] = 100 + 10*i + c
				after = fmt.Sprint("Set ", k)
			case 4, 5:
				del(c - 4)
				delete(model, c-4)
				after = fmt.Sprint("Del ", c-4)
			case 6:
				clear()
				model = map[int]int{}
				after = "Clear"
			case 7:
				take()
				after = "taking views"
			case 8:
				for _, s := range snaps {
					for k := range s.m {
						s.m[k] = -5
					}
					if s.m != nil {
						s.m[77] = 78
					}
					all := s.ks[:cap(s.ks)]
					for j := range all {
						all[j] = -9 - j
					}
					s.want = s.text()
					check("overwriting " + s.what)
				}
				after = "overwriting all views"
			}
			check(after)
			for k := -1; k < 8; k++ {
				if get(k) != model[k] {
					vsched.Fail("after %s, Get(%d) is %d, want %d", after, k, get(k), model[k])
				}
			}
		}
		take()
		check("taking views")
	}
}

type closer struct{ err error }

func (c *closer) Close() error { return c.err }

// reports: error lists stay as they were.
func reports(depth int) func() {
	return func() {
		e := []error{errors.New("a"), errors.New("b"), errors.New("c"), io.EOF}
		var snaps []struct {
			l    []error
			want string
		}
		add := func(l []error, want string) {
			if fmt.Sprint(l) != want {
				vsched.Fail("errors %v, want %s", l, want)
			}
			snaps = append(snaps, struct {
				l    []error
				want string
			}{l, want})
			for i, s := range snaps {
				if fmt.Sprint(s.l) != s.want {
					vsched.Fail("error list %d, which was %s, is %v", i, s.want, s.l)
				}
			}
		}
		cs := []*closer{{e[0]}, {nil}, {e[1]}}
		var ios []io.Closer
		for _, c := range cs {
			ios = append(ios, c)
		}
		use := usingx.Close(ios...)
		want := func() string {
			var r []error
			for _, c := range cs {
				if c.err != nil {
					r = append(r, c.err)
				}
			}
			return fmt.Sprint(r)
		}
		for i := 0; i < depth; i++ {
			switch vsched.Choose(5) {
			case 0:
				add(use(func() {}), want())
			case 1:
				m := closex.New()
				for _, c := range cs {
					m.Append(c)
				}
				l, _ := closex.AsErrs(m.Close())
				add(l, want())
			case 2:
				cs[0].err, cs[1].err = cs[1].err, cs[0].err
			case 3:
				cs[2].err = e[2+i%2]
			case 4:
				for j := range snaps {
					l := snaps[j].l[:cap(snaps[j].l)]
					for k := range l {
						l[k] = io.ErrNoProgress
					}
					snaps[j].want = fmt.Sprint(snaps[j].l)
				}
			}
		}
		add(use(func() {}), want())
	}
}

// parameters: the list of functions stays as it is, and its value can change.
func parameters() {
	n := vsched.Choose(4)
	type box struct{ v []int }
	fs := make([]func(*box) *box, n, n+2)
	mk := func(i int) func(*box) *box {
		return func(p *box) *box {
			if p == nil {
				p = &box{}
			}
			p.v = append(p.v, i)
			return p
		}
	}
	for i := range fs {
		fs[i] = mk(i)
	}
	run := func() string {
		return *optionalx.Parameter(func(p *box) *string {
			s := "none"
			if p != nil {
				s = fmt.Sprint(p.v)
			}
			return &s
		}, fs...)
	}
	first := run()
	for _, f := range fs[n:cap(fs)] {
		if f != nil {
			vsched.Fail("the array of functions was written to")
		}
	}
	if again := run(); again != first {
		vsched.Fail("the same functions give %q, then %q", first, again)
	}
	if n > 0 {
		fs[n-1] = mk(50)
		want := strings.Replace(first, fmt.Sprint(n-1, "]"), "50]", 1)
		if got := run(); got != want {
			vsched.Fail("a changed list of functions gives %q, want %q", got, want)
		}
	}
}

// ring: payloads are the decoupler's own, and each view's while it runs.
func ring(depth int) func() {
	return func() {
		size := 1 + vsched.Choose(3)
		d := decouplex.NewDecoupler(uint64(size), nil)
		var model [][]byte
		b := make([]byte, 0, 5040)
		for i := 0; i < depth; i++ {
			switch c := vsched.Choose(6); c {
			case 0, 1, 2, 5:
				n := map[int]int{0: 1, 1: 30, 2: 700, 5: 5000}[c]
				b = b[:n]
				for j := range b {
					b[j] = byte(i*31 + j)
				}
				whole := append([]byte(nil), b[:cap(b)]...)
				m, err := d.Write(b)
				if m != n || err != nil {
					vsched.Fail("Write gives (%d, %v)", m, err)
				}
				if !bytes.Equal(whole, b[:cap(b)]) {
					vsched.Fail("Write changes its argument")
				}
				if len(model) < size {
					model = append(model, append([]byte(nil), b...))
				}
				for j := range b[:cap(b)] {
					b[:cap(b)][j] = 0xcc
				}
			case 3, 4:
				ok := d.Next(func(p []byte) {
					if len(model) == 0 || !bytes.Equal(p, model[0]) {
						vsched.Fail("payload %x, model %x", p, model)
					}
					if c == 4 {
						p = p[:cap(p)]
						for j := range p {
							p[j] = 0xbb
						}
						_ = append(p, 1, 2, 3)
					}
				})
				if ok != (len(model) > 0) {
					vsched.Fail("Next is %v with %d payloads", ok, len(model))
				}
				if ok {
					model = model[1:]
				}
			}
		}
		for len(model) > 0 {
			if !d.Next(func(p []byte) {
				if !bytes.Equal(p, model[0]) {
					vsched.Fail("payload %x, want %x", p, model[0])
				}
			}) {
				vsched.Fail("payloads are missing")
			}
			model = model[1:]
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "I04",
		Level:       "model_checking",
		Rule:        "every function that takes or returns slices, on every pair of inputs from a table and with 0, 3 or 40 spare elements behind each argument: the arrays of the arguments are unchanged, the buffer is refilled in place and the function gives what it gives on fresh memory, results stay as they are through later calls, changes of the arguments and overwriting (to their capacity) of earlier results, and overwriting them changes neither the arguments nor anything returned later; every sequence of map edits with views taken and overwritten in between; every sequence of decoupler writes from one buffer and views that overwrite their payload; error lists; every sequence of calls that return text",
		Bounds:      "inputs of 0-100 elements, data of up to 5000 bytes; 5 (7) operations on a map, 6 (8) on a decoupler, 5 (7) on closers, 3 (4) texts",
		Assumptions: []string{"slices of slicex are views of the caller's array by design (D08 checks what they may touch)", "a slice converted to its own type may be itself", "a payload is the view function's only while it runs; the drop function is given the writer's own slice"},
		Units: func(th bool) (us []drv.Unit) {
			x := 0
			if th {
				x = 1
			}
			add := func(name string, shards int, f func(), no ...string) {
				us = append(us, drv.Unit{Name: name, Shards: shards, Split: 2, Body: f, NoReset: append(no, "/convx")})
			}
			add("bytes", 8, ownerBytes)
			add("integers", 4, owner(intFuns, 99, 98))
			add("runes", 1, ownerRunes)
			add("texts", 4, strs(3+x))
			for i, n := range []string{"skip-list", "ordered-map", "synchronised-map"} {
				add("views/"+n, 4, views(i, 5+2*x))
			}
			add("reports", 1, reports(5+2*x))
			add("parameters", 1, parameters)
			add("ring", 4, ring(6+2*x))
			return
		},
	})
}
