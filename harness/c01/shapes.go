package main

import (
	"sort"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
	shapedKeys(shapes.Empty),
	shapedKeys(shapes.EmptyArray),
	shapedKeys(shapes.Bool),
	shapedKeys(shapes.Byte),
	shapedKeys(shapes.Int64),
	shapedKeys(shapes.Complex),
	shapedKeys(shapes.String),
	shapedKeys(shapes.Stringer),
	shapedKeys(shapes.Pointer),
	shapedKeys(shapes.Mixeds),
	shapedKeys(shapes.Chan),
	shapedKeys(shapes.Uintptr),
	shapedKeys(shapes.Nested),
	shapedKeys(shapes.Large),
	shapedKeys(shapes.Error),
	shapedKeys(shapes.Interface),
}

// shaped: every sequence of operations on maps of values of every type.
func shaped[V any](b shapes.Box[V]) func() {
	return func() {
		m, w := syncmapx.New[int, V](), map[int]int{}
		var zero V
		next := 0
		for d := 0; d < 4; d++ {
			switch c := vsched.Choose(5); c {
			case 0, 1:
				drv.NoPanic("Set", func() { m.Set(c, b.Make(next%b.N)) })
				w[c] = next % b.N
				next++
			case 2, 3:
				drv.NoPanic("Delete", func() { m.Delete(c - 2) })
				delete(w, c-2)
			case 4:
				drv.NoPanic("Clear", func() { m.Clear() })
				w = map[int]int{}
			}
			for k := 0; k < 3; k++ {
				i, ok := w[k]
				want := i
				if !ok {
					want = b.ID(zero)
				}
				if g := b.ID(m.Get(k)); g != want {
					vsched.Fail("values of type %s: Get(%d) is value %d, contents %v", b.Name, k, g, w)
				}
				if h := m.Has(k); h != ok {
					vsched.Fail("values of type %s: Has(%d) is %v, contents %v", b.Name, k, h, w)
				}
			}
			var got, want []int
			for _, v := range m.Values() {
				got = append(got, b.ID(v))
			}
			for _, v := range w {
				want = append(want, v)
			}
			sort.Ints(got)
			sort.Ints(want)
			drv.EqSlice("Values of type "+b.Name, got, want)
			if m.Size() != len(w) || len(m.Keys()) != len(w) {
				vsched.Fail("values of type %s: Size %d, keys %v, contents %v", b.Name, m.Size(), m.Keys(), w)
			}
		}
	}
}

// shapedKeys: the same with keys of every comparable type.
func shapedKeys[K comparable](b shapes.Box[K]) func() {
	return func() {
		m, w := syncmapx.New[K, int](), map[int]int{}
		k := b.N
		if k > 4 {
			k = 4
		}
		for d := 1; d < 5; d++ {
			c := vsched.Choose(2*k + 1)
			switch {
			case c < k:
				drv.NoPanic("Set", func() { m.Set(b.Make(c), d) })
				w[c] = d
			case c < 2*k:
				drv.NoPanic("Delete", func() { m.Delete(b.Make(c - k)) })
				delete(w, c-k)
			default:
				drv.NoPanic("Clear", func() { m.Clear() })
				w = map[int]int{}
			}
			for i := 0; i < b.N; i++ {
				v, ok := w[i]
				if g := m.Get(b.Make(i)); g != v {
					vsched.Fail("keys of type %s: Get of key %d is %d, contents %v", b.Name, i, g, w)
				}
				if h := m.Has(b.Make(i)); h != ok {
					vsched.Fail("keys of type %s: Has of key %d is %v, contents %v", b.Name, i, h, w)
				}
			}
			var got, want []int
			for _, x := range m.Keys() {
				got = append(got, b.ID(x))
			}
			for i := range w {
				want = append(want, i)
			}
			sort.Ints(got)
			sort.Ints(want)
			drv.EqSlice("Keys of type "+b.Name, got, want)
			if m.Size() != len(w) || len(m.Values()) != len(w) {
				vsched.Fail("keys of type %s: Size %d, values %v, contents %v", b.Name, m.Size(), m.Values(), w)
			}
		}
	}
}
