package main

import (
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
}

// shaped: every sequence of operations on maps of values of every type.
func shaped[V any](b shapes.Box[V]) func() {
	return func() {
		m, w := sklmapx.New[int, V](), map[int]int{}
		next := 0
		var it [3]bool
		for d := 0; d < 4; d++ {
			switch c := vsched.Choose(7); {
			case c < 3:
				drv.NoPanic("Set", func() { m.Set(c, b.Make(next%b.N)) })
				w[c], it[c] = next%b.N, true
				next++
			case c < 6:
				drv.NoPanic("Del", func() { m.Del(c - 3) })
				delete(w, c-3)
				it[c-3] = false
			default:
				drv.NoPanic("Clear", func() { m.Clear() })
				w, it = map[int]int{}, [3]bool{}
			}
			var ks, vs []int
			for k := 0; k < 3; k++ {
				v, ok := m.Get(k)
				if ok != it[k] || ok && b.ID(v) != w[k] {
					vsched.Fail("values of type %s: Get(%d) is value %d, %v, contents %v", b.Name, k, b.ID(v), ok, w)
				}
				if it[k] {
					ks, vs = append(ks, k), append(vs, w[k])
				}
			}
			drv.EqSlice("Keys", m.Keys(), ks)
			var got []int
			for _, v := range m.Values() {
				got = append(got, b.ID(v))
			}
			drv.EqSlice("Values of type "+b.Name, got, vs)
			if m.Len() != len(ks) {
				vsched.Fail("values of type %s: Len %d, contents %v", b.Name, m.Len(), w)
			}
			var ik, iv []int
			for i := m.Iterator(); ; {
				k, v, ok := i.Next()
				if !ok {
					break
				}
				ik, iv = append(ik, k), append(iv, b.ID(v))
			}
			for k, v := range m.ToMap() {
				if !it[k] || b.ID(v) != w[k] {
					vsched.Fail("values of type %s: ToMap has value %d at %d, contents %v", b.Name, b.ID(v), k, w)
				}
			}
			drv.EqSlice("keys in turn", ik, ks)
			drv.EqSlice("values in turn, of type "+b.Name, iv, vs)
		}
	}
}
