package main

import (
	"github.com/unsafe-risk/utilx/algox/searchx"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
}

// shaped: slices of elements of every type, ordered by the caller.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		var s []T
		var ids []int
		for i := 0; i < b.N && i < 6; i++ {
			for k := vsched.Choose(3); k > 0; k-- {
				s, ids = append(s, b.Make(i)), append(ids, i)
			}
		}
		x := vsched.Choose(b.N)
		var at int
		var ok bool
		drv.NoPanic("SearchCustom", func() { at, ok = searchx.SearchCustom(s, b.Make(x), func(v, w T) int { return b.ID(v) - b.ID(w) }) })
		want, found := expect(ids, x, func(i, j int) int { return i - j })
		if at != want || ok != found {
			vsched.Fail("elements of type %s: %d in %v is found at (%d, %v), want (%d, %v)", b.Name, x, ids, at, ok, want, found)
		}
	}
}
