package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/algox/sortx"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
}

// shaped: slices of elements of every type, ordered by the caller.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		n := []int{0, 1, 2, 3, 4, 5, 13, 60}[vsched.Choose(8)]
		up := vsched.Choose(2) == 0
		s := make([]T, n)
		ids := make([]int, n)
		for i := range s {
			if i < 4 {
				ids[i] = vsched.Choose(min(b.N, 4))
			} else {
				ids[i] = i * i * 7 % b.N
			}
			s[i] = b.Make(ids[i])
		}
		less := func(x, y T) bool {
			i, j := b.ID(x), b.ID(y)
			if i < 0 || j < 0 {
				vsched.Fail("elements of type %s: compared one that is none of them", b.Name)
			}
			return up && i < j || !up && i > j
		}
		intLess := func(i, j int) bool { return up && i < j || !up && i > j }
		want := reference(ids, intLess)
		is := true
		for i := 1; i < n; i++ {
			is = is && !intLess(ids[i], ids[i-1])
		}
		cmp := func(what string, s []T) {
			got := make([]int, n)
			for i := range s {
				got[i] = b.ID(s[i])
			}
			same(fmt.Sprintf("%s of type %s", what, b.Name), got, want)
		}
		drv.NoPanic("sorting", func() {
			if ok := sortx.IsSortedCustom(s, less); ok != is {
				vsched.Fail("elements of type %s: IsSortedCustom of %v is %v", b.Name, ids, ok)
			}
			t := append([]T(nil), s...)
			sortx.SortCustom(t, less)
			cmp("SortCustom", t)
			sortx.SortStableCustom(s, less)
			cmp("SortStableCustom", s)
		})
	}
}
