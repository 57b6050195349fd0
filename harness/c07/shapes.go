package main

import (
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"verif.local/mc/harness/known"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
	shaped(known.Box),
}

// shaped: lazy values of every type.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		i, n := vsched.Choose(b.N), 0
		l := lazyx.New(func() T { n++; return b.Make(i) })
		for k := 0; k < 4; k++ {
			if v := l.Get(); b.ID(v) != i || n != 1 {
				vsched.Fail("a lazy value of type %s: Get %d gives value %d, want %d; constructor ran %d times", b.Name, k+1, b.ID(v), i, n)
			}
		}
	}
}
