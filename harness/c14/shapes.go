package main

import (
	"unsafe"

	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
}

// shaped: pools of objects of every type.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		var zero T
		sized := unsafe.Sizeof(zero) > 0
		var p syncpoolx.Pool[T]
		made := 0
		what, held := map[*T]int{}, map[*T]bool{}
		p.Init(func() *T {
			x := new(T)
			*x = b.Make(made % b.N)
			what[x] = made % b.N
			made++
			return x
		})
		var in []*T
		for d := 0; d < 6; d++ {
			c := vsched.Choose(1 + len(in))
			if c == 0 {
				x := p.Get()
				if x == nil {
					vsched.Fail("objects of type %s: Get returned nil", b.Name)
				}
				if sized && held[x] {
					vsched.Fail("objects of type %s: one handed to a second holder", b.Name)
				}
				i, ok := what[x]
				if !ok || b.ID(*x) != i {
					vsched.Fail("objects of type %s: got value %d, it was %d when put (known: %v)", b.Name, b.ID(*x), i, ok)
				}
				held[x] = true
				in = append(in, x)
				continue
			}
			x := in[c-1]
			in = append(append([]*T{}, in[:c-1]...), in[c:]...)
			*x = b.Make((d + 1) % b.N)
			what[x] = (d + 1) % b.N
			held[x] = false
			p.Put(x)
		}
	}
}
