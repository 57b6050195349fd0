package main

import (
	"github.com/unsafe-risk/utilx/configx/optionalx"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
}

// shaped: parameters of every type.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		n := vsched.Choose(4)
		var now *T
		var fs []func(*T) *T
		ran := 0
		for k := 0; k < n; k++ {
			k := k
			how := vsched.Choose(4)
			i := vsched.Choose(b.N)
			fs = append(fs, func(p *T) *T {
				if p != now || ran != k {
					vsched.Fail("type %s: function %d got another parameter than the one before returned, or ran out of turn", b.Name, k)
				}
				ran++
				switch {
				case how == 0 || how == 1 && now == nil:
					v := b.Make(i)
					now = &v
				case how == 1:
					*now = b.Make(i)
				case how == 2:
					now = nil
				}
				return now
			})
		}
		var r, got *T
		made := 0
		drv.NoPanic("Parameter", func() {
			got = optionalx.Parameter(func(p *T) *T {
				made++
				if p != now || ran != n {
					vsched.Fail("type %s: the constructor got another parameter than the last function returned, or ran before it", b.Name)
				}
				v := b.Make(b.N - 1)
				r = &v
				return r
			}, fs...)
		})
		if made != 1 || got != r || b.ID(*got) != b.N-1 {
			vsched.Fail("type %s: the constructor ran %d times; its result is returned: %v", b.Name, made, got == r)
		}
	}
}
