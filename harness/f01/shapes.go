package main

import (
	"errors"

	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"verif.local/mc/harness/known"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
	shaped(known.Box),
}

// shaped: options and results of every type.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		i, j := vsched.Choose(b.N), vsched.Choose(b.N)
		have := vsched.Choose(2) == 0
		what := vsched.Choose(3)
		var p probe
		one := func(v T) {
			p.f++
			if b.ID(v) != i {
				vsched.Fail("type %s: a branch got value %d, stored %d", b.Name, b.ID(v), i)
			}
		}
		var v, e T
		var err error
		e = b.Make(j)
		bad := errors.New("bad")
		drv.NoPanic("Match", func() {
			switch what {
			case 0:
				o := optionx.None[T]()
				if have {
					o = optionx.Some(b.Make(i))
				}
				v, err = o.Match(func(v T) (T, error) { one(v); return b.Make(j), bad }, func() (T, error) { p.g++; return b.Make(j), bad })
			case 1:
				r := resultx.Err[T, T](b.Make(i))
				if have {
					r = resultx.Ok[T, T](b.Make(i))
				}
				v, e = r.Match(func(v T) (T, T) { one(v); return b.Make(j), b.Make(i) }, func(v T) (T, T) { one(v); p.f--; p.g++; return b.Make(j), b.Make(i) })
			case 2:
				r := resultx.Err[int, T](b.Make(i))
				if have {
					r = resultx.Ok[int, T](i)
				}
				var n int
				n, e = r.Match(func(n int) (int, T) { one(b.Make(n)); return j, b.Make(i) }, func(v T) (int, T) { one(v); p.f--; p.g++; return j, b.Make(i) })
				v = b.Make(n)
			}
		})
		if have {
			check("type "+b.Name, p, 1, 0)
		} else {
			check("type "+b.Name, p, 0, 1)
		}
		if b.ID(v) != j || what == 0 && err != bad || what > 0 && b.ID(e) != i {
			vsched.Fail("type %s: Match gives value %d (error %d, %v), the branch gave %d", b.Name, b.ID(v), b.ID(e), err, j)
		}
	}
}
