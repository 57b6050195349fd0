package main

import (
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"verif.local/mc/harness/known"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/vsched"
	"verif.local/mc/mc/vtime"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
	shaped(known.Box),
}

// shaped: tasks of every type, nil and zero values included, each submitted in
// turn, at once or after the workers of the ones before have gone.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		var ran [256]vsched.Counter
		var want [256]int64
		max := int64(1 + vsched.Choose(3))
		preheat := vsched.Choose(2)
		how := vsched.Choose(3)
		p, err := gopoolx.NewTimedPool(max, func(v T) {
			i := b.ID(v)
			if i < 0 {
				vsched.Fail("tasks of type %s: the handler got %v, a task nobody submitted", b.Name, v)
			}
			ran[i].Add(1)
		}, 1000, 100, preheat)
		if err != nil {
			vsched.Fail("constructor: %v", err)
		}
		for round := 0; round < 2; round++ {
			for i := 0; i < b.N; i++ {
				if p.Run(b.Make(i)) {
					want[i]++
				}
				if how > 0 {
					vsched.Quiesce(0)
				}
				if how > 1 {
					vtime.Sleep(1500 * time.Nanosecond)
				}
			}
			vsched.Quiesce(0)
			for i := 0; i < b.N; i++ {
				if r := ran[i].Get(); r != want[i] {
					vsched.Fail("tasks of type %s: value %d was accepted %d times and handled %d times", b.Name, i, want[i], r)
				}
			}
		}
		s := vsched.GoNamed("stopper", p.Stop)
		vsched.Join(s)
	}
}
