package main

import (
	"github.com/unsafe-risk/utilx/dsx/slicex"
	"verif.local/mc/harness/shapes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var everyShape = []func(){
	shaped(shapes.Empty),
	shaped(shapes.EmptyArray),
	shaped(shapes.Bool),
	shaped(shapes.Byte),
	shaped(shapes.Int64),
	shaped(shapes.Complex),
	shaped(shapes.String),
	shaped(shapes.Stringer),
	shaped(shapes.Error),
	shaped(shapes.Interface),
	shaped(shapes.Pointer),
	shaped(shapes.Mixeds),
	shaped(shapes.Chan),
	shaped(shapes.Uintptr),
	shaped(shapes.Nested),
	shaped(shapes.Float),
	shaped(shapes.Func),
	shaped(shapes.Slice),
	shaped(shapes.Map),
	shaped(shapes.Large),
	shaped(shapes.Struct),
	shaped(shapes.Any),
}

// shaped: every sequence of operations on slices of elements of every type.
func shaped[T any](b shapes.Box[T]) func() {
	return func() {
		s, m := slicex.New[T](), []int{}
		next := 0
		fresh := func() (T, int) {
			i := next % b.N
			next++
			return b.Make(i), i
		}
		ins := func(at int, v ...int) {
			r := append([]int{}, m[:at]...)
			r = append(r, v...)
			m = append(r, m[at:]...)
		}
		var zero T
		back := func(what string, v T, i int) {
			if b.ID(v) != i {
				vsched.Fail("elements of type %s: %s gives value %d, want %d", b.Name, what, b.ID(v), i)
			}
		}
		for n := vsched.Choose(3); n > 0; n-- {
			v, i := fresh()
			s.Push(v)
			ins(len(m), i)
		}
		for d := 0; d < 3; d++ {
			op := vsched.Choose(15)
			drv.NoPanic("an operation", func() {
				n := len(m)
				switch op {
				case 0:
					v, i := fresh()
					s.Push(v)
					ins(n, i)
				case 1:
					v, i := fresh()
					s.UnShift(v)
					ins(0, i)
				case 2:
					v, i := fresh()
					w, j := fresh()
					s.Expand(n/2, v, w)
					ins(n/2, i, j)
				case 3:
					if n == 0 {
						back("Pop of nothing", s.Pop(), b.ID(zero))
						break
					}
					back("Pop", s.Pop(), m[n-1])
					m = m[:n-1]
				case 4:
					if n == 0 {
						back("Shift of nothing", s.Shift(), b.ID(zero))
						break
					}
					back("Shift", s.Shift(), m[0])
					m = m[1:]
				case 5:
					s.Delete(n / 2)
					if n > 0 {
						m = append(append([]int{}, m[:n/2]...), m[n/2+1:]...)
					}
				case 6:
					if n > 0 {
						v, i := fresh()
						s.Set(n/2, v)
						m = append([]int{}, m...)
						m[n/2] = i
					}
				case 7:
					s.Reverse()
					r := []int{}
					for i := n - 1; i >= 0; i-- {
						r = append(r, m[i])
					}
					m = r
				case 8:
					s.Rotate(1)
					if n > 0 {
						m = append(append([]int{}, m[1:]...), m[0])
					}
				case 9:
					s.Filter(func(v T) bool { return b.ID(v)%2 == 0 })
					r := []int{}
					for _, i := range m {
						if i%2 == 0 {
							r = append(r, i)
						}
					}
					m = r
				case 10:
					if n < 20 {
						s.Repeat(2)
						m = append(append([]int{}, m...), m...)
					}
				case 11:
					s.Extend(1)
					ins(n, b.ID(zero))
				case 12:
					c := s.Copy()
					v, _ := fresh()
					c.Push(v).Set(0, v)
				case 13:
					s.DeleteReplace(0)
					if n > 0 {
						r := append([]int{}, m...)
						r[0] = r[n-1]
						m = r[:n-1]
					}
				case 14:
					s.Clear()
					m = []int{}
				}
			})
			got := []int{}
			s.Each(func(v T) { got = append(got, b.ID(v)) })
			drv.EqSlice("elements of type "+b.Name, got, m)
			for i := range m {
				back("Get", s.Get(i), m[i])
				at := s.IndexOf(func(v T) bool { return b.ID(v) == m[i] })
				if at < 0 || at > i || m[at] != m[i] || !s.Contains(func(v T) bool { return b.ID(v) == m[i] }) {
					vsched.Fail("elements of type %s: IndexOf of value %d is %d in %v", b.Name, m[i], at, m)
				}
			}
		}
	}
}
