package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/typex/convx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// A pair of types of the registry, with two converters to choose from.
type slot struct {
	name       string
	register   func(id int)
	unregister func()
	exists     func() bool
	into       func() (int, bool)
	or         func() int
}

// src is the pair from T to x.
func src[T any](name string, val T) slot {
	return slot{
		name:       name + ">x",
		register:   func(id int) { convx.Register(func(v T) x { return x{id, same(v, val)} }) },
		unregister: func() { convx.Unregister[T, x]() },
		exists:     func() bool { return convx.Exists[T, x]() },
		into: func() (int, bool) {
			r, ok := convx.Into[T, x](val)
			if ok && r.v != 1 {
				vsched.Fail("the converter from %s got another value", name)
			}
			return r.tag, ok
		},
		or: func() int { return convx.IntoOr(val, x{-1, 0}).tag },
	}
}

func same(v, w any) int {
	if fmt.Sprintf("%T %v", v, v) == fmt.Sprintf("%T %v", w, w) {
		return 1
	}
	return 0
}

// dst is the pair from a to T; zero, vals[0] and vals[1] print differently.
func dst[T any](name string, vals ...T) slot {
	var zero T
	id := func(v T) int {
		for i, w := range append([]T{zero}, vals...) {
			if same(v, w) == 1 {
				return i
			}
		}
		return -2
	}
	return slot{
		name:       "a>" + name,
		register:   func(i int) { convx.Register(func(a) T { return vals[i-1] }) },
		unregister: func() { convx.Unregister[a, T]() },
		exists:     func() bool { return convx.Exists[a, T]() },
		into: func() (int, bool) {
			r, ok := convx.Into[a, T](a{5})
			return id(r), ok
		},
		or: func() int {
			if g := id(convx.IntoOr(a{5}, vals[0])); g != 1 || !convx.Exists[a, T]() {
				if g == 1 {
					return -1
				}
				return g
			}
			return 1
		},
	}
}

type (
	named      int
	renamed    named
	alias      = named
	speaker    interface{ Say() string }
	speaker2   interface{ Say() string }
	box[T any] struct{ v T }
)

type voice string

func (v voice) Say() string { return string(v) }

func slots() []slot {
	var all []slot
	add := func(s ...slot) { all = append(all, s...) }
	add(src("int", 3), src("named", named(3)), src("renamed", renamed(3)), src("*int", (*int)(nil)), src("uint", uint(3)))
	add(src[any]("any", voice("w")), src[speaker]("speaker", voice("w")), src[fmt.Stringer]("Stringer", nil), src("voice", voice("w")), src[error]("error", nil))
	type local struct{ v int }
	add(src("local", local{1}), src("box[local]", box[local]{}), src("[2]local", [2]local{}), src("func(local)", (func(local))(nil)))
	func() {
		type local struct{ v int }
		add(src("local'", local{1}), src("box[local']", box[local]{}), src("[2]local'", [2]local{}), src("func(local')", (func(local))(nil)))
		add(dst("local'", local{1}, local{2}), dst("[]local'", []local{{1}}, []local{{2}}))
	}()
	add(src("[3]local", [3]local{}), src("[]local", []local{}))
	add(src("tag k", struct {
		A int `k`
	}{}), src("tag l", struct {
		A int `l`
	}{}), src("no tag", struct{ A int }{}))
	add(src("chan", make(chan int)), src("<-chan", make(<-chan int)))
	add(dst("local", local{1}, local{2}), dst("[]local", []local{{1}}, []local{{2}}))
	add(dst("int", 1, 2), dst("named", named(1), named(2)), dst[any]("any", 1, 2), dst[error]("error", fmt.Errorf("1"), fmt.Errorf("2")), dst[speaker]("speaker", voice("1"), voice("2")), dst[[]byte]("[]byte", []byte("1"), []byte("2")))
	return all
}

// identities: the pairs of types that are easily taken for one another are
// kept apart, and those that are one are one.
func identities(depth int) func() {
	return func() {
		vsched.ResetPkg(pkg)
		all := slots()
		t := make([]int, len(all))
		for d := 0; d < depth; d++ {
			k := vsched.Choose(3 * len(all))
			s := all[k/3]
			drv.NoPanic(s.name, func() {
				if k%3 == 2 {
					s.unregister()
				} else {
					s.register(1 + k%3)
				}
			})
			t[k/3] = (k%3 + 1) % 3
			for i, s := range all {
				var ok, ex bool
				var g, or int
				drv.NoPanic(s.name, func() {
					ex = s.exists()
					g, ok = s.into()
					or = s.or()
				})
				want := t[i]
				if want == 0 {
					want = -1
				}
				if ex != (t[i] != 0) || ok != ex || g != t[i] || or != want {
					vsched.Fail("after a change of %s: %s gives %v, %d %v, %d; want %d", all[k/3].name, s.name, ex, g, ok, or, t[i])
				}
			}
		}
		// an alias is the type itself
		convx.Register(func(v alias) x { return x{9, int(v)} })
		if r, ok := convx.Into[named, x](4); !ok || r != (x{9, 4}) {
			vsched.Fail("the converter registered under an alias gives %v, %v", r, ok)
		}
		convx.Unregister[alias, x]()
		if convx.Exists[named, x]() {
			vsched.Fail("the converter unregistered under an alias exists")
		}
		_ = speaker2(nil)
	}
}
