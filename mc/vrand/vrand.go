// Package vrand stands in for the top-level functions of math/rand: every
// drawn number is an environment choice.
package vrand

import (
	"math/rand"

	"verif.local/mc/mc/vsched"
)

// Draws counts choices made by the code under test.
var Draws int

// Pick, when set, makes the choices instead of the explorer.
var Pick func(n int) int

// HeightHook, when set, decides the skip list's coin flips.
var HeightHook func() (uint64, bool)

// HookHits counts coin flips decided by HeightHook.
var HookHits int

func Hook64() (uint64, bool) {
	if HeightHook == nil || !vsched.InExec() {
		return 0, false
	}
	HookHits++
	return HeightHook()
}

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if !vsched.InExec() {
		return rand.Intn(n)
	}
	if n > 64 {
		return int(Uint64() % uint64(n))
	}
	Draws++
	if Pick != nil {
		return Pick(n)
	}
	return vsched.Choose(n)
}

func IntN(n int) int       { return Intn(n) }
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Int32N(n int32) int32 { return int32(Intn(int(n))) }
func Int64N(n int64) int64 { return int64(Intn(int(n))) }
func UintN(n uint) uint    { return uint(Intn(int(n))) }
func Uint32N(n uint32) uint32 {
	return uint32(Intn(int(n)))
}
func Uint64N(n uint64) uint64 { return uint64(Intn(int(n))) }

func Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}

var (
	state uint64
	owner int64
)

// Uint64 draws a whole word: too many values to be a choice, so the draws of
// an execution are one fixed sequence.
func Uint64() uint64 {
	if !vsched.InExec() {
		return rand.Uint64()
	}
	if id := vsched.ExecID(); id != owner {
		owner, state = id, 0
	}
	Draws++
	state += 0x9e3779b97f4a7c15
	z := state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func Int63() int64     { return int64(Uint64() >> 1) }
func Int64() int64     { return Int63() }
func Int() int         { return int(uint(Uint64() >> 1)) }
func Uint32() uint32   { return uint32(Uint64() >> 32) }
func Int31() int32     { return int32(Uint64() >> 33) }
func Int32() int32     { return Int31() }
func Uint() uint       { return uint(Uint64()) }
func Float64() float64 { return float64(Uint64()>>11) / (1 << 53) }
func Float32() float32 { return float32(Uint64()>>40) / (1 << 24) }
func Seed(seed int64) {
	if !vsched.InExec() {
		rand.Seed(seed)
	}
}
