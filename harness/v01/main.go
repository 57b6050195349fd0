// V01: the built-in conversions exist and preserve values.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"unicode/utf8"

	"github.com/unsafe-risk/utilx/typex/convx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

type integer interface {
	int8 | int16 | int32 | int64 | int | uint8 | uint16 | uint32 | uint64 | uint
}
type number interface {
	integer | float32 | float64
}

// into converts and checks that the conversion exists.
func into[T, R any](v T) R {
	var r R
	var ok bool
	drv.NoPanic("Into", func() { r, ok = convx.Into[T, R](v) })
	if !ok {
		vsched.Fail("no conversion from %T to %T (value %v)", v, r, v)
	}
	return r
}

func exists[T, R any]() {
	if !convx.Exists[T, R]() {
		vsched.Fail("no conversion from %T to %T", *new(T), *new(R))
	}
}

func isFloat[T number]() bool { return T(1)/T(2) != 0 }

// limits of a type as exact numbers
func limits[T integer]() (lo, hi *big.Int) {
	bits := 0
	for x := T(1); x != 0; x <<= 1 {
		bits++
	}
	one := big.NewInt(1)
	if T(0)-1 > 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

// inRange: converting the float (truncated) is defined for the integer type.
func inRange[T, R number](v T) bool {
	if !isFloat[T]() || isFloat[R]() {
		return true
	}
	f := float64(v)
	if f != f || math.IsInf(f, 0) {
		return false
	}
	var lo, hi *big.Int
	switch any(*new(R)).(type) {
	case int8:
		lo, hi = limits[int8]()
	case int16:
		lo, hi = limits[int16]()
	case int32:
		lo, hi = limits[int32]()
	case int64:
		lo, hi = limits[int64]()
	case int:
		lo, hi = limits[int]()
	case uint8:
		lo, hi = limits[uint8]()
	case uint16:
		lo, hi = limits[uint16]()
	case uint32:
		lo, hi = limits[uint32]()
	case uint64:
		lo, hi = limits[uint64]()
	case uint:
		lo, hi = limits[uint]()
	}
	i, _ := new(big.Float).SetFloat64(math.Trunc(f)).Int(nil)
	return i.Cmp(lo) >= 0 && i.Cmp(hi) <= 0
}

func to[T, R number](vals []T) {
	exists[T, R]()
	for _, v := range vals {
		if !inRange[T, R](v) {
			continue
		}
		got, want := into[T, R](v), R(v)
		if got != want && (got == got || want == want) {
			vsched.Fail("%T %v to %T is %v, want %v", v, v, got, got, want)
		}
	}
}

func toAll[T number](vals []T) {
	to[T, int8](vals)
	to[T, int16](vals)
	to[T, int32](vals)
	to[T, int64](vals)
	to[T, int](vals)
	to[T, uint8](vals)
	to[T, uint16](vals)
	to[T, uint32](vals)
	to[T, uint64](vals)
	to[T, uint](vals)
	to[T, float32](vals)
	to[T, float64](vals)
}

// text: to a string and back, to a boolean and back.
func text[T number](vals []T) {
	exists[T, string]()
	exists[string, T]()
	exists[T, bool]()
	exists[bool, T]()
	for _, v := range vals {
		s := into[T, string](v)
		if !isFloat[T]() && s != fmt.Sprint(v) {
			vsched.Fail("%T %v as a string is %q", v, v, s)
		}
		b := into[string, T](s)
		if b != v && (b == b || v == v) || v == 0 && math.Signbit(float64(b)) != math.Signbit(float64(v)) {
			vsched.Fail("%T %v as a string is %q, and back %v", v, v, s, b)
		}
		if v == v {
			if t := into[T, bool](v); t != (v != 0) {
				vsched.Fail("%T %v as a boolean is %v", v, v, t)
			}
		}
	}
	drv.Eq("true as a number", into[bool, T](true), T(1))
	drv.Eq("false as a number", into[bool, T](false), T(0))
}

func numeric[T number](vals func() [][]T) func() {
	return func() {
		all := vals()
		part := all[vsched.Choose(len(all))]
		toAll(part)
		text(part)
	}
}

// allOf gives every value of a small type.
func allOf[T integer]() [][]T {
	var out [][]T
	lo, hi := limits[T]()
	var cur []T
	for i := lo.Int64(); i <= hi.Int64(); i++ {
		cur = append(cur, T(i))
		if len(cur) == 4096 {
			out = append(out, cur)
			cur = nil
		}
	}
	return append(out, cur)
}

// edges gives the values around powers of two and ten, and patterns.
func edges[T integer]() [][]T {
	seen := map[T]bool{}
	var vals []T
	add := func(x T) {
		if !seen[x] {
			seen[x] = true
			vals = append(vals, x)
		}
	}
	var p2 T = 1
	for i := 0; i < 64; i++ {
		for d := 0; d < 7; d++ {
			add(p2 + T(d) - 3)
			add(-p2 + T(d) - 3)
		}
		p2 <<= 1
	}
	var p10 T = 1
	for i := 0; i < 20; i++ {
		for m := T(1); m < 10; m++ {
			for d := 0; d < 3; d++ {
				add(m*p10 + T(d) - 1)
				add(-m*p10 + T(d) - 1)
			}
		}
		p10 *= 10
	}
	for sh := 0; sh < 57; sh++ { // bytes and adjacent pairs of bits
		add(T(0x25) << sh)
		add(T(0x41) << sh)
		add(^(T(0x41) << sh))
	}
	return [][]T{vals}
}

func floats32() [][]float32 {
	var out [][]float32
	// every exponent and sign with a set of mantissas
	for sign := uint32(0); sign < 2; sign++ {
		var cur []float32
		for e := uint32(0); e < 256; e++ {
			for _, m := range []uint32{0, 1, 2, 3, 0x3fffff, 0x400000, 0x400001, 0x555555, 0x2aaaaa, 0x7ffffe, 0x7fffff, 0x123456, 0x19999a} {
				cur = append(cur, math.Float32frombits(sign<<31|e<<23|m))
			}
		}
		out = append(out, cur)
	}
	var cur []float32
	for i := -1000; i <= 1000; i++ {
		cur = append(cur, float32(i)/10, float32(i)/3, float32(i)*1e6, float32(i)+0.5)
	}
	return append(out, cur)
}

func floats64() [][]float64 {
	var out [][]float64
	for sign := uint64(0); sign < 2; sign++ {
		for part := uint64(0); part < 8; part++ {
			var cur []float64
			for e := part * 256; e < part*256+256; e++ {
				for _, m := range []uint64{0, 1, 1 << 28, 1 << 29, 1<<29 + 1, 0x7ffffffffffff, 0x8000000000000, 0x8000000000001, 0x5555555555555, 0x999999999999a, 0xffffffffffffe, 0xfffffffffffff} {
					cur = append(cur, math.Float64frombits(sign<<63|e<<52|m))
				}
			}
			out = append(out, cur)
		}
	}
	var cur []float64
	for i := -1000; i <= 1000; i++ {
		cur = append(cur, float64(i)/10, float64(i)/3, float64(i)*1e15, float64(i)+0.5)
	}
	for _, b := range []int{7, 8, 15, 16, 31, 32, 53, 62, 63} {
		p := math.Ldexp(1, b)
		cur = append(cur, p-1, p-0.5, p, p+1, -p, -p-0.5, -p-1, -p+0.5, math.Nextafter(p, 0), math.Nextafter(p, 2*p), math.Nextafter(-p, 0))
	}
	return append(out, cur)
}

// exhaustive: every bit pattern of a 32-bit type, by its upper bits.
func exhaustive[T number](of func(uint32) T) func() {
	return func() {
		hi := uint32(vsched.Choose(1 << 12))
		const n = 1 << 20
		vals := make([]T, n)
		for i := range vals {
			vals[i] = of(hi<<20 | uint32(i))
		}
		for _, v := range vals {
			if v != v {
				continue
			}
			s := into[T, string](v)
			if b := into[string, T](s); b != v {
				vsched.Fail("%T %v as a string is %q, and back %v", v, v, s, b)
			}
		}
		to[T, float64](vals)
		to[T, int64](vals)
		to[T, uint8](vals)
	}
}

func intString[T integer](s string, neg, valid bool, val *big.Int, lo, hi *big.Int) {
	got := into[string, T](s)
	unsigned := lo.Sign() == 0
	switch {
	case !valid || unsigned && neg:
		if got != 0 {
			vsched.Fail("%q as %T is %v", s, got, got)
		}
	case unsigned && s[0] == '+':
		// a plus sign before an unsigned number is not judged
	case val.Cmp(lo) >= 0 && val.Cmp(hi) <= 0:
		if fmt.Sprint(got) != val.String() {
			vsched.Fail("%q as %T is %v, want %v", s, got, got, val)
		}
	}
}

type bound struct{ lo, hi *big.Int }

func lim[T integer]() bound { lo, hi := limits[T](); return bound{lo, hi} }

var (
	l8, l16, l32, l64, li = lim[int8](), lim[int16](), lim[int32](), lim[int64](), lim[int]()
	m8, m16, m32, m64, mi = lim[uint8](), lim[uint16](), lim[uint32](), lim[uint64](), lim[uint]()
)

var truth = map[string]bool{"1": true, "t": true, "T": true, "TRUE": true, "true": true, "True": true}

func fromString(s string) {
	digits := s
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		digits = s[1:]
	}
	valid := digits != ""
	for i := 0; i < len(digits); i++ {
		if digits[i] < '0' || digits[i] > '9' {
			valid = false
		}
	}
	val := new(big.Int)
	if valid {
		val.SetString(digits, 10)
		if neg {
			val.Neg(val)
		}
	}
	intString[int8](s, neg, valid, val, l8.lo, l8.hi)
	intString[int16](s, neg, valid, val, l16.lo, l16.hi)
	intString[int32](s, neg, valid, val, l32.lo, l32.hi)
	intString[int64](s, neg, valid, val, l64.lo, l64.hi)
	intString[int](s, neg, valid, val, li.lo, li.hi)
	intString[uint8](s, neg, valid, val, m8.lo, m8.hi)
	intString[uint16](s, neg, valid, val, m16.lo, m16.hi)
	intString[uint32](s, neg, valid, val, m32.lo, m32.hi)
	intString[uint64](s, neg, valid, val, m64.lo, m64.hi)
	intString[uint](s, neg, valid, val, mi.lo, mi.hi)

	f, err := strconv.ParseFloat(s, 64)
	if err == nil || f == 0 {
		if got := into[string, float64](s); got != f && (got == got || f == f) {
			vsched.Fail("%q as float64 is %v, want %v", s, got, f)
		}
		g, _ := strconv.ParseFloat(s, 32)
		got := into[string, float32](s)
		if got != float32(g) && got != float32(f) && !math.IsInf(g, 0) && (got == got || g == g) {
			vsched.Fail("%q as float32 is %v, want %v", s, got, g)
		}
	}
	if got := into[string, bool](s); got != truth[s] {
		vsched.Fail("%q as a boolean is %v", s, got)
	}
	drv.Eq("string to string", into[string, string](s), s)
}

func strings(alphabet string, max int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[vsched.Choose(len(alphabet))]
		}
		fromString(string(b))
	}
}

func words() {
	ws := []string{"true", "True", "TRUE", "tRUE", "truE", "false", "False", "FALSE", "fALSE", "yes", "on", "inf", "+Inf", "-inf", "Infinity", "nan", "NaN", "1e5", "1e-5", ".5", "5.", "0x10", "0b1", "0o7", "1_000", "१", " 1", "1 ", "1\n", "\x00", "١",
		"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551614", "00000000000000000000000000000127", "-00000000000000000000000000000000001", "000000000000000000000000000000000000255",
		"0.1", "3.4028234663852886e38", "1.401298464324817e-45", "1.7976931348623157e308", "4.9e-324", "16777217", "9007199254740993", "0.30000000000000004"}
	s := ws[vsched.Choose(len(ws))]
	fromString(s)
}

func bools() {
	for _, v := range []bool{false, true} {
		drv.Eq("boolean to boolean", into[bool, bool](v), v)
		s := into[bool, string](v)
		drv.Eq("boolean to string", s, map[bool]string{true: "true", false: "false"}[v])
		drv.Eq("string to boolean", into[string, bool](s), v)
	}
	exists[bool, bool]()
	exists[bool, string]()
	exists[string, bool]()
	exists[string, string]()
	exists[string, []byte]()
	exists[[]byte, string]()
	exists[[]byte, []byte]()
	exists[string, []rune]()
	exists[[]rune, string]()
	exists[[]rune, []rune]()
}

// heap makes a string of its own memory.
func heap(b []byte) string { return string(append([]byte(nil), b...)) }

func bytesOf(alphabet []byte, max int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[vsched.Choose(len(alphabet))]
		}
		s := heap(b)

		r := into[string, []byte](s)
		drv.EqSlice("string to bytes", r, b)
		for i := range r {
			r[i] ^= 0xff
		}
		drv.Eq("the string after changing its bytes", s, string(b))
		drv.EqSlice("string to bytes again", into[string, []byte](s), b)

		src := append([]byte(nil), b...)
		t := into[[]byte, string](src)
		drv.Eq("bytes to string", t, s)
		for i := range src {
			src[i] ^= 0xff
		}
		drv.Eq("the string after changing the bytes it came from", t, string(b))
		drv.EqSlice("bytes to bytes", into[[]byte, []byte](src), src)

		q := into[string, []rune](s)
		drv.EqSlice("string to runes", q, []rune(s))
		if utf8.ValidString(s) {
			drv.Eq("runes back to string", into[[]rune, string](q), s)
		}
		for i := range q {
			q[i] = 'X'
		}
		drv.Eq("the string after changing its runes", s, string(b))
	}
}

func runesOf(max int) func() {
	alphabet := []rune{0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, -1}
	return func() {
		n := vsched.Choose(max + 1)
		r := make([]rune, n)
		for i := range r {
			r[i] = alphabet[vsched.Choose(len(alphabet))]
		}
		s := into[[]rune, string](r)
		drv.Eq("runes to string", s, string(r))
		drv.EqSlice("and back", into[string, []rune](s), []rune(string(r)))
		drv.EqSlice("runes to runes", into[[]rune, []rune](r), r)
		was := heap([]byte(s))
		for i := range r {
			r[i] = 'X'
		}
		drv.Eq("the string after changing the runes it came from", s, was)
	}
}

// long strings and slices keep every element.
func long() {
	n := []int{5, 15, 16, 31, 32, 33, 63, 64, 65, 100, 1000, 4096, 70000}[vsched.Choose(13)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	s := string(b)
	drv.EqSlice("string to bytes", into[string, []byte](s), b)
	drv.Eq("bytes to string", into[[]byte, string](b), s)
	drv.EqSlice("string to runes", into[string, []rune](s), []rune(s))
	drv.Eq("runes to string", into[[]rune, string]([]rune(s)), s)
	drv.Eq("string to string", into[string, string](s), s)
	t := into[[]byte, string](b)
	b[n-1] = '!'
	drv.Eq("the string after changing the bytes", t, s)
}

func main() {
	drv.Main(drv.Check{
		ID:          "V01",
		Level:       "model_checking",
		Rule:        "all 144 numeric pairs over every value of the 8- and 16-bit types, values around powers of two and ten of the others, every exponent with chosen mantissas of the floats; each value to a string and a boolean and back; every short string over a numeric alphabet and chosen longer ones to every type; every short byte string over bytes that form valid and broken UTF-8 and every short rune slice over boundary runes, with changes to the source or result afterwards (thorough: every bit pattern of the 32-bit types)",
		Bounds:      "strings up to 4 (6) of 14 characters, byte strings up to 4 (6) of 9 bytes, rune slices up to 3 (4) of 16 runes",
		Assumptions: []string{"floats outside the range of the integer type, numeric strings outside the range of the type and NaN as a boolean are not judged"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			us := []drv.Unit{
				{Name: "int8", Body: numeric(allOf[int8])},
				{Name: "uint8", Body: numeric(allOf[uint8])},
				{Name: "int16", Body: numeric(allOf[int16])},
				{Name: "uint16", Body: numeric(allOf[uint16])},
				{Name: "int32", Body: numeric(edges[int32])},
				{Name: "uint32", Body: numeric(edges[uint32])},
				{Name: "int64", Body: numeric(edges[int64])},
				{Name: "uint64", Body: numeric(edges[uint64])},
				{Name: "int", Body: numeric(edges[int])},
				{Name: "uint", Body: numeric(edges[uint])},
				{Name: "float32", Body: numeric(floats32)},
				{Name: "float64", Body: numeric(floats64)},
				{Name: "strings", Shards: 8, Split: 3, Body: strings("0129+-_. eExaT", x(4, 6))},
				{Name: "booleans", Shards: 8, Split: 3, Body: strings("01tTrRuUeEfFalsS", x(4, 5))},
				{Name: "words", Body: words},
				{Name: "bools", Body: bools},
				{Name: "bytes", Shards: 8, Split: 3, Body: bytesOf([]byte{0, 'a', 0x80, 0xa0, 0xbf, 0xc3, 0xe2, 0xed, 0xf0, 0xff}, x(4, 6))},
				{Name: "runes", Shards: 8, Split: 3, Body: runesOf(x(3, 5))},
				{Name: "long", Body: long},
			}
			if th {
				us = append(us,
					drv.Unit{Name: "all-int32", Shards: 8, Split: 1, Body: exhaustive(func(u uint32) int32 { return int32(u) })},
					drv.Unit{Name: "all-uint32", Shards: 8, Split: 1, Body: exhaustive(func(u uint32) uint32 { return u })},
					drv.Unit{Name: "all-float32", Shards: 8, Split: 1, Body: exhaustive(math.Float32frombits)},
				)
			}
			return us
		},
	})
}
