// X07: verifying a malformed stored hash fails cleanly.
package main

import (
	"encoding/base64"
	"encoding/binary"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

var pw = []byte("password")

// good makes a valid stored hash of the given level.
func good(l int) []byte {
	vargon2.Calls, vcrand.Draws = nil, nil
	h, err := passhashx.Hash(pw, passhashx.SecurityLevel(l))
	if err != nil || len(h) != 65 {
		vsched.Fail("Hash gives (%x, %v)", h, err)
	}
	return h
}

// bad: verification of these bytes must fail, in both forms.
func bad(what string, b []byte) {
	text := base64.RawURLEncoding.EncodeToString(b)
	for _, p := range [][]byte{pw, nil} {
		vargon2.Calls = nil
		arg, ok := aes.Guard(b)
		var err, err2 error
		drv.NoPanic(fmt.Sprintf("Verify of %s %x", what, b), func() { err = passhashx.Verify(p, arg) })
		ok("the stored hash")
		drv.NoPanic(fmt.Sprintf("VerifyBase64 of %s %x", what, b), func() { err2 = passhashx.VerifyBase64(p, text) })
		if err == nil || err2 == nil {
			vsched.Fail("%s: %x passes (%v, %v)", what, b, err, err2)
		}
	}
}

// exact is a slice without spare capacity, so that reads beyond it panic.
func exact(b []byte) []byte { return append(make([]byte, 0, len(b)), b...)[:len(b):len(b)] }

func badExact(what string, b []byte) {
	vargon2.Calls = nil
	e := exact(b)
	drv.NoPanic(fmt.Sprintf("Verify of %s %x", what, b), func() {
		if passhashx.Verify(pw, e) == nil {
			vsched.Fail("%s: %x passes", what, b)
		}
	})
	bad(what, b)
}

func truncations() {
	h := good(1 + vsched.Choose(4))
	n := vsched.Choose(len(h))
	badExact("truncated", h[:n])
	badExact("beheaded", h[n+1:])
}

var edges = []uint64{0, 1, 2, 15, 16, 17, 18, 31, 32, 33, 34, 48, 49, 50, 63, 64, 65, 66, 67, 80, 81, 82, 97, 127, 128, 255, 256, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 33, 1<<32 + 65, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 33, 1<<64 - 66, 1<<64 - 65, 1<<64 - 33, 1<<64 - 18, 1<<64 - 17, 1<<64 - 16, 1<<64 - 2, 1<<64 - 1}

// header: every pair of end offsets, for several lengths of the whole.
func header(lens []int) func() {
	return func() {
		h := good(1 + vsched.Choose(4))
		n := lens[vsched.Choose(len(lens))]
		o1 := edges[vsched.Choose(len(edges))]
		for _, o2 := range edges {
			b := make([]byte, n)
			copy(b, h)
			if n < 17 {
				continue
			}
			binary.LittleEndian.PutUint64(b[1:], o1)
			binary.LittleEndian.PutUint64(b[9:], o2)
			if o1 == 33 && o2 == 65 && n >= 65 {
				continue // the valid header
			}
			badExact("offsets", b)
		}
	}
}

// headerBytes: every value of every header byte.
func headerBytes() {
	h := good(1 + vsched.Choose(4))
	i := vsched.Choose(17)
	for v := 1; v < 256; v++ {
		b := append([]byte(nil), h...)
		b[i] ^= byte(v)
		badExact("header byte", b)
	}
}

// algorithm: every algorithm byte over hashes with consistent and inconsistent layouts.
func algorithm() {
	a := byte(vsched.Choose(256))
	for l := 1; l <= 4; l++ {
		h := good(l)
		if h[0] != a {
			h[0] = a
			badExact("algorithm", h)
		}
		badExact("algorithm", append([]byte{a}, make([]byte, 16)...))
		badExact("algorithm", append([]byte{a, 17, 0, 0, 0, 0, 0, 0, 0, 17, 0, 0, 0, 0, 0, 0, 0}, make([]byte, 3)...))
		badExact("algorithm", append([]byte{a, 17, 0, 0, 0, 0, 0, 0, 0, 49, 0, 0, 0, 0, 0, 0, 0}, make([]byte, 32)...))
	}
}

// short: all strings of up to two bytes, and patterns of every length.
func short(max int) func() {
	return func() {
		switch vsched.Choose(3) {
		case 0:
			badExact("nothing", nil)
			badExact("nothing", []byte{})
			v := byte(vsched.Choose(256))
			badExact("one byte", []byte{v})
			for w := 0; w < 256; w++ {
				badExact("two bytes", []byte{v, byte(w)})
			}
		case 1:
			n := vsched.Choose(max + 1)
			for p := 0; p < 6; p++ {
				badExact("pattern", aes.Fill(p, n))
			}
		case 2: // a header that fits, of every total length
			n := 17 + vsched.Choose(max)
			for e1 := 17; e1 <= n; e1++ {
				b := make([]byte, n)
				b[0] = byte(n % 4)
				binary.LittleEndian.PutUint64(b[1:], uint64(e1))
				binary.LittleEndian.PutUint64(b[9:], uint64(n))
				badExact("consistent header", b)
			}
		}
	}
}

// long: hashes far longer than any real one: patterns, headers that fit with
// salts of many lengths, and the right hash with its digest or salt extended.
func long(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		h := good(1 + vsched.Choose(4))
		c := vsched.Choose(3)
		switch c {
		case 0:
			for p := 0; p < 6; p++ {
				badExact("pattern", aes.Fill(p, n))
			}
		case 1:
			for _, e1 := range []int{17, 18, 33, 49, n / 2, n - 33, n - 32, n - 31, n - 1, n} {
				for _, fill := range []int{0, 3} {
					b := aes.Fill(fill, n)
					copy(b, h[:33])
					binary.LittleEndian.PutUint64(b[1:], uint64(e1))
					binary.LittleEndian.PutUint64(b[9:], uint64(n))
					if e1+32 == n {
						copy(b[e1:], h[33:])
					}
					badExact("consistent header", b)
				}
			}
		case 2:
			b := append(append([]byte(nil), h...), make([]byte, n)...)
			binary.LittleEndian.PutUint64(b[9:], uint64(len(b)))
			badExact("a longer digest", b)
			for i := 65; i+32 <= len(b); i += 32 {
				copy(b[i:], h[33:])
			}
			badExact("a repeated digest", b)
		}
	}
}

// digests: stored digests of other lengths, also prefixes of the right one.
func digests() {
	h := good(1 + vsched.Choose(4))
	n := vsched.Choose(65)
	if n == 32 {
		return
	}
	b := append([]byte(nil), h[:33]...)
	if n < 32 {
		b = append(b, h[33:33+n]...)
	} else {
		b = append(b, h[33:]...)
		b = append(b, make([]byte, n-32)...)
	}
	binary.LittleEndian.PutUint64(b[9:], uint64(len(b)))
	badExact("digest length", b)
}

// text: what is not base64 of the right alphabet.
func text() {
	h := good(1 + vsched.Choose(4))
	s := base64.RawURLEncoding.EncodeToString(h)
	i := vsched.Choose(len(s) + 1)
	try := func(what, t string) {
		vargon2.Calls = nil
		var err error
		drv.NoPanic(fmt.Sprintf("VerifyBase64 of %q", t), func() { err = passhashx.VerifyBase64(pw, t) })
		if err == nil {
			vsched.Fail("%s: %q passes", what, t)
		}
	}
	for _, c := range []string{"=", "+", "/", "!", " ", "\x00", "\x80", "é", "%", ".", "*"} {
		if i < len(s) {
			try("replaced", s[:i]+c+s[i+1:])
		}
		try("inserted", s[:i]+c+s[i:])
	}
	if i < len(s) {
		try("cut", s[:i])
		try("cut", s[i+1:])
		// another character of the alphabet (the last one carries unused bits)
		if i < len(s)-1 {
			for _, c := range "AZaz09-_" {
				if s[i] != byte(c) {
					try("changed", s[:i]+string(c)+s[i+1:])
				}
			}
		}
	}
	try("padded", s+"=")
	try("padded", s+"==")
	try("empty", "")
	try("hex", fmt.Sprintf("%x", h))
}

func main() {
	drv.Main(drv.Check{
		ID:          "X07",
		Level:       "model_checking",
		Rule:        "every truncation at either end; every pair of end offsets over boundary values up to 2^64-1 for several total lengths; every value of every header byte; every algorithm byte; every string of up to two bytes and patterns of every length; consistent headers with every salt length; digests of every other length, prefixes of the right one included; long hashes; in base64: forbidden, padding, other-alphabet and wrong characters at every position, cuts and padding: always an error, never a panic, input unchanged",
		Bounds:      "46 offsets squared for 9 lengths; patterns and consistent headers to 100 (300) bytes",
		Assumptions: []string{"argon2 is replaced by a cheap collision-free function", "bytes behind the digest and line breaks in base64 are not judged"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "truncations", Body: truncations},
				{Name: "header", Shards: 8, Split: 2, Body: header([]int{17, 18, 32, 33, 34, 64, 65, 66, 130})},
				{Name: "header-bytes", Shards: 8, Split: 2, Body: headerBytes},
				{Name: "algorithm", Shards: 8, Split: 1, Body: algorithm},
				{Name: "short", Shards: 8, Split: 2, Body: short(x(100, 300))},
				{Name: "long", Shards: 8, Split: 2, Body: long([]int{100, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 66000})},
				{Name: "digests", Body: digests},
				{Name: "text", Shards: 8, Split: 2, Body: text},
			}
		},
	})
}
