// X06: a password hash verifies exactly the hashed password.
package main

import (
	"bytes"
	"encoding/base64"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

var levels = []passhashx.SecurityLevel{
	passhashx.SecurityLevelHigh, passhashx.SecurityLevelLow,
	passhashx.SecurityLevelMobileHigh, passhashx.SecurityLevelMobileLow,
}

func level() passhashx.SecurityLevel { return levels[vsched.Choose(len(levels))] }

// stored is a hash in either form.
type stored struct {
	bin  []byte
	text string
}

func hash(pw []byte, l passhashx.SecurityLevel) (s stored) {
	vargon2.Calls, vcrand.Draws = nil, nil
	arg, ok := aes.Guard(pw)
	var err error
	drv.NoPanic("Hash", func() { s.bin, err = passhashx.Hash(arg, l) })
	ok("the password")
	if err != nil || len(s.bin) == 0 {
		vsched.Fail("Hash(%q, %d) gives (%x, %v)", pw, l, s.bin, err)
	}
	drv.NoPanic("HashBase64", func() { s.text, err = passhashx.HashBase64(arg, l) })
	ok("the password")
	if err != nil {
		vsched.Fail("HashBase64(%q, %d): %v", pw, l, err)
	}
	return
}

func verify(pw []byte, s stored) (bin, text error) {
	vargon2.Calls = nil
	p, pok := aes.Guard(pw)
	h, hok := aes.Guard(s.bin)
	drv.NoPanic("Verify", func() { bin = passhashx.Verify(p, h) })
	drv.NoPanic("VerifyBase64", func() { text = passhashx.VerifyBase64(p, s.text) })
	pok("the password")
	hok("the hash")
	return
}

func accepted(pw []byte, s stored) {
	if a, b := verify(pw, s); a != nil || b != nil {
		vsched.Fail("the hashed password %.300q fails: binary %v, base64 %v", pw, a, b)
	}
}

func rejected(pw []byte, s stored, of []byte) {
	if a, b := verify(pw, s); a == nil || b == nil {
		vsched.Fail("password %.300q passes for the hash of %.300q: binary %v, base64 %v", pw, of, a, b)
	}
}

func words(alphabet []byte, max int) (all [][]byte) {
	var gen func(p []byte)
	gen = func(p []byte) {
		all = append(all, append([]byte(nil), p...))
		if len(p) < max {
			for _, c := range alphabet {
				gen(append(p, c))
			}
		}
	}
	gen(nil)
	return
}

// pairs: all short passwords against each other at every level.
func pairs(alphabet []byte, max int) func() {
	all := words(alphabet, max)
	return func() {
		l := level()
		a := all[vsched.Choose(len(all))]
		s := hash(a, l)
		for _, b := range all {
			if bytes.Equal(a, b) {
				accepted(b, s)
			} else {
				rejected(b, s, a)
			}
		}
	}
}

// long: every length, with every byte changed in turn, every cut and extension.
func long(max int) func() {
	return func() {
		l := level()
		n := vsched.Choose(max + 1)
		pw := aes.Fill(3, n)
		s := hash(pw, l)
		accepted(pw, s)
		for i := 0; i < n; i++ {
			o := append([]byte(nil), pw...)
			o[i] ^= 1 << uint(i%8)
			rejected(o, s, pw)
			rejected(pw[:i], s, pw)
			if i > 0 {
				rejected(pw[i:], s, pw)
			}
		}
		for _, t := range [][]byte{{0}, {'x'}, {0, 0}, {' '}, {'\n'}, pw} {
			if len(t) > 0 {
				rejected(append(append([]byte(nil), pw...), t...), s, pw)
			}
		}
		if n > 1 {
			o := append([]byte(nil), pw...)
			o[0], o[n-1] = o[n-1], o[0]
			if !bytes.Equal(o, pw) {
				rejected(o, s, pw)
			}
		}
	}
}

// longest: passwords far beyond any block, changed, cut and extended at both
// ends of every block of 128 bytes.
func longest(sizes []int) func() {
	return func() {
		l := level()
		n := sizes[vsched.Choose(len(sizes))]
		pw := aes.Fill(3, n)
		s := hash(pw, l)
		accepted(pw, s)
		step := 128
		if n > 5000 {
			step = 4096
		}
		var at []int
		for i := 0; i < n; i += step {
			at = append(at, i, i+step-1)
		}
		at = append(at, 1, 200, n/2, n-2, n-1)
		for _, i := range at {
			if i >= n {
				i = n - 1
			}
			o := append([]byte(nil), pw...)
			o[i] ^= 1
			rejected(o, s, pw)
			rejected(pw[:i], s, pw)
			rejected(append(append([]byte(nil), pw[:i]...), pw[i+1:]...), s, pw)
			if i > 0 {
				rejected(pw[i:], s, pw)
			}
		}
		rejected(append(append([]byte(nil), pw...), 0), s, pw)
		rejected(append(append([]byte(nil), pw...), pw...), s, pw)
	}
}

// tampered: every bit of the stored hash, every level byte.
func tampered(n int) func() {
	return func() {
		l := level()
		pw := aes.Fill(3, n)
		s := hash(pw, l)
		accepted(pw, s)
		bit := vsched.Choose(8*len(s.bin) + 256)
		o := append([]byte(nil), s.bin...)
		if bit < 8*len(o) {
			o[bit/8] ^= 1 << uint(bit%8)
		} else {
			o[0] = byte(bit - 8*len(o))
		}
		if bytes.Equal(o, s.bin) {
			return
		}
		rejected(pw, stored{o, base64.RawURLEncoding.EncodeToString(o)}, pw)
		for _, other := range words([]byte{0, 'a'}, 2) {
			rejected(other, stored{o, base64.RawURLEncoding.EncodeToString(o)}, pw)
		}
	}
}

// confusable passwords against each other.
func confusable() {
	all := aes.Confusable(true)
	l := level()
	a := all[vsched.Choose(len(all))]
	s := hash(a, l)
	for _, b := range all {
		if bytes.Equal(a, b) {
			accepted(b, s)
		} else {
			rejected(b, s, a)
		}
	}
}

// variants: what a helpful program might take for the password, and the parts
// of the stored hash as one.
func variants(sizes []int) func() {
	words := aes.Confusable(true)
	for _, n := range sizes {
		for p := 0; p < 6; p++ {
			words = append(words, aes.Fill(p, n))
		}
	}
	return func() {
		pw := words[vsched.Choose(len(words))]
		s := hash(pw, level())
		all := aes.Variants(pw)
		for n := len(pw) + 1; n <= 130; n++ {
			pad := make([]byte, n-len(pw))
			all = append(all, append(append([]byte(nil), pw...), pad...), append(pad, pw...))
		}
		for i := 0; i <= len(s.bin); i++ {
			all = append(all, s.bin[:i], s.bin[i:])
		}
		for _, part := range [][]byte{s.bin[:1], s.bin[1:17], s.bin[17:33], s.bin[1:33], s.bin[17:], s.bin[33:], []byte(s.text)} {
			all = append(all, part, append(append([]byte(nil), part...), pw...), append(append([]byte(nil), pw...), part...))
		}
		for _, v := range all {
			if !bytes.Equal(v, pw) {
				rejected(v, s, pw)
			}
		}
		accepted(pw, s)
	}
}

// mixed: salt, digest and level of different hashes combined.
func mixed() {
	l1, l2 := level(), level()
	p1, p2 := []byte("first"), []byte("second")
	a, b := hash(p1, l1).bin, hash(p2, l2).bin
	if vsched.Choose(2) == 1 {
		p2 = p1
		b = hash(p1, l2).bin
	}
	if len(a) != 65 || len(b) != 65 {
		vsched.Fail("hashes of %d and %d bytes", len(a), len(b))
	}
	for m := 1; m < 7; m++ { // which parts come from b
		o := append([]byte(nil), a...)
		if m&1 != 0 {
			o[0] = b[0]
		}
		if m&2 != 0 {
			copy(o[17:33], b[17:33])
		}
		if m&4 != 0 {
			copy(o[33:], b[33:])
		}
		s := stored{o, base64.RawURLEncoding.EncodeToString(o)}
		if bytes.Equal(o, a) {
			accepted(p1, s)
		} else if bytes.Equal(o, b) {
			accepted(p2, s)
		} else {
			rejected(p1, s, p1)
			rejected(p2, s, p2)
		}
	}
}

// undefined levels are refused.
func undefined() {
	from := vsched.Choose(64)
	for i := 0; i < 1024; i++ {
		l := passhashx.SecurityLevel(int16(from*1024 + i - 32768))
		defined := l >= 1 && l <= 4
		vargon2.Calls, vcrand.Draws = nil, nil
		var h []byte
		var s string
		var err, err2 error
		drv.NoPanic(fmt.Sprintf("Hash at level %d", l), func() {
			h, err = passhashx.Hash([]byte("p"), l)
			s, err2 = passhashx.HashBase64([]byte("p"), l)
		})
		if (err == nil) != defined || (err2 == nil) != defined || (len(h) > 0) != defined || (s != "") != defined {
			vsched.Fail("level %d gives (%x, %v) and (%q, %v)", l, h, err, s, err2)
		}
	}
}

// sequences of hashing at changing levels; all stay verifiable and distinct.
func sequences(depth int) func() {
	return func() {
		type made struct {
			pw []byte
			s  stored
		}
		var all []made
		for d := 0; d < depth; d++ {
			pw := []byte{'p', byte('0' + vsched.Choose(2))}
			m := made{pw, hash(pw, level())}
			for _, o := range all {
				if bytes.Equal(o.s.bin, m.s.bin) || o.s.text == m.s.text {
					vsched.Fail("two hashes of %q are the same", pw)
				}
			}
			all = append(all, m)
		}
		for _, m := range all {
			accepted(m.pw, m.s)
			rejected([]byte{'p', '0' + '1' - m.pw[1]}, m.s, m.pw)
		}
	}
}

// real: the actual argon2.
func real() {
	vargon2.Real = true
	defer func() { vargon2.Real = false }()
	l := level()
	pw := []byte("correct horse")
	s := hash(pw, l)
	accepted(pw, s)
	rejected([]byte("correct horsf"), s, pw)
	rejected(nil, s, pw)
}

// concurrent callers (race detector on).
func concurrent() {
	vcrand.Reset()
	vcrand.Quiet, vargon2.Quiet = true, true
	defer func() { vcrand.Quiet, vargon2.Quiet = false, false }()
	ls := [2]passhashx.SecurityLevel{level(), level()}
	var ts []*vsched.Thread
	for i := range ls {
		i := i
		ts = append(ts, vsched.GoNamed("caller", func() {
			pw := aes.Fill(3+i, 9)
			h, err := passhashx.Hash(pw, ls[i])
			if err != nil {
				vsched.Fail("Hash: %v", err)
			}
			vsched.Point("between")
			if err := passhashx.Verify(pw, h); err != nil {
				vsched.Fail("Verify: %v", err)
			}
			vsched.Point("between")
			if passhashx.Verify(aes.Fill(4-i, 9), h) == nil {
				vsched.Fail("the other caller's password passes")
			}
		}))
	}
	vsched.Join(ts...)
}

func main() {
	drv.Main(drv.Check{
		ID:          "X06",
		Level:       "model_checking",
		Rule:        "for each level, binary and base64: every short password against every other; passwords that trimming, case folding, normalising, decoding or repairing would confuse against each other, and whatever padding, cutting, decoding, digesting or joining with parts of the stored hash makes of one; passwords of every length with every byte changed, every cut and extensions; every bit of the stored hash and every level byte changed; every mixture of level, salt and digest of two hashes; all 65536 level values; every sequence of hashes over levels and two passwords; two concurrent callers under the race detector; the real argon2 once per level",
		Bounds:      "passwords of up to 3 (4) bytes out of 4; lengths 0..130 (0..300) and up to 64 KiB (256 KiB); sequences of 3 (4); two callers, 2 (4) preemptions",
		Assumptions: []string{"argon2 is replaced by a cheap collision-free function of all its arguments, except in unit real"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "pairs", Shards: 8, Split: 2, Body: pairs([]byte{0, 1, 'a', 0xff}, x(3, 4))},
				{Name: "long", Shards: 8, Split: 2, Body: long(x(130, 300))},
				{Name: "longest", Shards: 8, Split: 2, Body: longest([]int{200, 255, 256, 257, 384, 511, 512, 513, 1000, 1024, 1025, 4096, 4097, 10000, 65536, 65537, 1 << 18}[:x(15, 17)])},
				{Name: "tampered", Shards: 8, Split: 2, Body: tampered(5)},
				{Name: "tampered-empty", Shards: 8, Split: 2, Body: tampered(0)},
				{Name: "confusable", Shards: 8, Split: 2, Body: confusable},
				{Name: "variants", Shards: 8, Split: 2, Body: variants([]int{0, 7, 8, 15, 16, 31, 32, 33, 64, 72, 73, 100, 128}[:x(8, 13)])},
				{Name: "mixed", Body: mixed},
				{Name: "undefined", Shards: 8, Split: 1, Body: undefined},
				{Name: "sequences", Shards: 8, Split: 2, Body: sequences(x(3, 4))},
				{Name: "concurrent", Thread: true, Bound: x(2, 4), Body: concurrent},
				{Name: "real", Shards: 4, Split: 1, Body: real},
			}
		},
	})
}
