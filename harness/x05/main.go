// X05: the bcrypt helper accepts exactly the hashed password.
package main

import (
	"bytes"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"golang.org/x/crypto/bcrypt"
	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// password makes one of the contents without NUL bytes.
func password(pattern, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch pattern {
		case 0:
			b[i] = 'a'
		case 1:
			b[i] = byte(0x21 + (i*7+n)%90)
		case 2:
			b[i] = byte(0x80 + i%128)
		case 3:
			b[i] = 0xff
		case 4:
			b[i] = 1
		}
	}
	return b
}

func check(enc, pw []byte) (ok bool, err error) {
	e, eok := aes.Guard(enc)
	p, pok := aes.Guard(pw)
	drv.NoPanic(fmt.Sprintf("Decrypt of %q with %q", enc, pw), func() { ok, err = bcryptx.Decrypt(e, p) })
	eok("the hash")
	pok("the password")
	if ok != (err == nil) {
		vsched.Fail("Decrypt gives (%v, %v)", ok, err)
	}
	return
}

func accepted(enc, pw []byte) {
	if ok, err := check(enc, pw); !ok {
		vsched.Fail("the hashed password %q (%d bytes) is rejected: %v", pw, len(pw), err)
	}
}

func rejected(enc, pw, of []byte) {
	if ok, _ := check(enc, pw); ok {
		vsched.Fail("password %q (%d bytes) is accepted for the hash of %q (%d bytes)", pw, len(pw), of, len(of))
	}
}

// quickHash hashes at the smallest cost, to look at many passwords.
func quickHash(pw []byte) []byte {
	h, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost)
	if err != nil {
		vsched.Fail("reference hash: %v", err)
	}
	return h
}

// cache holds hashes of this process; the salt does not matter.
var cache = map[string][]byte{}

func hashed(pw []byte) []byte {
	h, ok := cache[string(pw)]
	if !ok {
		h = quickHash(pw)
		cache[string(pw)] = h
	}
	return h
}

// real goes through Encrypt at its own cost.
func real(lens []int, patterns []int) func() {
	return func() {
		n := lens[vsched.Choose(len(lens))]
		pw := password(patterns[vsched.Choose(len(patterns))], n)
		arg, ok := aes.Guard(pw)
		var enc []byte
		var err error
		drv.NoPanic("Encrypt", func() { enc, err = bcryptx.Encrypt(arg) })
		ok("the password")
		if n > 72 {
			if err == nil || len(enc) != 0 {
				vsched.Fail("Encrypt of %d bytes gives (%q, %v)", n, enc, err)
			}
			return
		}
		if err != nil {
			vsched.Fail("Encrypt of %d bytes: %v", n, err)
		}
		cost, err := bcrypt.Cost(enc)
		if err != nil || cost < bcrypt.DefaultCost {
			vsched.Fail("Encrypt hashes at cost %d (%v)", cost, err)
		}
		accepted(enc, pw)
		if n < 72 {
			rejected(enc, append(append([]byte(nil), pw...), 'x'), pw)
		} else {
			rejected(enc, append(append([]byte(nil), pw...), 'x'), pw)
			rejected(enc, append(append([]byte(nil), pw...), 'x', 'y', 'z'), pw)
		}
		if n > 0 {
			rejected(enc, pw[:n-1], pw)
			o := append([]byte(nil), pw...)
			o[n-1] ^= 0x40
			rejected(enc, o, pw)
			o = append([]byte(nil), pw...)
			o[0] ^= 0x42
			rejected(enc, o, pw)
		}
	}
}

// every: Encrypt and Decrypt for every length.
func every(patterns int) func() {
	return func() {
		pw := password(1+vsched.Choose(patterns), vsched.Choose(73))
		enc, err := bcryptx.Encrypt(pw)
		if err != nil {
			vsched.Fail("Encrypt of %d bytes: %v", len(pw), err)
		}
		accepted(enc, pw)
	}
}

// distinct: two hashes of one password differ.
func distinct() {
	pw := []byte("same")
	a, err := bcryptx.Encrypt(pw)
	b, err2 := bcryptx.Encrypt(pw)
	if err != nil || err2 != nil || bytes.Equal(a, b) {
		vsched.Fail("two hashes of one password: %q, %q", a, b)
	}
	accepted(a, pw)
	accepted(b, pw)
}

// changes: every single-bit change that keeps the password free of NUL.
func changes(lens []int, patterns []int) func() {
	return func() {
		n := lens[vsched.Choose(len(lens))]
		pw := password(patterns[vsched.Choose(len(patterns))], n)
		enc := hashed(pw)
		if n == 0 {
			accepted(enc, pw)
			return
		}
		p := vsched.Choose(n)
		o := append([]byte(nil), pw...)
		if bit := vsched.Choose(9); bit == 8 {
			o[p] = 'Z'
		} else {
			o[p] ^= 1 << uint(bit)
		}
		if o[p] == 0 || bytes.Equal(o, pw) {
			accepted(enc, pw)
			return
		}
		rejected(enc, o, pw)
	}
}

// lengths: every length against every other over one content.
func lengths(max int, patterns []int) func() {
	return func() {
		pat := patterns[vsched.Choose(len(patterns))]
		n := vsched.Choose(73)
		k := vsched.Choose(max + 1)
		base := password(pat, max)
		pw, o := base[:n], base[:k]
		if n == k {
			accepted(hashed(pw), o)
		} else {
			rejected(hashed(pw), o, pw)
		}
	}
}

// long: passwords over the limit whose first 72 bytes are the hashed password.
func long(tails []int) func() {
	return func() {
		pat := vsched.Choose(5)
		n := tails[vsched.Choose(len(tails))]
		v := byte(1 + vsched.Choose(255))
		pw := password(pat, 72)
		enc := hashed(pw)
		accepted(enc, pw)
		rejected(enc, append(append([]byte(nil), pw...), bytes.Repeat([]byte{v}, n)...), pw)
	}
}

// pairs: all short passwords against each other.
func pairs(alphabet []byte, max int) func() {
	var all [][]byte
	var gen func(p []byte)
	gen = func(p []byte) {
		all = append(all, append([]byte(nil), p...))
		if len(p) < max {
			for _, c := range alphabet {
				gen(append(p, c))
			}
		}
	}
	gen(nil)
	return func() {
		a, b := all[vsched.Choose(len(all))], all[vsched.Choose(len(all))]
		if bytes.Equal(a, b) {
			accepted(hashed(a), b)
		} else {
			rejected(hashed(a), b, a)
		}
	}
}

// confusable passwords against each other.
func confusable() {
	all := aes.Confusable(false)
	a := all[vsched.Choose(len(all))]
	for _, b := range all {
		if bytes.Equal(a, b) {
			accepted(hashed(a), b)
		} else {
			rejected(hashed(a), b, a)
		}
	}
}

// encryptConfusable goes through Encrypt at its own cost: the password itself
// passes, and what a transformation of it would give does not.
func encryptConfusable() {
	all := aes.Confusable(false)
	a := all[vsched.Choose(len(all))]
	enc, err := bcryptx.Encrypt(a)
	if err != nil {
		vsched.Fail("Encrypt(%q): %v", a, err)
	}
	accepted(enc, a)
	for _, b := range [][]byte{bytes.TrimSpace(a), bytes.ToLower(a), bytes.ToUpper(a), bytes.ToValidUTF8(a, nil), append(append([]byte(nil), a...), ' '), append(append([]byte(nil), a...), '\n')} {
		if !bytes.Equal(a, b) {
			rejected(enc, b, a)
		}
	}
}

// schedule is what bcrypt makes of a password.
func schedule(pw []byte) string {
	b := append(append([]byte(nil), pw...), 0)
	r := make([]byte, 72)
	for i := range r {
		r[i] = b[i%len(b)]
	}
	return string(r)
}

// variants: what a helpful program might take for the password, NUL bytes
// included; those that are the password to bcrypt are left out.
func variants(max int) func() {
	return func() {
		pw := password(vsched.Choose(5), vsched.Choose(max+1))
		enc := hashed(pw)
		all := aes.Variants(pw)
		for n := len(pw) + 1; n <= 76; n++ {
			pad := make([]byte, n-len(pw))
			all = append(all, append(append([]byte(nil), pw...), pad...), append(pad, pw...))
		}
		// one of eight parts
		k := vsched.Choose(8)
		for i, v := range all {
			if i%8 == k && (len(v) > 72 || schedule(v) != schedule(pw)) {
				rejected(enc, v, pw)
			}
		}
	}
}

// concurrent callers (race detector on).
func concurrent(callers int) func() {
	return func() {
		vcrand.Reset()
		vcrand.Quiet = true
		defer vcrand.Reset()
		ns := []int{3, 3 + 6*vsched.Choose(2), 72}
		var ts []*vsched.Thread
		for i := 0; i < callers; i++ {
			i := i
			ts = append(ts, vsched.GoNamed("caller", func() {
				pw, other := password(i, ns[i]), password(1-i%2, ns[i])
				enc, err := bcryptx.Encrypt(pw)
				if err != nil {
					vsched.Fail("Encrypt: %v", err)
				}
				if ok, err := bcryptx.Decrypt(enc, pw); !ok || err != nil {
					vsched.Fail("the hashed password is rejected: %v", err)
				}
				if ok, _ := bcryptx.Decrypt(enc, other); ok {
					vsched.Fail("the other caller's password passes")
				}
			}))
		}
		vsched.Join(ts...)
	}
}

// malformed hashes: an error, whatever the password.
func malformed() {
	pw := []byte("secret")
	enc := hashed(pw)
	switch vsched.Choose(4) {
	case 0: // truncation
		n := vsched.Choose(len(enc))
		rejected(enc[:n], pw, pw)
		rejected(enc[n+1:], pw, pw)
	case 1: // another digest character
		i := 29 + vsched.Choose(len(enc)-29)
		for _, c := range []byte("./09AZaz$ \x00\xff") {
			o := append([]byte(nil), enc...)
			if o[i] == c {
				continue
			}
			o[i] = c
			rejected(o, pw, pw)
		}
	case 2: // header and salt characters that are not allowed there
		i := vsched.Choose(29)
		if i == 4 || i == 5 { // cost: keep it small or invalid
			for _, c := range []string{"99", "32", "03", "00", "xx", "-1", " 4", "4$"} {
				o := append([]byte(nil), enc...)
				copy(o[4:], c)
				rejected(o, pw, pw)
			}
			return
		}
		if i >= 7 { // salt: not base64, or another salt
			o := append([]byte(nil), enc...)
			for _, c := range []byte("!\x00\xff=") {
				o[i] = c
				rejected(o, pw, pw)
			}
			if i < 28 { // the last one carries unused bits
				for _, c := range []byte("./09AZaz") {
					if enc[i] != c {
						o[i] = c
						rejected(o, pw, pw)
					}
				}
			}
			return
		}
		o := append([]byte(nil), enc...)
		if i == 0 || i == 1 {
			o[i] = "x3"[i]
			rejected(o, pw, pw)
		}
	case 3: // other texts
		for _, s := range []string{"", "$", "$2a$", "$2a$10$", "secret", "$2a$04$" + string(bytes.Repeat([]byte{'.'}, 53)), "$1$abcdefgh$abcdefghijklmnopqrstuv", string(make([]byte, 60)), string(bytes.Repeat([]byte{0xff}, 60)), string(bytes.Repeat([]byte{'$'}, 60))} {
			rejected([]byte(s), pw, pw)
			rejected([]byte(s), nil, pw)
		}
		rejected(nil, nil, nil)
		rejected(nil, pw, pw)
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "X05",
		Level:       "model_checking",
		Rule:        "Encrypt at its own cost for the boundary lengths, with its cost read back, its password accepted and neighbours rejected; at the smallest cost, made by the library directly, Decrypt for every single-bit change of passwords of many lengths, every length against every other, every pair of short passwords and of passwords that trimming, case folding, normalising, decoding or repairing would confuse, whatever padding (with NUL bytes too), cutting, decoding or digesting makes of a password, every tail beyond 72 bytes, and malformed hashes (every truncation, digest and salt character positions, costs, other texts); two concurrent callers under the race detector",
		Bounds:      "bit changes at 6 lengths (0..72) in 2 (5) contents; lengths 0..72 against 0..80 in 2 (5) contents; all pairs of passwords of up to 3 (4) characters out of 3; two callers, 2 (3) preemptions",
		Assumptions: []string{"passwords contain no NUL byte (bcrypt repeats password and NUL)", "the bcrypt library computes bcrypt; characters of a stored hash that carry no information are not judged"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			all := make([]int, 73)
			for i := range all {
				all[i] = i
			}
			bits := []int{0, 1, 8, 55, 71, 72}
			if th {
				bits = all
			}
			pats := []int{1, 2, 0, 3, 4}
			return []drv.Unit{
				{Name: "encrypt", Shards: 8, Split: 2, Body: real([]int{0, 1, 7, 8, 55, 56, 57, 63, 64, 70, 71, 72, 73, 74, 100, 144, 1000}, pats[:x(2, 5)])},
				{Name: "encrypt-every-length", Shards: 8, Split: 1, Body: every(x(1, 3))},
				{Name: "distinct", Body: distinct},
				{Name: "changes", Shards: 8, Split: 3, Body: changes(bits, pats[:x(2, 5)])},
				{Name: "lengths", Shards: 8, Split: 2, Body: lengths(x(76, 100), pats[:x(2, 5)])},
				{Name: "long", Shards: 8, Split: 2, Body: long([]int{1, 2, 72}[:x(1, 3)])},
				{Name: "pairs", Shards: 8, Split: 1, Body: pairs([]byte{'a', 'b', 0xff}, x(3, 4))},
				{Name: "confusable", Shards: 8, Split: 1, Body: confusable},
				{Name: "encrypt-confusable", Shards: 8, Split: 1, Body: encryptConfusable},
				{Name: "variants", Shards: 8, Split: 3, Body: variants(x(10, 72))},
				{Name: "concurrent", Thread: true, Bound: x(2, 3), Body: concurrent(2)},
				{Name: "malformed", Shards: 8, Split: 2, Body: malformed},
			}
		},
	})
}
