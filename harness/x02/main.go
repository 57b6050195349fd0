// X02: GCM decryption rejects every modified ciphertext.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"

	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

var gcm = &aes.Modes[2]

func refused(what string, data, key []byte) {
	pt, err := aes.Call("DecryptGCM", gcm.Dec, data, key)
	if err == nil {
		vsched.Fail("%s: accepted, plaintext %x", what, pt[:min(len(pt), 300)])
	}
	if len(pt) != 0 {
		vsched.Fail("%s: refused, yet gives %x", what, pt[:min(len(pt), 300)])
	}
}

func make1(n, seed int) (data, key, ct []byte) {
	aes.Head(3 + seed)
	data, key = aes.Fill(3+seed, n), aes.Fill(3, 20)
	ct = gcm.Encrypt(data, key)
	vcrand.Reset()
	pt, err := aes.Call("DecryptGCM", gcm.Dec, ct, key)
	if err != nil || !bytes.Equal(pt, data) {
		vsched.Fail("the unmodified ciphertext gives (%x, %v)", pt, err)
	}
	return
}

func flips(max int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		_, key, ct := make1(n, 0)
		b := vsched.Choose(len(ct) * 8)
		m := append([]byte(nil), ct...)
		m[b/8] ^= 1 << uint(b%8)
		refused("bit flip", m, key)
	}
}

// twice: every pair of flipped bits of a short ciphertext.
func twice(n int) func() {
	return func() {
		_, key, ct := make1(n, 1)
		p := vsched.Choose(len(ct) * 8)
		q := vsched.Choose(len(ct)*8 - p)
		m := append([]byte(nil), ct...)
		m[p/8] ^= 1 << uint(p%8)
		if q > 0 {
			m[(p+q)/8] ^= 1 << uint((p+q)%8)
		}
		refused("one or two bit flips", m, key)
	}
}

// bytesAt: every value of every byte.
func bytesAt(n int) func() {
	return func() {
		_, key, ct := make1(n, 2)
		p := vsched.Choose(len(ct))
		m := append([]byte(nil), ct...)
		m[p] ^= byte(1 + vsched.Choose(255))
		refused("byte change", m, key)
	}
}

func cuts(max int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		_, key, ct := make1(n, 0)
		i := vsched.Choose(len(ct) + 1)
		if i < len(ct) {
			refused("truncation at the end", ct[:i], key)
			if i > 0 {
				refused("truncation at the start", ct[i:], key)
			}
			for j := i + 1; j <= len(ct); j++ {
				if i == 0 && j == len(ct) {
					continue
				}
				refused("removal", append(append([]byte(nil), ct[:i]...), ct[j:]...), key)
			}
			return
		}
		for e := 1; e <= 33; e++ {
			for pat := 0; pat < 3; pat++ {
				x := aes.Fill(pat, e)
				refused("extension at the end", append(append([]byte(nil), ct...), x...), key)
				refused("extension at the start", append(append([]byte(nil), x...), ct...), key)
				refused("extension of the body", append(append(append([]byte(nil), ct[:12]...), x...), ct[12:]...), key)
			}
		}
		refused("doubling", append(append([]byte(nil), ct...), ct...), key)
	}
}

// splices: any prefix of one ciphertext with any suffix of another.
func splices(max int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		k := vsched.Choose(max + 1)
		_, key, c1 := make1(n, 0)
		_, _, c2 := make1(k, 1)
		i := vsched.Choose(len(c1) + 1)
		for j := 0; j <= len(c2); j++ {
			s := append(append([]byte(nil), c1[:i]...), c2[j:]...)
			if bytes.Equal(s, c1) || bytes.Equal(s, c2) {
				continue
			}
			refused("splice", s, key)
		}
	}
}

// keys: every other key near the right one.
func keys(max int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		kl := vsched.Choose(35)
		aes.Head(3)
		data, key := aes.Fill(3, n), aes.Fill(3, kl)
		ct := gcm.Encrypt(data, key)
		vcrand.Reset()
		for i := 0; i < kl*8; i++ {
			k := append([]byte(nil), key...)
			k[i/8] ^= 1 << uint(i%8)
			refused("another key", ct, k)
		}
		for i := 0; i < kl; i++ {
			refused("a shorter key", ct, key[:i])
			refused("a shorter key", ct, key[kl-i:])
		}
		for e := 1; e < 4; e++ {
			refused("a longer key", ct, append(append([]byte(nil), key...), make([]byte, e)...))
			refused("a longer key", ct, append(make([]byte, e), key...))
		}
	}
}

// other: encrypted under a, it is refused under everything that is not a.
func other(ct, a []byte, ks [][]byte) {
	for _, k := range ks {
		if !bytes.Equal(k, a) {
			if pt, err := gcm.Dec(ct, k); err == nil || len(pt) != 0 {
				vsched.Fail("%d bytes encrypted under %q, decrypted under %q: (%x, %v)", len(ct)-28, a, k, pt, err)
			}
		}
	}
}

// alike: keys that look alike, or belong to one another.
func alike(lengths []int, keys []int) func() {
	words := aes.Confusable(true)
	for _, n := range keys {
		for p := 0; p < 6; p++ {
			words = append(words, aes.Fill(p, n))
		}
	}
	return func() {
		a := words[vsched.Choose(len(words))]
		n := lengths[vsched.Choose(len(lengths))]
		aes.Head(3)
		ct := gcm.Encrypt(aes.Fill(3, n), a)
		vcrand.Reset()
		if pt, err := gcm.Dec(ct, a); err != nil || !bytes.Equal(pt, aes.Fill(3, n)) {
			vsched.Fail("the unmodified ciphertext under the key %q gives (%x, %v)", a, pt, err)
		}
		other(ct, a, aes.Variants(a))
		other(ct, a, words)
		// the nonce, the body or the tag as a key, alone or beside it
		for _, b := range [][]byte{nil, ct[:12], ct[12 : 12+n], ct[12+n:], ct, aes.Fill(3, n)} {
			other(ct, a, [][]byte{b, append(append([]byte(nil), b...), a...), append(append([]byte(nil), a...), b...)})
		}
	}
}

// long: a change anywhere in a long ciphertext, at both ends of every
// block of 512 bytes; truncations there; the blocks exchanged.
func long(sizes []int) func() {
	return func() {
		n := sizes[vsched.Choose(len(sizes))]
		_, key, ct := make1(n, 0)
		var at []int
		for i := 12; i < len(ct); i += 512 {
			at = append(at, i, i+511)
		}
		at = append(at, 0, 11, len(ct)/2, len(ct)-17, len(ct)-16, len(ct)-1)
		k := at[vsched.Choose(len(at))]
		if k >= len(ct) {
			k = len(ct) - 1
		}
		m := append([]byte(nil), ct...)
		switch vsched.Choose(5) {
		case 0:
			m[k] ^= 1
		case 1:
			m[k] ^= 0x80
		case 2:
			m = m[:k]
		case 3:
			m = append(m[:k], m[k+1:]...)
		case 4:
			j := 12 + (k-12)/512*512
			if j < 12 || j+1024 > len(m)-16 {
				j = 12
			}
			copy(m[j:j+512], ct[j+512:j+1024])
			copy(m[j+512:j+1024], ct[j:j+512])
		}
		refused("a change in a long ciphertext", m, key)
	}
}

// layouts: the parts in every other order, every rotation, reversals and
// byte orders; nonce and tag encoded otherwise, padded or cut.
func layouts(max int) func() {
	return func() {
		n := vsched.Choose(max + 1)
		_, key, ct := make1(n, 0)
		no := func(what string, m []byte) {
			if !bytes.Equal(m, ct) {
				refused(what, m, key)
			}
		}
		nonce, body, tag := ct[:12], ct[12:len(ct)-16], ct[len(ct)-16:]
		cat := func(ps ...[]byte) []byte { return bytes.Join(ps, nil) }
		rev := func(b []byte) []byte {
			r := make([]byte, len(b))
			for i := range b {
				r[len(b)-1-i] = b[i]
			}
			return r
		}
		words := func(b []byte, w int) []byte {
			r := append([]byte(nil), b...)
			for i := 0; i+w <= len(r); i += w {
				copy(r[i:i+w], rev(b[i:i+w]))
			}
			return r
		}
		parts := [][]byte{nonce, body, tag, {}, make([]byte, 12), make([]byte, 16), make([]byte, 4), {1}, {12}, {0, 0, 0, 1}, {0, 0, 0, 12}}
		for _, a := range parts {
			for _, b := range parts {
				no("two parts", cat(a, b))
				for _, c := range parts {
					no("parts exchanged", cat(a, b, c))
				}
			}
		}
		for k := 1; k < len(ct); k++ {
			no("rotation", cat(ct[k:], ct[:k]))
			no("a part reversed", cat(ct[:k], rev(ct[k:])))
			no("a part reversed", cat(rev(ct[:k]), ct[k:]))
		}
		for w := 2; w <= 16; w++ {
			no("byte order of the tag", cat(nonce, body, words(tag, w)))
			no("byte order of the nonce", cat(words(nonce, w), body, tag))
			no("byte order of the body", cat(nonce, words(body, w), tag))
			no("byte order", words(ct, w))
		}
		for k := 0; k < 16; k++ {
			no("tag cut", cat(nonce, body, tag[:k]))
			no("tag cut", cat(nonce, body, tag[16-k:]))
			no("tag padded", cat(nonce, body, tag[:k], make([]byte, 16-k)))
			no("tag rotated", cat(nonce, body, tag[k:], tag[:k]))
			if k < 12 {
				no("nonce cut", cat(nonce[:k], body, tag))
				no("nonce padded", cat(nonce[:k], make([]byte, 12-k), body, tag))
				no("nonce extended", cat(nonce, make([]byte, k+1), body, tag))
				no("nonce rotated", cat(nonce[k:], nonce[:k], body, tag))
			}
		}
		for _, p := range []byte{0, 1, 0xFF, '\n', ' '} {
			for k := 1; k <= 16; k++ {
				no("padded", cat(ct, bytes.Repeat([]byte{p}, k)))
				no("padded", cat(bytes.Repeat([]byte{p}, k), ct))
				no("body padded", cat(nonce, body, bytes.Repeat([]byte{p}, k), tag))
			}
		}
		for k := 1; k <= 16; k++ {
			no("padded as a block", cat(nonce, body, bytes.Repeat([]byte{byte(k)}, k), tag))
			no("padded as a block", cat(ct, bytes.Repeat([]byte{byte(k)}, k)))
		}
		no("hexadecimal", []byte(hex.EncodeToString(ct)))
		for _, e := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding, base64.RawURLEncoding} {
			no("base 64", []byte(e.EncodeToString(ct)))
		}
		inv := append([]byte(nil), ct...)
		for i := range inv {
			inv[i] = ^inv[i]
		}
		no("inverted", inv)
		no("tag inverted", cat(nonce, body, inv[len(ct)-16:]))
		for k := 0; k < 256; k++ {
			m := append([]byte(nil), ct...)
			for i := len(ct) - 16; i < len(ct); i++ {
				m[i] = byte(k)
			}
			no("constant tag", m)
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "X02",
		Level:       "model_checking",
		Rule:        "for every plaintext length up to a bound: every single-bit change of nonce, body and tag, every truncation at either end, every removal of a run of bytes, extensions of up to 33 bytes in three places, every splice of a prefix of one ciphertext with a suffix of another, its parts in every order with padding between them, every rotation, parts reversed, cut, padded, in another byte order or encoding, constant tags, every single-bit change, truncation and short extension of keys of length 0..34, every other key of a list of look-alikes and each key with any byte value added at either end or in the middle, in another case, encoding, hash, order or size; every pair of bit changes and every value of every byte of short ciphertexts: all refused without plaintext, while the unmodified one decrypts",
		Bounds:      "plaintext lengths 0..66 (0..140) for bit flips, 0..33 (0..50) for cuts, 0..24 (0..40) for splices, 0..40 (0..140) for layouts; bit pairs for 17 (33) bytes, byte values for 40 (100) bytes, ciphertexts of up to 70000 bytes (256 KiB) changed at the ends of every 512 bytes, keys with plaintexts of 0..17 (0..33)",
		Assumptions: []string{"no 128-bit tag collides by accident"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "flips", Shards: 8, Split: 1, Body: flips(x(66, 140))},
				{Name: "pairs", Shards: 8, Split: 1, Body: twice(x(17, 33))},
				{Name: "bytes", Shards: 8, Split: 1, Body: bytesAt(x(40, 100))},
				{Name: "cuts", Shards: 8, Split: 1, Body: cuts(x(33, 50))},
				{Name: "splices", Shards: 8, Split: 2, Body: splices(x(24, 40))},
				{Name: "layouts", Shards: 8, Split: 1, Body: layouts(x(40, 140))},
				{Name: "long", Shards: 8, Split: 2, Body: long([]int{2048, 4096, 8193, 16384, 65536, 70000, 1 << 18}[:x(6, 7)])},
				{Name: "keys", Shards: 8, Split: 2, Body: keys(x(17, 33))},
				{Name: "alike", Shards: 8, Split: 2, Body: alike([]int{0, 1, 2, 11, 12, 15, 16, 17, 28, 32, 33, 64, 100}, []int{1, 2, 8, 15, 16, 17, 24, 31, 32, 33, 47, 64, 65, 128, 129, 256}[:x(12, 16)])},
			}
		},
	})
}
