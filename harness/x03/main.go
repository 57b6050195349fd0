// X03: AES decryption returns errors, not panics, on malformed input.
package main

import (
	"bytes"

	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

// one decrypts arbitrary bytes.
func one(m *aes.Mode, data, key []byte) {
	pt, err := aes.Call("Decrypt"+m.Name, m.Dec, data, key)
	if err != nil && len(pt) != 0 {
		vsched.Fail("Decrypt%s of %d bytes gives output beside the error %v", m.Name, len(data), err)
	}
	valid := len(data) >= m.Head && (len(data)-m.Head)%m.Block == 0
	if m.Tail > 0 { // authenticated: arbitrary bytes never pass
		valid = false
	}
	if !valid {
		if err == nil {
			vsched.Fail("Decrypt%s of %d malformed bytes reports no error", m.Name, len(data))
		}
		return
	}
	if err != nil {
		vsched.Fail("Decrypt%s of %d bytes: %v", m.Name, len(data), err)
	}
	// decryption inverts the published encryption
	if back := m.Reference(data[:m.Head], pt, key); !bytes.Equal(back, data) {
		vsched.Fail("Decrypt%s of %x gives %x, which encrypts to %x", m.Name, data, pt, back)
	}
}

func lengths(max, patterns int, keys []int) func() {
	return func() {
		m := &aes.Modes[vsched.Choose(len(aes.Modes))]
		n := vsched.Choose(max + 1)
		kl := keys[vsched.Choose(len(keys))]
		p := vsched.Choose(patterns)
		one(m, aes.Fill(p, n), aes.Fill(2, kl))
	}
}

// long data, around powers of two.
func long(max int) func() {
	return func() {
		m := &aes.Modes[vsched.Choose(len(aes.Modes))]
		p := 12 + vsched.Choose(max-11)
		one(m, aes.Fill(3, 1<<uint(p)+vsched.Choose(68)-34), aes.Fill(2, 16))
	}
}

func nils() {
	for i := range aes.Modes {
		m := &aes.Modes[i]
		one(m, nil, nil)
		one(m, nil, []byte("k"))
		one(m, []byte{}, nil)
	}
}

// short: every byte string of up to two bytes, and every prefix of a longer
// one with each value of its last byte.
func short() {
	m := &aes.Modes[vsched.Choose(len(aes.Modes))]
	n := vsched.Choose(35)
	v := vsched.Choose(256)
	b := append(aes.Fill(3, n), byte(v))
	one(m, b, []byte("key"))
	if n == 0 {
		for w := 0; w < 256; w++ {
			one(m, []byte{byte(v), byte(w)}, []byte("key"))
		}
	}
}

// afterwards: a refused call does not disturb the next good one.
func afterwards(depth int) func() {
	return func() {
		for d := 0; d < depth; d++ {
			m := &aes.Modes[vsched.Choose(len(aes.Modes))]
			n := []int{0, m.Head - 1, m.Head + 1, m.Head + 15, 32, 48}[vsched.Choose(6)]
			one(m, aes.Fill(d+2, n), []byte("key"))
			data := aes.Fill(d, 32)
			pt, err := aes.Call("Decrypt"+m.Name, m.Dec, m.Reference(aes.Fill(4, m.Head), data, []byte("key")), []byte("key"))
			if err != nil || !bytes.Equal(pt, data) {
				vsched.Fail("a good Decrypt%s after a call with %d bytes gives (%x, %v)", m.Name, n, pt, err)
			}
		}
	}
}

func main() {
	drv.Main(drv.Check{
		ID:     "X03",
		Level:  "model_checking",
		Rule:   "every input length up to a bound in every mode for several contents and key lengths; every byte string of up to two bytes and every last byte of longer ones; sequences of malformed and good calls: never a panic, too short or unaligned input (and anything unauthenticated in GCM) refused with an error and no output, everything else decrypted to what the published layout gives",
		Bounds: "lengths 0..600 (0..2200), 6 (8) contents, 5 key lengths",
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "lengths", Shards: 8, Split: 2, Body: lengths(x(600, 2200), x(6, 8), []int{0, 1, 16, 32, 50})},
				{Name: "long", Shards: 8, Split: 3, Body: long(x(20, 23))},
				{Name: "short", Shards: 8, Split: 2, Body: short},
				{Name: "nil", Body: nils},
				{Name: "afterwards", Shards: 8, Split: 2, Body: afterwards(x(4, 5))},
			}
		},
	})
}
