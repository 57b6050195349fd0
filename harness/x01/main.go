// X01: the AES helpers decrypt exactly what they encrypted.
package main

import (
	"bytes"
	"fmt"

	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// brief keeps messages short.
func brief(b []byte) []byte {
	if len(b) > 600 {
		return b[:600]
	}
	return b
}

// one round trip, with the layout.
func trip(m *aes.Mode, data, key []byte) {
	ct, err := aes.Call("Encrypt"+m.Name, m.Enc, data, key)
	if len(data)%m.Block != 0 {
		if err == nil {
			vsched.Fail("Encrypt%s of %d bytes reports no error", m.Name, len(data))
		}
		if len(ct) != 0 {
			vsched.Fail("Encrypt%s of %d bytes gives output beside the error", m.Name, len(data))
		}
		return
	}
	if err != nil {
		vsched.Fail("Encrypt%s of %d bytes: %v", m.Name, len(data), err)
	}
	if len(ct) < m.Head {
		vsched.Fail("Encrypt%s of %d bytes gives only %d", m.Name, len(data), len(ct))
	}
	if want := m.Reference(ct[:m.Head], data, key); !bytes.Equal(ct, want) {
		vsched.Fail("Encrypt%s of %x under %x gives %x, want %x", m.Name, brief(data), key, brief(ct), brief(want))
	}
	pt, err := aes.Call("Decrypt"+m.Name, m.Dec, ct, key)
	if err != nil || !bytes.Equal(pt, data) {
		vsched.Fail("Decrypt%s of the encryption of %x gives (%x, %v)", m.Name, brief(data), brief(pt), err)
	}
	// and what the standard library made
	pt, err = aes.Call("Decrypt"+m.Name, m.Dec, m.Reference(aes.Fill(3, m.Head), data, key), key)
	if err != nil || !bytes.Equal(pt, data) {
		vsched.Fail("Decrypt%s of a reference ciphertext of %x gives (%x, %v)", m.Name, brief(data), brief(pt), err)
	}
}

// product: modes x plaintext lengths x key lengths x contents x random bytes.
func product(lens, keys []int, patterns, heads int) func() {
	return func() {
		m := &aes.Modes[vsched.Choose(len(aes.Modes))]
		n := lens[vsched.Choose(len(lens))]
		kl := keys[vsched.Choose(len(keys))]
		aes.Head(vsched.Choose(heads))
		data := aes.Fill(vsched.Choose(patterns), n)
		key := aes.Fill(2+vsched.Choose(2), kl)
		trip(m, data, key)
		vcrand.Reset()
	}
}

// long data: lengths around the sizes of buffers and far beyond.
func long(lens []int) func() {
	return func() {
		m := &aes.Modes[vsched.Choose(len(aes.Modes))]
		n := lens[vsched.Choose(len(lens))]
		aes.Head(2)
		trip(m, aes.Fill(3, n), aes.Fill(3, 16))
		vcrand.Reset()
	}
}

func nils() {
	vcrand.Reset()
	for i := range aes.Modes {
		trip(&aes.Modes[i], nil, nil)
		trip(&aes.Modes[i], []byte{}, []byte{})
		trip(&aes.Modes[i], make([]byte, 16), nil)
	}
}

// contents: every byte value at every position of a short message and key.
func contents(pos int) func() {
	return func() {
		m := &aes.Modes[vsched.Choose(len(aes.Modes))]
		aes.Head(2)
		p := vsched.Choose(pos)
		v := byte(vsched.Choose(256))
		data, key := aes.Fill(3, 32), aes.Fill(3, 16)
		if p < 32 {
			data[p] ^= v
		} else {
			key[p-32] ^= v
		}
		trip(m, data, key)
		vcrand.Reset()
	}
}

// sequences of calls: earlier results stay what they were.
func sequences(depth int) func() {
	type res struct {
		what      string
		out, copy []byte
	}
	return func() {
		vcrand.Reset()
		vcrand.Plan = func(i, n int) ([]byte, int, error) { return aes.Fill(7+i, n), -1, nil }
		var all []res
		keep := func(what string, b []byte) {
			all = append(all, res{what, b, append([]byte(nil), b...)})
		}
		type msg struct {
			m         *aes.Mode
			data, key []byte
			ct        []byte
		}
		var msgs []msg
		for d := 0; d < depth; d++ {
			op := vsched.Choose(2*len(aes.Modes) + len(msgs))
			if op < 2*len(aes.Modes) {
				m := &aes.Modes[op/2]
				x := msg{m: m, data: aes.Fill(d+3, 16*(1+op%2)), key: aes.Fill(3+op%2, 8)}
				ct, err := m.Enc(x.data, x.key)
				if err != nil {
					vsched.Fail("Encrypt%s: %v", m.Name, err)
				}
				x.ct = ct
				keep(fmt.Sprintf("ciphertext %d", d), ct)
				msgs = append(msgs, x)
			} else {
				x := msgs[op-2*len(aes.Modes)]
				pt, err := x.m.Dec(x.ct, x.key)
				if err != nil || !bytes.Equal(pt, x.data) {
					vsched.Fail("Decrypt%s gives (%x, %v), want %x", x.m.Name, pt, err, x.data)
				}
				keep(fmt.Sprintf("plaintext %d", d), pt)
			}
			for _, r := range all {
				if !bytes.Equal(r.out, r.copy) {
					vsched.Fail("%s changed at step %d", r.what, d)
				}
			}
		}
		// the results do not share memory
		for i, r := range all {
			for j := range r.out {
				r.out[j] ^= 0x55
			}
			for k, q := range all {
				if k > i && !bytes.Equal(q.out, q.copy) {
					vsched.Fail("%s and %s share memory", r.what, q.what)
				}
			}
		}
		vcrand.Reset()
	}
}

// concurrent calls do not influence each other (race detector on).
func concurrent() {
	vcrand.Reset()
	vcrand.Quiet = true
	ms := [2]*aes.Mode{&aes.Modes[vsched.Choose(len(aes.Modes))], &aes.Modes[vsched.Choose(len(aes.Modes))]}
	var ts []*vsched.Thread
	for i := range ms {
		i := i
		ts = append(ts, vsched.GoNamed("caller", func() {
			data, key := aes.Fill(3+i, 32), aes.Fill(3+i, 8)
			for r := 0; r < 2; r++ {
				ct, err := ms[i].Enc(data, key)
				if err != nil {
					vsched.Fail("Encrypt%s: %v", ms[i].Name, err)
				}
				vsched.Point("between")
				pt, err := ms[i].Dec(ct, key)
				if err != nil || !bytes.Equal(pt, data) {
					vsched.Fail("Decrypt%s gives (%x, %v), want %x", ms[i].Name, pt, err, data)
				}
				vsched.Point("between")
			}
		}))
	}
	vsched.Join(ts...)
}

func upto(n int, more ...int) (r []int) {
	for i := 0; i <= n; i++ {
		r = append(r, i)
	}
	return append(r, more...)
}

func main() {
	drv.Main(drv.Check{
		ID:          "X01",
		Level:       "model_checking",
		Rule:        "the product of mode, plaintext length, key length, content patterns and random bytes: encrypt, compare with the standard library's ciphertext for the same IV or nonce, decrypt, decrypt a reference ciphertext; inputs and the memory around them unchanged, outputs not shared; every byte value at every position of a message and key; every sequence of encryptions and decryptions up to a depth, with all earlier results kept",
		Bounds:      "plaintext 0..150 (0..300) and lengths around powers of two to 1 MiB, and 3 MiB (16 MiB); keys 0..40 (0..70) and around 64 and 128; 5 (8) contents, 4 (6) random patterns; sequences of 5 (7) calls; two goroutines under the race detector",
		Assumptions: []string{"the standard library's AES, CBC, CTR, GCM and SHA-256 are right"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			edge := []int{95, 96, 97, 111, 112, 113, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4080, 4095, 4096, 4097, 65535, 65536, 65537}[:x(22, 25)]
			return []drv.Unit{
				{Name: "lengths", Shards: 8, Split: 3, Body: product(upto(x(150, 300), edge...), []int{0, 1, 16, 31, 32, 33}, x(5, 8), x(4, 6))},
				{Name: "keys", Shards: 8, Split: 3, Body: product([]int{0, 1, 15, 16, 17, 31, 32, 33, 48}, upto(x(40, 70), 63, 64, 65, 127, 128, 129, 1000), 3, 2)},
				{Name: "contents", Shards: 8, Split: 3, Body: contents(48)},
				{Name: "sequences", Shards: 8, Split: 3, Body: sequences(x(5, 7))},
				{Name: "long", Shards: 8, Split: 2, Body: long([]int{4096, 8191, 8192, 8193, 8208, 16384, 16385, 16400, 32768, 32769, 32784, 65535, 65536, 65537, 65552, 100000, 131072, 131073, 131088, 262144, 262145, 262160, 1 << 20, 1<<20 + 1, 1<<20 + 16, 3<<20 + 5, 3<<20 + 16, 1 << 24}[:x(27, 28)])},
				{Name: "nil", Body: nils},
				{Name: "concurrent", Thread: true, Bound: 2, Body: concurrent},
			}
		},
	})
}
