// Package aes holds what the AES checks share: the three modes under test, the
// published layout computed with the standard library, and input generators.
package aes

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// Mode is one way to encrypt.
type Mode struct {
	Name     string
	Enc, Dec func(data, key []byte) ([]byte, error)
	Head     int // bytes of IV or nonce
	Tail     int // bytes of tag
	Block    int
}

var Modes = []Mode{
	{"CBC", aesx.EncryptCBC, aesx.DecryptCBC, 16, 0, 16},
	{"CTR", aesx.EncryptCTR, aesx.DecryptCTR, 16, 0, 1},
	{"GCM", aesx.EncryptGCM, aesx.DecryptGCM, 12, 16, 1},
}

// Reference is the published ciphertext: IV or nonce first, AES-256 under the
// SHA-256 of the key.
func (m *Mode) Reference(head, data, key []byte) []byte {
	k := sha256.Sum256(key)
	b, err := aes.NewCipher(k[:])
	if err != nil {
		panic(err)
	}
	out := append([]byte(nil), head...)
	body := make([]byte, len(data))
	switch m.Name {
	case "CBC":
		cipher.NewCBCEncrypter(b, head).CryptBlocks(body, data)
	case "CTR":
		cipher.NewCTR(b, head).XORKeyStream(body, data)
	case "GCM":
		g, err := cipher.NewGCM(b)
		if err != nil {
			panic(err)
		}
		body = g.Seal(nil, head, data, nil)
	}
	return append(out, body...)
}

// Fill makes n bytes of one of the patterns.
func Fill(pattern, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch pattern {
		case 0: // zeros
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i + 1)
		case 3:
			b[i] = byte(i*i*31 + i*7 + n + 13)
		case 4:
			b[i] = byte(0x80 >> uint(i%8))
		default:
			b[i] = byte(i*(pattern*2+1) + pattern*37)
		}
	}
	return b
}

// Guard wraps b in a larger array; check reports any change of it.
func Guard(b []byte) (arg []byte, check func(what string)) {
	const pad = 40
	whole := make([]byte, len(b)+2*pad)
	for i := range whole {
		whole[i] = byte(i) ^ 0xa5
	}
	copy(whole[pad:], b)
	was := append([]byte(nil), whole...)
	return whole[pad : pad+len(b)], func(what string) {
		if !bytes.Equal(whole, was) {
			vsched.Fail("%s was modified", what)
		}
	}
}

// Call runs f guarded against panics and changes of its inputs.
func Call(name string, f func(data, key []byte) ([]byte, error), data, key []byte) (out []byte, err error) {
	d, dok := Guard(data)
	k, kok := Guard(key)
	drv.NoPanic(fmt.Sprintf("%s of %d bytes under a key of %d", name, len(data), len(key)), func() { out, err = f(d, k) })
	dok(name + ": the data")
	kok(name + ": the key")
	// neither later changes of the inputs reach the output nor the reverse
	was := append([]byte(nil), out...)
	for i := range d {
		d[i] ^= 0xff
	}
	for i := range k {
		k[i] ^= 0xff
	}
	if !bytes.Equal(out, was) {
		vsched.Fail("%s: the output shares memory with the input", name)
	}
	return
}

// Head makes the next draws of the random source give this pattern.
func Head(pattern int) {
	vcrand.Reset()
	vcrand.Plan = func(i, n int) ([]byte, int, error) { return Fill(pattern+i*5, n), -1, nil }
}

// Encrypt encrypts what must be encryptable.
func (m *Mode) Encrypt(data, key []byte) []byte {
	ct, err := Call("Encrypt"+m.Name, m.Enc, data, key)
	if err != nil {
		vsched.Fail("Encrypt%s of %d bytes: %v", m.Name, len(data), err)
	}
	if len(ct) != m.Head+len(data)+m.Tail {
		vsched.Fail("Encrypt%s of %d bytes gives %d", m.Name, len(data), len(ct))
	}
	return ct
}
