// Package vcipher stands in for the constructors of crypto/cipher that make
// modes of operation.  The modes are the real ones; in a scheduled run (see
// vcrand.Quiet) every use is a scheduling point on both sides, and the buffers
// and the state that the assembly reads and writes are touched where the race
// detector can see it.
package vcipher

import (
	"crypto/cipher"

	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// Read lets the race detector see that b is read.
func Read(b []byte) (x byte) {
	for _, v := range b {
		x ^= v
	}
	return
}

// Write lets the race detector see that b is written.
func Write(b []byte) {
	for i := range b {
		b[i] = b[i]
	}
}

func use(what string, f func()) {
	if !vcrand.Quiet {
		f()
		return
	}
	vsched.Point(what)
	f()
	vsched.Point(what + " done")
}

type mode struct {
	cipher.BlockMode
	uses int
}

func (m *mode) CryptBlocks(dst, src []byte) {
	use("block mode", func() {
		m.uses++
		Read(src)
		m.BlockMode.CryptBlocks(dst, src)
		Write(dst[:len(src)])
	})
}

type stream struct {
	cipher.Stream
	uses int
}

func (m *stream) XORKeyStream(dst, src []byte) {
	use("stream", func() {
		m.uses++
		Read(src)
		m.Stream.XORKeyStream(dst, src)
		Write(dst[:len(src)])
	})
}

type aead struct{ cipher.AEAD }

func (m aead) Seal(dst, nonce, plaintext, data []byte) (out []byte) {
	use("seal", func() {
		Read(nonce)
		Read(plaintext)
		Read(data)
		out = m.AEAD.Seal(dst, nonce, plaintext, data)
		Write(out[len(dst):])
	})
	return
}

func (m aead) Open(dst, nonce, ciphertext, data []byte) (out []byte, err error) {
	use("open", func() {
		Read(nonce)
		Read(ciphertext)
		Read(data)
		out, err = m.AEAD.Open(dst, nonce, ciphertext, data)
		if err == nil {
			Write(out[len(dst):])
		}
	})
	return
}

func NewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	Read(iv)
	return &mode{BlockMode: cipher.NewCBCEncrypter(b, iv)}
}

func NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	Read(iv)
	return &mode{BlockMode: cipher.NewCBCDecrypter(b, iv)}
}

func NewCTR(b cipher.Block, iv []byte) cipher.Stream {
	Read(iv)
	return &stream{Stream: cipher.NewCTR(b, iv)}
}

func wrap(a cipher.AEAD, err error) (cipher.AEAD, error) {
	if err != nil {
		return a, err
	}
	return aead{a}, nil
}

func NewGCM(b cipher.Block) (cipher.AEAD, error) { return wrap(cipher.NewGCM(b)) }

func NewGCMWithNonceSize(b cipher.Block, n int) (cipher.AEAD, error) {
	return wrap(cipher.NewGCMWithNonceSize(b, n))
}

func NewGCMWithTagSize(b cipher.Block, n int) (cipher.AEAD, error) {
	return wrap(cipher.NewGCMWithTagSize(b, n))
}
