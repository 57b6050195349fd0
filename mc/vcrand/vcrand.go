// Package vcrand stands in for crypto/rand: draws are recorded, can be made to
// fail, and can be given chosen contents.
package vcrand

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"

	"verif.local/mc/mc/vsched"
)

// Draw is one request to the random source.
type Draw struct {
	N    int
	Data []byte
	Err  error
}

var (
	// Draws records every request since Reset.
	Draws []Draw
	// Plan, if set, decides the i-th request: contents to return, how many
	// bytes to deliver (negative: all), and an error.
	Plan func(i int, n int) (fill []byte, deliver int, err error)
	// Keep records contents.
	Keep = true
	// Quiet draws are not recorded or planned; they are scheduling points.
	Quiet bool
)

var ErrInjected = errors.New("injected random source failure")

func Reset() { Draws = nil; Plan = nil; Quiet = false }

type source struct{}

// Reader stands in for rand.Reader.
var Reader io.Reader = source{}

func (source) Read(b []byte) (int, error) {
	if Quiet {
		vsched.Point("random source")
		c := make([]byte, len(b))
		n, err := io.ReadFull(rand.Reader, c)
		copy(b, c[:n]) // seen by the race detector
		vsched.Point("random source done")
		return n, err
	}
	i := len(Draws)
	if Plan == nil {
		n, err := io.ReadFull(rand.Reader, b)
		rec(b, err)
		return n, err
	}
	fill, deliver, err := Plan(i, len(b))
	if fill != nil {
		copy(b, fill)
	} else if err == nil {
		io.ReadFull(rand.Reader, b)
	}
	n := len(b)
	if deliver >= 0 && deliver < n {
		n = deliver
	}
	rec(b[:n], err)
	return n, err
}

func rec(b []byte, err error) {
	d := Draw{N: len(b), Err: err}
	if Keep {
		d.Data = append([]byte(nil), b...)
	}
	Draws = append(Draws, d)
}

// Read keeps crypto/rand.Read's contract: it fills b or returns an error.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }
