// X04: encryption and hashing use fresh, full-length randomness or fail.
package main

import (
	"bytes"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// op is one operation that needs randomness; fresh cuts the random part out of
// its result.
type op struct {
	name  string
	run   func(variant int) ([]byte, error)
	need  int
	fresh func(out []byte) []byte
}

var ops []op

func init() {
	for i := range aes.Modes {
		m := &aes.Modes[i]
		ops = append(ops, op{"Encrypt" + m.Name, func(v int) ([]byte, error) {
			return m.Enc(aes.Fill(v, 16*v), aes.Fill(v, 5))
		}, m.Head, func(out []byte) []byte { return out[:m.Head] }})
	}
	for _, l := range []passhashx.SecurityLevel{1, 2, 3, 4} {
		l := l
		ops = append(ops, op{fmt.Sprintf("Hash level %d", l), func(v int) ([]byte, error) {
			return passhashx.Hash(aes.Fill(v, v*3), l)
		}, 16, func(out []byte) []byte { return out[17:33] }})
		ops = append(ops, op{fmt.Sprintf("HashBase64 level %d", l), func(v int) ([]byte, error) {
			s, err := passhashx.HashBase64(aes.Fill(v, v*3), l)
			return []byte(s), err
		}, 16, func(out []byte) []byte { return out[20:44] }}) // characters of the salt bytes 15..32
	}
}

func (o *op) do(v int) (out []byte, err error) {
	drv.NoPanic(o.name, func() { out, err = o.run(v) })
	return
}

func drawn() (n int) {
	for _, d := range vcrand.Draws {
		if d.Err == nil {
			n += d.N
		}
	}
	return
}

// good runs an operation that must succeed and returns its random part.
func (o *op) good(v int) []byte {
	was := drawn()
	out, err := o.do(v)
	if err != nil {
		vsched.Fail("%s fails: %v", o.name, err)
	}
	if got := drawn() - was; got < o.need {
		vsched.Fail("%s drew %d random bytes, want %d", o.name, got, o.need)
	}
	return append([]byte(nil), o.fresh(out)...)
}

// bits: every bit of every draw reaches the result.
func bits() {
	o := &ops[vsched.Choose(len(ops))]
	pattern := vsched.Choose(3)
	base := func(flip int) []byte {
		vcrand.Reset()
		at := 0
		vcrand.Plan = func(i, n int) ([]byte, int, error) {
			b := aes.Fill(pattern, n)
			for j := range b {
				if flip >= 0 && flip/8 == at {
					b[j] ^= 1 << uint(flip%8)
				}
				at++
			}
			return b, -1, nil
		}
		return o.good(1)
	}
	want := base(-1)
	n := drawn()
	seen := map[string]int{string(want): -1}
	for f := 0; f < n*8; f++ {
		got := base(f)
		if g, ok := seen[string(got)]; ok {
			vsched.Fail("%s: drawing another bit %d gives the same IV or salt as drawing another bit %d", o.name, f, g)
		}
		seen[string(got)] = f
	}
	vcrand.Reset()
}

// faults: the random source fails at one draw (or all), possibly after having
// delivered a part.
func faults() {
	o := &ops[vsched.Choose(len(ops))]
	vcrand.Reset()
	o.good(1)
	draws := len(vcrand.Draws)
	v := vsched.Choose(3)
	bad := vsched.Choose(draws)
	deliver := vsched.Choose(o.need + 1) // a whole draw with an error is a failure, too
	vcrand.Reset()
	vcrand.Plan = func(i, n int) ([]byte, int, error) {
		if i >= bad {
			return aes.Fill(2, n), min(deliver, n-1), vcrand.ErrInjected
		}
		return nil, -1, nil
	}
	out, err := o.do(v)
	if err == nil {
		vsched.Fail("%s succeeds although the random source failed after %d bytes of draw %d", o.name, deliver, bad)
	}
	if len(out) != 0 {
		vsched.Fail("%s gives %x although the random source failed", o.name, out)
	}
	// and afterwards it works again
	vcrand.Reset()
	o.good(v)
	vcrand.Reset()
}

// sequences of calls, some with a failing source: no two share an IV or salt
// drawn from different randomness.
func sequences(depth int, some []int) func() {
	return func() {
		vcrand.Reset()
		draw, fail := 0, false
		vcrand.Plan = func(i, n int) ([]byte, int, error) {
			if fail {
				return aes.Fill(9, n), n / 2, vcrand.ErrInjected
			}
			draw++
			b := bytes.Repeat([]byte{byte(draw)}, n)
			return b, -1, nil
		}
		seen := map[string]string{}
		for d := 0; d < depth; d++ {
			o := &ops[some[vsched.Choose(len(some))]]
			v := 1 + vsched.Choose(2)
			fail = vsched.Choose(2) == 1
			if fail {
				if out, err := o.do(v); err == nil || len(out) != 0 {
					vsched.Fail("%s gives (%x, %v) although the random source failed", o.name, out, err)
				}
				continue
			}
			f := string(o.good(v))
			if p, dup := seen[f]; dup {
				vsched.Fail("call %d, %s, reuses the IV or salt of %s", d, o.name, p)
			}
			seen[f] = fmt.Sprintf("call %d, %s", d, o.name)
		}
		vcrand.Reset()
	}
}

// real: the real source; a long run of calls never repeats.
func real() {
	o := &ops[vsched.Choose(len(ops))]
	vcrand.Reset()
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		f := string(o.good(1))
		if seen[f] {
			vsched.Fail("%s repeats an IV or salt", o.name)
		}
		seen[f] = true
	}
	vcrand.Reset()
}

func main() {
	drv.Main(drv.Check{
		ID:          "X04",
		Level:       "model_checking",
		Rule:        "for every encryption mode and every password level, binary and base64: changing any one bit of what the random source delivers gives a different IV, nonce or salt; the source failing at each draw after every number of delivered bytes gives an error and no output, and the next call works; in every sequence of calls up to a depth, some with a failing source, no two calls with different draws share an IV, nonce or salt",
		Bounds:      "three contents of the random draw; sequences of 4 (5) calls over 5 operations, two inputs each",
		Assumptions: []string{"argon2 is replaced by a cheap collision-free function", "the system's random source itself is trusted"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			return []drv.Unit{
				{Name: "bits", Body: bits},
				{Name: "faults", Body: faults},
				{Name: "sequences", Shards: 8, Split: 3, Body: sequences(x(4, 5), []int{0, 1, 2, 3, 4})},
				{Name: "sequences-hashes", Shards: 8, Split: 3, Body: sequences(x(4, 5), []int{3, 5, 7, 9, 10})},
				{Name: "real", Body: real},
			}
		},
	})
}
