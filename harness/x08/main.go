// X08: stored password hashes keep their format, strength and validity.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"verif.local/mc/harness/aes"
	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vargon2"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

// cost is one level's published parameters.
type cost struct {
	level   passhashx.SecurityLevel
	alg     byte
	time    uint32
	memory  uint32 // KiB
	threads uint8
}

var costs = []cost{
	{1, 0, 20, 64 * 1024, 4},
	{2, 1, 32, 4 * 1024, 1},
	{3, 2, 4, 37 * 1024, 1},
	{4, 3, 8, 15 * 1024, 1},
}

// Hashes of the password "correct horse battery staple", computed with the
// reference Argon2id and stored when this check was written.
var golden = []string{
	"0021000000000000004100000000000000031425364758697a8b9cadbecfe0f10222cb54ae53046d9fdb6b4938a380b1fd0a97feaebdafa8e5744b69d875805ef4",
	"012100000000000000410000000000000008192a3b4c5d6e7f90a1b2c3d4e5f60718540344fe0a9f979880a813b9993fb0b771c12f8e6fcc560dc577b3ef43cdec",
	"02210000000000000041000000000000000d1e2f405162738495a6b7c8d9eafb0cf8ab626062c5a89ee0d540584fd8780d82b45beccecb417cdd06294c0a2658e8",
	"032100000000000000410000000000000012233445566778899aabbccddeef00111b6b2625bba3c85f40dd4fbb4acd387c55f3d6ad8767719a8725fd0bd5de6409",
}

func stored() {
	vargon2.Real = true
	defer func() { vargon2.Real = false }()
	vargon2.Calls = nil
	i := vsched.Choose(len(golden))
	b, _ := hex.DecodeString(golden[i])
	pw := []byte("correct horse battery staple")
	drv.NoPanic("Verify", func() {
		if err := passhashx.Verify(pw, b); err != nil {
			vsched.Fail("a stored hash of level %d no longer verifies: %v", costs[i].level, err)
		}
		if err := passhashx.VerifyBase64(pw, base64.RawURLEncoding.EncodeToString(b)); err != nil {
			vsched.Fail("a stored base64 hash of level %d no longer verifies: %v", costs[i].level, err)
		}
		if passhashx.Verify(pw[1:], b) == nil {
			vsched.Fail("a stored hash of level %d verifies another password", costs[i].level)
		}
	})
	// and with this salt the same hash is made again
	vcrand.Reset()
	vcrand.Plan = func(_, n int) ([]byte, int, error) {
		return append(append([]byte(nil), b[17:33]...), make([]byte, 64)...)[:n], -1, nil
	}
	h, err := passhashx.Hash(pw, costs[i].level)
	vcrand.Reset()
	if err != nil || !bytes.Equal(h, b) {
		vsched.Fail("level %d makes (%x, %v) with the salt of the stored hash, want %x", costs[i].level, h, err, b)
	}
}

// oneCall checks the cost parameters of exactly one use of Argon2id.
func oneCall(c cost, pw, salt []byte) {
	if len(vargon2.Calls) != 1 {
		vsched.Fail("level %d calls argon2 %d times", c.level, len(vargon2.Calls))
	}
	k := vargon2.Calls[0]
	if k.Kind != "id" || k.Time != c.time || k.Memory != c.memory || k.Threads != c.threads || k.KeyLen != 32 {
		vsched.Fail("level %d hashes with Argon2%s time %d memory %d KiB threads %d length %d", c.level, k.Kind, k.Time, k.Memory, k.Threads, k.KeyLen)
	}
	if !bytes.Equal(k.Pass, pw) || !bytes.Equal(k.Salt, salt) {
		vsched.Fail("level %d hashes password %x with salt %x, want %x, %x", c.level, k.Pass, k.Salt, pw, salt)
	}
}

func expect(c cost, pw, salt []byte) []byte {
	b := []byte{c.alg}
	b = binary.LittleEndian.AppendUint64(b, 33)
	b = binary.LittleEndian.AppendUint64(b, 65)
	b = append(b, salt...)
	b = append(b, vargon2.IDKey(pw, salt, c.time, c.memory, c.threads, 32)...)
	vargon2.Calls = nil
	return b
}

// layout: levels x password lengths x contents x salts, both forms.
func layout(lens []int, contents, salts int) func() {
	return func() {
		c := costs[vsched.Choose(len(costs))]
		pw := aes.Fill(vsched.Choose(contents), lens[vsched.Choose(len(lens))])
		fill := vsched.Choose(salts)
		salt := aes.Fill(fill, 16)
		want := expect(c, pw, salt)
		vcrand.Reset()
		vcrand.Plan = func(_, n int) ([]byte, int, error) { return aes.Fill(fill, n), -1, nil }
		defer vcrand.Reset()
		drv.NoPanic("hashing", func() {
			h, err := passhashx.Hash(pw, c.level)
			if err != nil || !bytes.Equal(h, want) {
				vsched.Fail("Hash at level %d gives (%x, %v), want %x", c.level, h, err, want)
			}
			oneCall(c, pw, salt)
			vargon2.Calls = nil
			s, err := passhashx.HashBase64(pw, c.level)
			if w := base64.RawURLEncoding.EncodeToString(want); err != nil || s != w {
				vsched.Fail("HashBase64 at level %d gives (%q, %v), want %q", c.level, s, err, w)
			}
			oneCall(c, pw, salt)
			vargon2.Calls = nil
			if err := passhashx.Verify(pw, want); err != nil {
				vsched.Fail("Verify at level %d: %v", c.level, err)
			}
			oneCall(c, pw, salt)
			vargon2.Calls = nil
			if err := passhashx.VerifyBase64(pw, base64.RawURLEncoding.EncodeToString(want)); err != nil {
				vsched.Fail("VerifyBase64 at level %d: %v", c.level, err)
			}
			oneCall(c, pw, salt)
			vargon2.Calls = nil
		})
	}
}

// sequences: levels in any order do not influence each other.
func sequences(depth int) func() {
	return func() {
		vcrand.Reset()
		n := 0
		vcrand.Plan = func(_, k int) ([]byte, int, error) { n++; return aes.Fill(n, k), -1, nil }
		defer vcrand.Reset()
		for d := 0; d < depth; d++ {
			c := costs[vsched.Choose(len(costs))]
			pw := []byte{byte(d), 'p'}
			want := expect(c, pw, aes.Fill(n+1, 16))
			if vsched.Choose(2) == 0 {
				h, err := passhashx.Hash(pw, c.level)
				if err != nil || !bytes.Equal(h, want) {
					vsched.Fail("call %d: Hash at level %d gives (%x, %v), want %x", d, c.level, h, err, want)
				}
				oneCall(c, pw, aes.Fill(n, 16))
			} else {
				if err := passhashx.Verify(pw, want); err != nil {
					vsched.Fail("call %d: Verify at level %d: %v", d, c.level, err)
				}
				oneCall(c, pw, aes.Fill(n+1, 16))
			}
		}
	}
}

func levels() {
	if passhashx.SecurityLevelHigh != 1 || passhashx.SecurityLevelLow != 2 || passhashx.SecurityLevelMobileHigh != 3 || passhashx.SecurityLevelMobileLow != 4 {
		vsched.Fail("the level constants changed")
	}
}

func main() {
	drv.Main(drv.Check{
		ID:          "X08",
		Level:       "model_checking",
		Rule:        "stored hashes of each level, made with the reference Argon2id, verify and are reproduced bit for bit with their salt under the real argon2; for every level, password length and content and salt, the exact bytes of the binary and base64 form, and the exact cost parameters, password and salt of every argon2 call made by hashing and verifying; every sequence of hashing and verifying over the levels",
		Bounds:      "passwords of 0..66 (0..260) bytes and 1000, 3 (5) contents, 3 (5) salts; sequences of 4 (6) calls",
		Assumptions: []string{"argon2 is replaced by a cheap collision-free function, except for the stored hashes"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			lens := []int{1000}
			for i := 0; i <= x(66, 260); i++ {
				lens = append(lens, i)
			}
			return []drv.Unit{
				{Name: "stored", Shards: 4, Split: 1, Body: stored},
				{Name: "layout", Shards: 8, Split: 2, Body: layout(lens, x(3, 5), x(3, 5))},
				{Name: "sequences", Shards: 8, Split: 2, Body: sequences(x(4, 6))},
				{Name: "levels", Body: levels},
			}
		},
	})
}
