// Package vargon2 stands in for golang.org/x/crypto/argon2: it records the cost
// parameters and, unless Real is set, computes a cheap collision-free digest of
// all its arguments instead of the memory-hard function.
package vargon2

import (
	"crypto/sha256"
	"encoding/binary"

	"golang.org/x/crypto/argon2"
	"verif.local/mc/mc/vsched"
)

const Version = argon2.Version

type Call struct {
	Kind         string
	Pass, Salt   []byte
	Time, Memory uint32
	Threads      uint8
	KeyLen       uint32
}

var (
	Real  bool
	Quiet bool // calls are not recorded; they are scheduling points
	Calls []Call
)

func run(kind string, password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	if time < 1 {
		panic("argon2: number of rounds too small")
	}
	if threads < 1 {
		panic("argon2: parallelism degree too low")
	}
	if Quiet {
		vsched.Point("argon2")
		defer vsched.Point("argon2 done")
		// seen by the race detector
		password, salt = append([]byte(nil), password...), append([]byte(nil), salt...)
	} else {
		Calls = append(Calls, Call{kind, append([]byte(nil), password...), append([]byte(nil), salt...), time, memory, threads, keyLen})
	}
	if Real {
		if kind == "i" {
			return argon2.Key(password, salt, time, memory, threads, keyLen)
		}
		return argon2.IDKey(password, salt, time, memory, threads, keyLen)
	}
	h := sha256.New()
	h.Write([]byte(kind))
	var b [8]byte
	put := func(v uint64) {
		binary.LittleEndian.PutUint64(b[:], v)
		h.Write(b[:])
	}
	put(uint64(len(password)))
	h.Write(password)
	put(uint64(len(salt)))
	h.Write(salt)
	put(uint64(time))
	put(uint64(memory))
	put(uint64(threads))
	put(uint64(keyLen))
	seed := h.Sum(nil)
	out := make([]byte, 0, keyLen)
	for i := uint64(0); uint32(len(out)) < keyLen; i++ {
		binary.LittleEndian.PutUint64(b[:], i)
		s := sha256.Sum256(append(append([]byte(nil), seed...), b[:]...))
		out = append(out, s[:]...)
	}
	return out[:keyLen]
}

func IDKey(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return run("id", password, salt, time, memory, threads, keyLen)
}

func Key(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return run("i", password, salt, time, memory, threads, keyLen)
}
