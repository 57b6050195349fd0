// Package vbcrypt stands in for golang.org/x/crypto/bcrypt.  It computes the
// real hash; in a scheduled run (see vcrand.Quiet) it does so at the smallest
// cost, every use is a scheduling point on both sides, and the buffers are
// touched where the race detector can see it.
package vbcrypt

import (
	"golang.org/x/crypto/bcrypt"
	"verif.local/mc/mc/vcipher"
	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vsched"
)

func GenerateFromPassword(password []byte, cost int) ([]byte, error) {
	if !vcrand.Quiet {
		return bcrypt.GenerateFromPassword(password, cost)
	}
	vsched.Point("bcrypt")
	vcipher.Read(password)
	h, err := bcrypt.GenerateFromPassword(password, bcrypt.MinCost)
	vcipher.Write(h)
	vsched.Point("bcrypt done")
	return h, err
}

func CompareHashAndPassword(hashedPassword, password []byte) error {
	if !vcrand.Quiet {
		return bcrypt.CompareHashAndPassword(hashedPassword, password)
	}
	vsched.Point("bcrypt")
	vcipher.Read(hashedPassword)
	vcipher.Read(password)
	err := bcrypt.CompareHashAndPassword(hashedPassword, password)
	vsched.Point("bcrypt done")
	return err
}
