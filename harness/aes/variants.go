package aes

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"strings"
)

// Variants: what a helpful program might take for the key or password b.
func Variants(b []byte) (r [][]byte) {
	cat := func(ps ...[]byte) []byte { return bytes.Join(ps, nil) }
	for v := 0; v < 256; v++ {
		c := []byte{byte(v)}
		r = append(r, cat(b, c), cat(c, b), cat(b, c, c), cat(c, b, c))
		if len(b) > 1 {
			r = append(r, cat(b[:len(b)/2], c, b[len(b)/2:]))
		}
	}
	s := sha256.Sum256(b)
	r = append(r, s[:], s[:16], []byte(hex.EncodeToString(s[:])), []byte(hex.EncodeToString(b)), []byte(strings.ToUpper(hex.EncodeToString(b))),
		bytes.ToUpper(b), bytes.ToLower(b), bytes.TrimSpace(b), bytes.TrimRight(b, "\x00"), bytes.TrimLeft(b, "\x00"), bytes.ToValidUTF8(b, []byte("\ufffd")),
		cat(b, b), cat([]byte("0x"), b), cat([]byte("\r\n"), b), cat(b, []byte("\r\n")), cat([]byte("\ufeff"), b))
	for _, e := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding, base64.RawURLEncoding} {
		r = append(r, []byte(e.EncodeToString(b)))
		if d, err := e.DecodeString(string(b)); err == nil {
			r = append(r, d)
		}
	}
	if d, err := hex.DecodeString(string(b)); err == nil {
		r = append(r, d)
	}
	rev := append([]byte(nil), b...)
	for i := range b {
		rev[i] = b[len(b)-1-i]
	}
	r = append(r, rev)
	for _, n := range []int{8, 16, 24, 32, 48, 64, 128} { // cut or padded to a size of keys
		if n < len(b) {
			r = append(r, b[:n], b[len(b)-n:])
			continue
		}
		pad := make([]byte, n-len(b))
		r = append(r, cat(b, pad), cat(pad, b), cat(b, bytes.Repeat([]byte{' '}, n-len(b))), cat(b, bytes.Repeat([]byte{byte(n - len(b))}, n-len(b))))
		if len(b) > 0 {
			r = append(r, bytes.Repeat(b, n/len(b)+1)[:n])
		}
	}
	return r
}
