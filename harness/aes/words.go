package aes

import "bytes"

// Confusable lists distinct byte strings that a helpful program might take for
// one another: by trimming, folding case, normalising, decoding or repairing.
func Confusable(nul bool) (all [][]byte) {
	for _, s := range []string{
		"", " ", "\n", "\r\n", "\t", "  ", "\ufeff", "\u00a0", "\u200b", "=", "\"\"", "''",
		"pw", "pw ", " pw", " pw ", "pw\n", "pw\r\n", "pw\r", "\npw", "pw\t", "\tpw", "pw\v", "pw\f", "pw\u0085", "pw\u00a0", "pw\u2028", "\ufeffpw",
		"PW", "Pw", "pW", "wp", "p w", "p  w", "p\tw", "p\nw", "p\u200bw", "p\u00adw", "p\xffw", "p\xfew", "p\ufffdw", "p\xc3w", "p?w", "\"pw\"", "'pw'", "`pw`",
		"p%77", "%70w", "%70%77", "p+w", "p%20w", "p\\nw", "\\x70w", "7077", "0x7077", "cHc", "cHc=", "cHc\n", "pw=", "pw==", "pw/", "pw\\", "pw;", "pw:", "pw,", "pw$", "pw#", "pw\x7f", "pw\x01", "pw\x80",
		"é", "e\u0301", "\xe9", "É", "e", "ﬁ", "fi", "ß", "ss", "SS", "\u212a", "k", "K", "ı", "i", "I", "İ", "ｐｗ", "ſ", "s", "S",
		"0", "00", "-0", "+0", "0.0", "1", "01", "+1", "1.0", "1e0", "true", "True", "nil", "null", "<nil>",
		"a", "aa", "aaa", "aaaa", "aaaaaaaa", "aaaaaaaaaaaaaaaa",
	} {
		all = append(all, []byte(s))
	}
	if nul {
		for _, s := range []string{"\x00", "\x00\x00", "pw\x00", "\x00pw", "p\x00w", "pw\x00\x00", "a\x00", "pw\x00x", "p\x00"} {
			all = append(all, []byte(s))
		}
	}
	for i, a := range all {
		for _, b := range all[:i] {
			if bytes.Equal(a, b) {
				panic("aes.Confusable: twice the same")
			}
		}
	}
	return all
}
