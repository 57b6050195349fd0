// Package vmap gives map iteration a fixed, unhelpful (descending) order.
package vmap

import (
	"fmt"
	"sort"

	"verif.local/mc/mc/vsched"
)

// Keys returns m's keys.  Compiled with race instrumentation, so that the
// iteration's reads stay visible to the detector.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if !vsched.Active() || len(ks) < 2 {
		return ks
	}
	ss := make([]string, len(ks))
	idx := make([]int, len(ks))
	for i, k := range ks {
		ss[i] = fmt.Sprintf("%T%v", k, k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ss[idx[a]] > ss[idx[b]] })
	r := make([]K, len(ks))
	for i, j := range idx {
		r[i] = ks[j]
	}
	return r
}

// Zero returns the zero key and element of m's type.
func Zero[M ~map[K]V, K comparable, V any](M) (k K, v V) { return }
