// Package vruntime stands in for parts of package runtime.
package vruntime

import "verif.local/mc/mc/vsched"

func Gosched() { vsched.Gosched() }
