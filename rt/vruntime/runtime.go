// Package vruntime stands for parts of package runtime.
package vruntime

import "verif.local/rt/vsched"

// NumCPU is 2.
func NumCPU() int { return 2 }

// GOMAXPROCS is 2.
func GOMAXPROCS(int) int { return 2 }

// Gosched is a scheduling point.
func Gosched() { vsched.Yield("gosched", nil, false, nil) }
