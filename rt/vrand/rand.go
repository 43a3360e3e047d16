// Package vrand stands for the top level functions of math/rand and math/rand/v2: a generator per process that is
// seeded like that of an unseeded program, that is, always the same.
package vrand

import (
	"fmt"
	"math/rand"

	"verif.local/rt/vsched"
)

type state struct {
	o vsched.Obj
	r *rand.Rand
}

var fallback = rand.New(rand.NewSource(1))

func get() *rand.Rand {
	if !vsched.Active() {
		return fallback
	}
	s := vsched.Value(fmt.Sprintf("math/rand %d", vsched.Group()), func() interface{} {
		return &state{r: rand.New(rand.NewSource(1))}
	}).(*state)
	vsched.Touch(&s.o, true)
	return s.r
}

// Read stands for rand.Read.
func Read(p []byte) (int, error) { return get().Read(p) }

// Seed stands for rand.Seed.
func Seed(seed int64) { get().Seed(seed) }

// Int stands for rand.Int.
func Int() int { return get().Int() }

// Intn stands for rand.Intn.
func Intn(n int) int { return get().Intn(n) }

// IntN stands for rand.IntN.
func IntN(n int) int { return get().Intn(n) }

// Int31 stands for rand.Int31.
func Int31() int32 { return get().Int31() }

// Int31n stands for rand.Int31n.
func Int31n(n int32) int32 { return get().Int31n(n) }

// Int63 stands for rand.Int63.
func Int63() int64 { return get().Int63() }

// Int63n stands for rand.Int63n.
func Int63n(n int64) int64 { return get().Int63n(n) }

// Int64 stands for rand.Int64.
func Int64() int64 { return get().Int63() }

// Uint32 stands for rand.Uint32.
func Uint32() uint32 { return get().Uint32() }

// Uint64 stands for rand.Uint64.
func Uint64() uint64 { return get().Uint64() }

// Float64 stands for rand.Float64.
func Float64() float64 { return get().Float64() }

// Float32 stands for rand.Float32.
func Float32() float32 { return get().Float32() }

// Perm stands for rand.Perm.
func Perm(n int) []int { return get().Perm(n) }

// Shuffle stands for rand.Shuffle.
func Shuffle(n int, swap func(i, j int)) { get().Shuffle(n, swap) }
