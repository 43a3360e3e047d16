//go:build !race

package vsched

// HBAcquire announces a synchronisation edge to the race detector.
func HBAcquire[T any](p *T) {}

// HBRelease announces a synchronisation edge to the race detector.
func HBRelease[T any](p *T) {}

// HBReleaseMerge announces a synchronisation edge to the race detector.
func HBReleaseMerge[T any](p *T) {}

// RaceReads announces a read of b to the race detector.
func RaceReads(b []byte) {}

// RaceWrites announces a write of b to the race detector.
func RaceWrites(b []byte) {}
