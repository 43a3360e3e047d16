//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// HBAcquire announces a synchronisation edge to the race detector.
func HBAcquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// HBRelease announces a synchronisation edge to the race detector.
func HBRelease[T any](p *T) { runtime.RaceRelease(unsafe.Pointer(p)) }

// HBReleaseMerge announces a synchronisation edge to the race detector.
func HBReleaseMerge[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceReads announces a read of b to the race detector.
func RaceReads(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceWrites announces a write of b to the race detector.
func RaceWrites(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
