// Package vcrand stands for crypto/rand: bytes that never repeat within an execution, yet are the same whenever the
// execution is repeated and do not depend on the schedule.
package vcrand

import (
	crand "crypto/rand"
	"encoding/binary"
	"io"

	"verif.local/rt/vsched"
)

type reader struct{}

// Reader stands for rand.Reader.
var Reader io.Reader = reader{}

func (reader) Read(p []byte) (int, error) {
	if !vsched.Active() {
		return crand.Read(p)
	}
	u := vsched.Unique()
	var b [8]byte
	for i := 0; i < len(p); i += 8 {
		binary.LittleEndian.PutUint64(b[:], vsched.Mix(u, uint64(i)))
		copy(p[i:], b[:])
	}
	return len(p), nil
}

// Read stands for rand.Read.
func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }
