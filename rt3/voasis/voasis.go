// Package voasis stands for github.com/oasislabs/ed25519: the real thing, with generated keys that are reproducible, and
// results remembered.
package voasis

import (
	"io"

	orig "github.com/oasislabs/ed25519"
	"verif.local/rt/memo"
	"verif.local/rt/vcrand"
	"verif.local/rt/vsched"
)

var keys, signs, verifies memo.Table

// GenerateKey stands for ed25519.GenerateKey.
func GenerateKey(rand io.Reader) (orig.PublicKey, orig.PrivateKey, error) {
	if rand == nil {
		rand = vcrand.Reader
	}
	if !vsched.Active() {
		return orig.GenerateKey(rand)
	}
	seed := make([]byte, orig.SeedSize)
	if _, err := io.ReadFull(rand, seed); err != nil {
		return nil, nil, err
	}
	priv := NewKeyFromSeed(seed)
	pub := make([]byte, orig.PublicKeySize)
	copy(pub, priv[32:])
	return pub, priv, nil
}

// NewKeyFromSeed stands for ed25519.NewKeyFromSeed.
func NewKeyFromSeed(seed []byte) orig.PrivateKey {
	if !vsched.Active() {
		return orig.NewKeyFromSeed(seed)
	}
	v := keys.Get(func() []byte { return orig.NewKeyFromSeed(seed) }, seed)
	return append(orig.PrivateKey{}, v...)
}

// Sign stands for ed25519.Sign.
func Sign(key orig.PrivateKey, message []byte) []byte {
	if !vsched.Active() || len(key) != orig.PrivateKeySize {
		return orig.Sign(key, message)
	}
	v := signs.Get(func() []byte { return orig.Sign(key, message) }, key, message)
	return append([]byte{}, v...)
}

var yes, no = []byte{1}, []byte{}

// Verify stands for ed25519.Verify.
func Verify(key orig.PublicKey, message, sig []byte) bool {
	if !vsched.Active() || len(key) != orig.PublicKeySize || len(sig) != orig.SignatureSize {
		return orig.Verify(key, message, sig)
	}
	return len(verifies.Get(func() []byte {
		if orig.Verify(key, message, sig) {
			return yes
		}
		return no
	}, key, sig, message)) == 1
}
