// Package vx25519 stands for github.com/oasislabs/ed25519/extra/x25519: the real thing, with results remembered.
package vx25519

import (
	orig "github.com/oasislabs/ed25519/extra/x25519"
	"verif.local/rt/memo"
	"verif.local/rt/vsched"
)

var results memo.Table

// X25519 stands for x25519.X25519.
func X25519(scalar, point []byte) ([]byte, error) {
	if !vsched.Active() || len(scalar) != 32 || len(point) != 32 {
		return orig.X25519(scalar, point)
	}
	var err error
	v := results.Get(func() []byte {
		r, e := orig.X25519(scalar, point)
		if e != nil {
			return nil
		}
		return r
	}, scalar, point)
	if v == nil {
		_, err = orig.X25519(scalar, point)
		return nil, err
	}
	return append([]byte{}, v...), nil
}
