//go:build bignum_hbls
// +build bignum_hbls

package vfbls

import (
	"math/big"

	kbls "github.com/kilic/bls12-381"
)

// The reference for the herumi backend is the kilic library itself.
func refG1(e *big.Int) []byte {
	g := kbls.NewG1()
	p := g.New()
	g.MulScalarBig(p, g.One(), e)
	return g.ToCompressed(p)
}

func refG2(e *big.Int) []byte {
	g := kbls.NewG2()
	p := g.New()
	g.MulScalarBig(p, g.One(), e)
	return g.ToCompressed(p)
}

func refG1Y(e *big.Int) *big.Int {
	g := kbls.NewG1()
	p := g.New()
	g.MulScalarBig(p, g.One(), e)
	return new(big.Int).SetBytes(g.ToUncompressed(p)[48:])
}
