//go:build !bignum_pure && !bignum_hol256
// +build !bignum_pure,!bignum_hol256

package polycommit

import (
	"fmt"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

func TestVF_C15_BitReversalG1(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C15", Quick: 150, Thorough: 1000}, func(t *rapid.T) vfBitsCase {
		return vfBitsCase{uint8(rapid.IntRange(0, 7).Draw(t, "k")), 0, rapid.Uint64().Draw(t, "seed")}
	}, func(c vfBitsCase, o *vlib.Obs) error {
		n := 1 << c.K
		o.NonTrivial = n > 2
		o.Class("%d points", n)
		pts := make([]bls.G1Point, n)
		orig := make([]bls.G1Point, n)
		var acc, tmp bls.G1Point
		bls.CopyG1(&acc, &bls.ZeroG1)
		for i := range pts {
			bls.CopyG1(&pts[i], &acc)
			bls.CopyG1(&orig[i], &acc)
			bls.AddG1(&tmp, &acc, &bls.GenG1)
			bls.CopyG1(&acc, &tmp)
		}
		reverseBitOrderG1(pts)
		for i := range pts {
			if !bls.EqualG1(&pts[i], &orig[vfRev(uint32(i), c.K)]) {
				return fmt.Errorf("position %d of the reversed list of %d points is not element %d", i, n, vfRev(uint32(i), c.K))
			}
		}
		reverseBitOrderG1(pts)
		for i := range pts {
			if !bls.EqualG1(&pts[i], &orig[i]) {
				return fmt.Errorf("reversing twice moved point %d of %d", i, n)
			}
		}
		return nil
	})
}
