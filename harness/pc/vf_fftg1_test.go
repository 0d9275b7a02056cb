//go:build !bignum_pure && !bignum_hol256
// +build !bignum_pure,!bignum_hol256

package vfpc

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

func g1Vec(v []*big.Int) []bls.G1Point {
	out := make([]bls.G1Point, len(v))
	for i := range v {
		if v[i].Sign() != 0 || i%2 == 0 { // both ways to write the point at infinity
			out[i] = *g1(v[i])
		} else {
			bls.CopyG1(&out[i], &bls.ZeroG1)
		}
	}
	return out
}

func sameG1Vec(what string, p []bls.G1Point, v []*big.Int) error {
	if len(p) != len(v) {
		return fmt.Errorf("%s has length %d, want %d", what, len(p), len(v))
	}
	for i := range p {
		if err := sameG1(fmt.Sprintf("%s[%d]", what, i), &p[i], v[i]); err != nil {
			return err
		}
	}
	return nil
}

// The transform of points is the transform of their exponents.
func TestVF_C15_GroupFFT(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C15", Quick: 160, Thorough: 2500}, func(t *rapid.T) fftCase {
		k := uint8(rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(2, 6)).Draw(t, "scale"))
		e := rapid.IntRange(0, int(k)).Draw(t, "e")
		return fftCase{k, 1 << e, rapid.Uint64().Draw(t, "seed")}
	}, func(c fftCase, o *vlib.Obs) error {
		fs := fftSettings(c.Scale)
		n, k := nextPow2(c.N)
		v := vlib.SeededScalars(c.Seed, n)
		r := vlib.NewRng(c.Seed)
		if r.Intn(3) == 0 {
			for i := range v {
				if r.Intn(3) == 0 {
					v[i] = vlib.B(0)
				}
			}
			o.Class("points at infinity")
		}
		want := refFFT(v, k)
		o.NonTrivial = n >= 4
		o.Class("group transform of %d points in settings of %d", n, 1<<c.Scale)
		in := g1Vec(v)
		out, err := fs.FFTG1(in, false)
		if err != nil {
			return fmt.Errorf("FFTG1 of %d points: %v", n, err)
		}
		if err := sameG1Vec("FFTG1", out, want); err != nil {
			return err
		}
		if err := sameG1Vec("input of FFTG1", in, v); err != nil {
			return err
		}
		back, err := fs.FFTG1(out, true)
		if err != nil {
			return err
		}
		if err := sameG1Vec("inverse FFTG1 of FFTG1", back, v); err != nil {
			return err
		}
		if err := sameG1Vec("input of inverse FFTG1", out, want); err != nil {
			return err
		}
		bad := 1 + int(c.Seed%uint64(fs.MaxWidth))
		if bad&(bad-1) != 0 {
			if _, err := fs.FFTG1(make([]bls.G1Point, bad), c.Seed%2 == 0); err == nil {
				return fmt.Errorf("FFTG1 accepted %d points", bad)
			}
		}
		if _, err := fs.FFTG1(make([]bls.G1Point, 2*fs.MaxWidth), c.Seed%2 == 0); err == nil {
			return fmt.Errorf("FFTG1 accepted more points than roots")
		}
		return checkSettings(c.Scale)
	})
}
