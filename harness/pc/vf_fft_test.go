package vfpc

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polycommit"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

type fftCase struct {
	Scale uint8  `json:"scale"` // of the settings
	N     int    `json:"n"`     // number of values
	Seed  uint64 `json:"seed"`
}

func TestVF_C15_FFT(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C15", Quick: 4000, Thorough: 60000}, func(t *rapid.T) fftCase {
		k := uint8(rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 8)).Draw(t, "scale"))
		n := rapid.IntRange(1, 1<<k).Draw(t, "n")
		if rapid.IntRange(0, 2).Draw(t, "pow2") == 0 {
			n = 1 << rapid.IntRange(0, int(k)).Draw(t, "e")
		}
		return fftCase{k, n, rapid.Uint64().Draw(t, "seed")}
	}, func(c fftCase, o *vlib.Obs) error {
		fs := fftSettings(c.Scale)
		p, k := nextPow2(c.N)
		v := vlib.SeededScalars(c.Seed, c.N)
		padded := append([]*big.Int{}, v...)
		for len(padded) < p {
			padded = append(padded, vlib.B(0))
		}
		want := refFFT(padded, k)
		if p <= 16 { // the reference itself against the definition
			d := domain(k)
			for i := range d {
				if want[i].Cmp(vlib.Poly(padded).Eval(d[i])) != 0 {
					return vlib.Inconclusive("reference transform is wrong")
				}
			}
		}
		o.NonTrivial = c.N > 1
		o.Class("size %d in settings of %d", p, 1<<c.Scale)
		in := frVec(v)
		out, err := fs.FFT(in, false)
		if err != nil {
			return fmt.Errorf("FFT of %d values with %d roots: %v", c.N, fs.MaxWidth, err)
		}
		if err := sameVec("FFT", out, want); err != nil {
			return err
		}
		if err := sameVec("input of FFT", in, v); err != nil {
			return err
		}
		back, err := fs.FFT(out, true)
		if err != nil {
			return err
		}
		if err := sameVec("inverse FFT of FFT", back, padded); err != nil {
			return err
		}
		if err := sameVec("input of inverse FFT", out, want); err != nil {
			return err
		}
		inv, err := fs.FFT(in, true)
		if err != nil {
			return err
		}
		fwd, err := fs.FFT(inv, false)
		if err != nil {
			return err
		}
		if err := sameVec("FFT of inverse FFT", fwd, padded); err != nil {
			return err
		}
		// in place variant
		pin := frVec(padded)
		dst := frVec(vlib.SeededScalars(c.Seed+1, p))
		if err := fs.InplaceFFT(pin, dst, false); err != nil {
			return err
		}
		if err := sameVec("InplaceFFT", dst, want); err != nil {
			return err
		}
		if err := sameVec("values given to InplaceFFT", pin, padded); err != nil {
			return err
		}
		if err := fs.InplaceFFT(dst, pin, true); err != nil {
			return err
		}
		if err := sameVec("inverse InplaceFFT", pin, padded); err != nil {
			return err
		}
		// too large or not a power of two
		if c.N < p {
			if err := fs.InplaceFFT(in, make([]bls.Fr, c.N), c.Seed%2 == 0); err == nil {
				return fmt.Errorf("InplaceFFT accepted %d values", c.N)
			}
		}
		if _, err := fs.FFT(make([]bls.Fr, fs.MaxWidth+1), c.Seed%2 == 0); err == nil {
			return fmt.Errorf("FFT accepted more values than roots")
		}
		return checkSettings(c.Scale)
	})
}

func TestVF_C15_Extension(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C15", Quick: 4000, Thorough: 60000}, func(t *rapid.T) fftCase {
		k := uint8(rapid.IntRange(2, 8).Draw(t, "scale"))
		h := int(k) - 1
		if rapid.IntRange(0, 2).Draw(t, "smaller") == 0 {
			h = rapid.IntRange(1, int(k)-1).Draw(t, "h")
		}
		return fftCase{k, 1 << h, rapid.Uint64().Draw(t, "seed")}
	}, func(c fftCase, o *vlib.Obs) error {
		fs := fftSettings(c.Scale)
		_, k := nextPow2(2 * c.N)
		p := vlib.SeededScalars(c.Seed, c.N) // polynomial with half as many coefficients
		all := refFFT(p, k)
		even, odd := make([]*big.Int, c.N), make([]*big.Int, c.N)
		for i := range even {
			even[i], odd[i] = all[2*i], all[2*i+1]
		}
		o.NonTrivial = vlib.Poly(p).Deg() > 0
		o.Class("%d values in settings of %d", c.N, 1<<c.Scale)
		v := frVec(even)
		fs.DASFFTExtension(v)
		if err := sameVec(fmt.Sprintf("extension of %d values in a domain of %d", c.N, fs.MaxWidth), v, odd); err != nil {
			return err
		}
		// more values than half of the domain, and numbers that are not powers of two, are refused
		for _, n := range []int{int(fs.MaxWidth/2) + 1 + int(c.Seed%7), int(fs.MaxWidth), 3 + 2*int(c.Seed%5), 6} {
			if n <= int(fs.MaxWidth/2) && n&(n-1) == 0 {
				continue
			}
			in := frVec(vlib.SeededScalars(c.Seed+7, n))
			if extended(fs, in) {
				return fmt.Errorf("extension of %d values in a domain of %d is not refused", n, fs.MaxWidth)
			}
		}
		return checkSettings(c.Scale)
	})
}

func extended(fs *polycommit.FFTSettings, v []bls.Fr) (done bool) {
	defer func() { _ = recover() }()
	fs.DASFFTExtension(v)
	return true
}

type shiftCase struct {
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
}

func TestVF_C15_Shift(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C15", Quick: 2000, Thorough: 20000}, func(t *rapid.T) shiftCase {
		return shiftCase{rapid.IntRange(0, 70).Draw(t, "n"), rapid.Uint64().Draw(t, "seed")}
	}, func(c shiftCase, o *vlib.Obs) error {
		o.NonTrivial = c.N > 1
		fs := fftSettings(3)
		v := vlib.SeededScalars(c.Seed, c.N)
		up, down := make([]*big.Int, c.N), make([]*big.Int, c.N)
		five, inv := vlib.B(1), vlib.B(1)
		i5 := vlib.Inv(vlib.B(5))
		for i := range v {
			up[i], down[i] = vlib.Mul(v[i], five), vlib.Mul(v[i], inv)
			five, inv = vlib.Mul(five, vlib.B(5)), vlib.Mul(inv, i5)
		}
		f := frVec(v)
		fs.ShiftPoly(f)
		if err := sameVec("ShiftPoly", f, down); err != nil {
			return err
		}
		fs.UnshiftPoly(f)
		if err := sameVec("UnshiftPoly of ShiftPoly", f, v); err != nil {
			return err
		}
		fs.UnshiftPoly(f)
		if err := sameVec("UnshiftPoly", f, up); err != nil {
			return err
		}
		return checkSettings(3)
	})
}
