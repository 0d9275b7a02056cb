package vfpc

import (
	"fmt"
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polycommit"
	"verif/lib/vlib"
)

func setFr(f *bls.Fr, v *big.Int) {
	var b [32]byte
	be := vlib.Mod(v).Bytes()
	for i := range be {
		b[i] = be[len(be)-1-i]
	}
	if !bls.FrFrom32(f, b) {
		panic("FrFrom32 refused " + v.String())
	}
}

func fr(v *big.Int) bls.Fr {
	var f bls.Fr
	setFr(&f, v)
	return f
}

func val(f *bls.Fr) *big.Int {
	v, ok := new(big.Int).SetString(bls.FrStr(f), 10)
	if !ok {
		panic("FrStr gave " + bls.FrStr(f))
	}
	return v
}

func frVec(v []*big.Int) []bls.Fr {
	out := make([]bls.Fr, len(v))
	for i := range v {
		setFr(&out[i], v[i])
	}
	return out
}

func sameVec(what string, f []bls.Fr, v []*big.Int) error {
	if len(f) != len(v) {
		return fmt.Errorf("%s has length %d, want %d", what, len(f), len(v))
	}
	for i := range f {
		if g := val(&f[i]); g.Cmp(v[i]) != 0 {
			return fmt.Errorf("%s[%d] is %s, want %s", what, i, g, v[i])
		}
	}
	return nil
}

// root is the primitive 2^k-th root of unity of the library: 7^((r-1)/2^k).
func root(k uint8) *big.Int {
	e := new(big.Int).Rsh(new(big.Int).Sub(vlib.R, big.NewInt(1)), uint(k))
	return new(big.Int).Exp(big.NewInt(7), e, vlib.R)
}

func domain(k uint8) []*big.Int {
	w := root(k)
	d := make([]*big.Int, 1<<k)
	acc := vlib.B(1)
	for i := range d {
		d[i] = acc
		acc = vlib.Mul(acc, w)
	}
	return d
}

// refFFT evaluates the polynomial on the domain (recursive, on integers).
func refFFT(c []*big.Int, k uint8) []*big.Int {
	n := 1 << k
	if n == 1 {
		if len(c) == 0 {
			return []*big.Int{vlib.B(0)}
		}
		return []*big.Int{c[0]}
	}
	var ev, od []*big.Int
	for i := range c {
		if i%2 == 0 {
			ev = append(ev, c[i])
		} else {
			od = append(od, c[i])
		}
	}
	e, o := refFFT(ev, k-1), refFFT(od, k-1)
	d := domain(k)
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = vlib.Add(e[i%(n/2)], vlib.Mul(d[i], o[i%(n/2)]))
	}
	return out
}

var settings = map[uint8]*polycommit.FFTSettings{}

func fftSettings(k uint8) *polycommit.FFTSettings {
	if settings[k] == nil {
		settings[k] = polycommit.NewFFTSettings(k)
	}
	return settings[k]
}

// checkSettings verifies that the tables of the settings, which every call
// shares, still are what they were defined as, and so are the constants.
func checkSettings(k uint8) error {
	fs := fftSettings(k)
	d := domain(k)
	if fs.MaxWidth != uint64(len(d)) {
		return fmt.Errorf("MaxWidth of scale %d is %d", k, fs.MaxWidth)
	}
	if g := val(fs.RootOfUnity); g.Cmp(root(k)) != 0 {
		return fmt.Errorf("root of unity of scale %d is %s", k, g)
	}
	if len(fs.ExpandedRootsOfUnity) != len(d)+1 || len(fs.ReverseRootsOfUnity) != len(d)+1 {
		return fmt.Errorf("tables of scale %d have lengths %d, %d", k, len(fs.ExpandedRootsOfUnity), len(fs.ReverseRootsOfUnity))
	}
	for i := 0; i <= len(d); i++ {
		w := d[i%len(d)]
		if g := val(&fs.ExpandedRootsOfUnity[i]); g.Cmp(w) != 0 {
			return fmt.Errorf("ExpandedRootsOfUnity[%d] of scale %d is %s, want %s", i, k, g, w)
		}
		if g := val(&fs.ReverseRootsOfUnity[len(d)-i]); g.Cmp(w) != 0 {
			return fmt.Errorf("ReverseRootsOfUnity[%d] of scale %d is %s, want %s", len(d)-i, k, g, w)
		}
	}
	return checkConstants()
}

func checkConstants() error {
	for _, c := range []struct {
		n string
		f *bls.Fr
		v int64
	}{{"ZERO", &bls.ZERO, 0}, {"ONE", &bls.ONE, 1}, {"TWO", &bls.TWO, 2}, {"MODULUS_MINUS1", &bls.MODULUS_MINUS1, -1}} {
		if g := val(c.f); g.Cmp(vlib.B(c.v)) != 0 {
			return fmt.Errorf("shared constant %s is now %s", c.n, g)
		}
	}
	for k := range bls.Scale2RootOfUnity {
		if g := val(&bls.Scale2RootOfUnity[k]); g.Cmp(root(uint8(k))) != 0 {
			return fmt.Errorf("Scale2RootOfUnity[%d] is now %s", k, g)
		}
	}
	return nil
}

func nextPow2(n int) (int, uint8) {
	k := uint8(0)
	for 1<<k < n {
		k++
	}
	return 1 << k, k
}
