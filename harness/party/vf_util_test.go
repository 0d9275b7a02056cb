package party

import (
	"fmt"
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"verif/lib/vlib"
)

func vfSetFr(f *bls.Fr, v *big.Int) {
	var b [32]byte
	be := vlib.Mod(v).Bytes()
	for i := range be {
		b[i] = be[len(be)-1-i]
	}
	if !bls.FrFrom32(f, b) {
		panic("FrFrom32 refused " + v.String())
	}
}

func vfFr(v *big.Int) bls.Fr {
	var f bls.Fr
	vfSetFr(&f, v)
	return f
}

func vfFrs(v []*big.Int) []bls.Fr {
	out := make([]bls.Fr, len(v))
	for i := range v {
		vfSetFr(&out[i], v[i])
	}
	return out
}

func vfVal(f *bls.Fr) *big.Int {
	v, ok := new(big.Int).SetString(bls.FrStr(f), 10)
	if !ok {
		panic("FrStr gave " + bls.FrStr(f))
	}
	return v
}

func vfVals(f []bls.Fr) []*big.Int {
	out := make([]*big.Int, len(f))
	for i := range f {
		out[i] = vfVal(&f[i])
	}
	return out
}

func vfG1(e *big.Int) *bls.G1Point {
	var p bls.G1Point
	f := vfFr(e)
	bls.MulG1(&p, &bls.GenG1, &f)
	return &p
}

func vfG1Bytes(e *big.Int) []byte { return bls.ToCompressedG1(vfG1(e)) }

func vfConstants() error {
	for _, c := range []struct {
		n string
		f *bls.Fr
		v int64
	}{{"ZERO", &bls.ZERO, 0}, {"ONE", &bls.ONE, 1}, {"TWO", &bls.TWO, 2}, {"MODULUS_MINUS1", &bls.MODULUS_MINUS1, -1}} {
		if g := vfVal(c.f); g.Cmp(vlib.B(c.v)) != 0 {
			return fmt.Errorf("shared constant %s is now %s", c.n, g)
		}
	}
	return nil
}
