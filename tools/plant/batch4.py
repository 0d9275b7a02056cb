from mk import seed
PC='internal/polycommit/'; B='internal/bls/'
seed('C16-samples-of-part-of-the-domain','C16',[
 (PC+'legacy_recovery.go','	z := fs._zPoly(positions, fs.MaxWidth/uint64(len(vals)))\n','	z := fs._zPoly(positions, fs.MaxWidth/nextPowOf2(uint64(len(fs.ExpandedRootsOfUnity)-1)))\n')],
 'Settings made for a larger domain than that of the samples.',
 'Recovery of samples of a smaller domain than that of the settings fails.',
 '''
package polycommit

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func TestZZDemo(t *testing.T) {
	fs := NewFFTSettings(6)
	poly := make([]bls.Fr, 16)
	for i := 0; i < 8; i++ {
		bls.AsFr(&poly[i], uint64(i*i+5))
	}
	data, err := fs.FFT(poly, false)
	if err != nil {
		t.Fatal(err)
	}
	for parity := 0; parity < 2; parity++ {
		samples := make([]*bls.Fr, 16)
		for i := range samples {
			if i%3 != parity {
				samples[i] = &data[i]
			}
		}
		got, err := fs.ErasureCodeRecover(samples)
		if err != nil {
			t.Fatal(err)
		}
		for i := range data {
			if !bls.EqualFr(&got[i], &data[i]) {
				t.Fatal("wrong value at", i)
			}
		}
	}
}
''',pkg='internal/polycommit')

seed('C17-third-word-of-the-range-check','C17',[
 (B+'bignum_all.go','''	} else if b < 0x3339d80809a1d805 {
		return true
	}
''','''	}
''')],
 'An encoding below the group order whose highest word equals that of the order, whose second is lower and whose third or lowest is higher.',
 'Such encodings of valid scalars, the encodings that FrTo32 makes among them, are refused.',
 '''
package bls

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m, _ := new(big.Int).SetString(ModulusStr, 10)
	for sh := uint(0); sh < 250; sh++ {
		for _, d := range []int64{1, 3} {
			v := new(big.Int).Sub(m, new(big.Int).Lsh(big.NewInt(d), sh))
			if v.Sign() < 0 {
				continue
			}
			var a, b Fr
			SetFr(&a, v.String())
			if !FrFrom32(&b, FrTo32(&a)) || !EqualFr(&a, &b) {
				t.Fatal("the encoding of a scalar is refused or changes it", v)
			}
		}
	}
}
''',pkg='internal/bls')
