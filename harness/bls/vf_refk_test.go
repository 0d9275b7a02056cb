//go:build !bignum_pure && !bignum_hol256 && !bignum_hbls
// +build !bignum_pure,!bignum_hol256,!bignum_hbls

package vfbls

import (
	"math/big"
	"strings"

	hbls "github.com/herumi/bls-eth-go-binary/bls"
)

// The reference for the kilic backend is the herumi library itself.
var refGen1 hbls.G1
var refGen2 hbls.G2

func init() {
	if err := hbls.Init(hbls.BLS12_381); err != nil {
		panic(err)
	}
	if err := refGen1.SetString("1 3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507 1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569", 10); err != nil {
		panic(err)
	}
	if err := refGen2.SetString("1 352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160 3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758 1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905 927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582", 10); err != nil {
		panic(err)
	}
}

func refFr(e *big.Int) *hbls.Fr {
	var f hbls.Fr
	if err := f.SetString(e.String(), 10); err != nil {
		panic(err)
	}
	return &f
}

func refG1(e *big.Int) []byte {
	var p hbls.G1
	hbls.G1Mul(&p, &refGen1, refFr(e))
	return p.Serialize()
}

func refG2(e *big.Int) []byte {
	var p hbls.G2
	hbls.G2Mul(&p, &refGen2, refFr(e))
	return p.Serialize()
}

func refG1Y(e *big.Int) *big.Int {
	var p hbls.G1
	hbls.G1Mul(&p, &refGen1, refFr(e))
	w := strings.Fields(p.GetString(10))
	y, _ := new(big.Int).SetString(w[2], 10)
	return y
}
