//go:build !bignum_pure && !bignum_hol256
// +build !bignum_pure,!bignum_hol256

package vfpc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polycommit"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// g1 is G^e, g1b its encoding.
func g1(e *big.Int) *bls.G1Point {
	var p bls.G1Point
	f := fr(e)
	bls.MulG1(&p, &bls.GenG1, &f)
	return &p
}

func sameG1(what string, p *bls.G1Point, e *big.Int) error {
	w := g1(e)
	if !bytes.Equal(bls.ToCompressedG1(p), bls.ToCompressedG1(w)) {
		return fmt.Errorf("%s is not G^%s", what, e)
	}
	if !bls.EqualG1(p, w) {
		return fmt.Errorf("%s differs from G^%s for EqualG1 although its encoding is the same", what, e)
	}
	return nil
}

type setup struct {
	tau *big.Int
	s1  []bls.G1Point
	s2  []bls.G2Point
}

var setups = map[string]*setup{}

// secrets of the setups; the first is the one the committees use.
var taus = []string{
	"46015081477078601964787943834255776126696019968430095991502055467779756761969",
	"1927409816240961209460912649124",
	"7",
	"1",
	"0",
	"52435875175126190479447740508185965837690552500527637822603658699938581184512",
	"33881123903437598237489234234923847239847239847238947239842398472398472398470",
}

func getSetup(i int, n int) *setup {
	key := fmt.Sprint(i, " ", n)
	if setups[key] == nil {
		s1, s2 := polycommit.GenerateTestingSetup(taus[i], uint64(n))
		setups[key] = &setup{vlib.Mod(vlib.Big(taus[i])), s1, s2}
	}
	return setups[key]
}

func checkSetup(i, n int, k *polycommit.KZGSettings) error {
	s := getSetup(i, n)
	if len(s.s1) != n || len(s.s2) != n {
		return fmt.Errorf("setup of size %d has %d and %d values", n, len(s.s1), len(s.s2))
	}
	acc := vlib.B(1)
	for j := 0; j < n; j++ {
		if err := sameG1(fmt.Sprintf("SecretG1[%d] of setup %s", j, taus[i]), &s.s1[j], acc); err != nil {
			return err
		}
		var w bls.G2Point
		f := fr(acc)
		bls.MulG2(&w, &bls.GenG2, &f)
		if !bytes.Equal(bls.ToCompressedG2(&s.s2[j]), bls.ToCompressedG2(&w)) {
			return fmt.Errorf("SecretG2[%d] of setup %s is not G^(secret^%d)", j, taus[i], j)
		}
		acc = vlib.Mul(acc, s.tau)
	}
	if k != nil && (len(k.SecretG1) != n || len(k.SecretG2) != n) {
		return fmt.Errorf("settings changed the length of the setup")
	}
	return checkConstants()
}

func TestVF_C13_Setup(t *testing.T) {
	type tc struct {
		Secret string `json:"secret"`
		N      int    `json:"n"`
	}
	vlib.Check(t, vlib.Opt{ID: "C13", Quick: 120, Thorough: 800}, func(t *rapid.T) tc {
		return tc{vlib.ScalarGen().Draw(t, "s"), rapid.IntRange(1, 40).Draw(t, "n")}
	}, func(c tc, o *vlib.Obs) error {
		o.NonTrivial = c.N >= 3 && vlib.Big(c.Secret).BitLen() > 1
		s1, s2 := polycommit.GenerateTestingSetup(c.Secret, uint64(c.N))
		if len(s1) != c.N || len(s2) != c.N {
			return fmt.Errorf("setup of size %d has %d and %d values", c.N, len(s1), len(s2))
		}
		acc := vlib.B(1)
		for j := 0; j < c.N; j++ {
			if err := sameG1(fmt.Sprintf("SecretG1[%d]", j), &s1[j], acc); err != nil {
				return err
			}
			var w bls.G2Point
			f := fr(acc)
			bls.MulG2(&w, &bls.GenG2, &f)
			if !bytes.Equal(bls.ToCompressedG2(&s2[j]), bls.ToCompressedG2(&w)) {
				return fmt.Errorf("SecretG2[%d] is not G^(secret^%d)", j, j)
			}
			acc = vlib.Mul(acc, vlib.Big(c.Secret))
		}
		return checkConstants()
	})
}

type comCase struct {
	Tau   int    `json:"tau"`
	N     int    `json:"n"`   // setup size
	Len   int    `json:"len"` // coefficients
	Seed  uint64 `json:"seed"`
	Zeros int    `json:"zeros"` // top coefficients that are zero
	X     string `json:"x"`
	A, B  string
	Forge int    `json:"forge"`
	D     string `json:"d"`
}

var forges = []string{"none", "value", "point", "commitment", "proof", "value and commitment together", "commitment and proof infinity", "proof for another point", "point is the secret", "value and proof together", "negated", "swapped"}

func drawCom(t *rapid.T) comCase {
	n := rapid.IntRange(2, 33).Draw(t, "n")
	l := rapid.IntRange(1, n).Draw(t, "len")
	if rapid.IntRange(0, 3).Draw(t, "full") == 0 {
		l = n
	}
	z := 0
	if rapid.IntRange(0, 4).Draw(t, "z") == 0 {
		z = rapid.IntRange(0, l).Draw(t, "zeros")
	}
	tau := rapid.IntRange(0, len(taus)-1).Draw(t, "tau")
	if rapid.IntRange(0, 39).Draw(t, "large") == 0 { // one size, so that the setup is made once
		tau, n, l = 0, 150, rapid.IntRange(34, 150).Draw(t, "largelen")
	}
	return comCase{tau, n, l, rapid.Uint64().Draw(t, "seed"), z,
		vlib.ScalarGen().Draw(t, "x"), vlib.ScalarGen().Draw(t, "a"), vlib.ScalarGen().Draw(t, "b"),
		rapid.IntRange(0, len(forges)-1).Draw(t, "forge"), vlib.ScalarGen().Draw(t, "d")}
}

func (c comCase) poly(seed uint64) vlib.Poly {
	p := vlib.Poly(vlib.SeededScalars(seed, c.Len))
	for i := 0; i < c.Zeros; i++ {
		p[c.Len-1-i] = vlib.B(0)
	}
	return p
}

func (c comCase) settings() *polycommit.KZGSettings {
	s := getSetup(c.Tau, c.N)
	return polycommit.NewKZGSettings(fftSettings(5), s.s1, s.s2)
}

func TestVF_C13_Commit(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C13", Quick: 2400, Thorough: 12000}, drawCom, func(c comCase, o *vlib.Obs) error {
		ks := c.settings()
		tau := getSetup(c.Tau, c.N).tau
		p, q := c.poly(c.Seed), c.poly(c.Seed+1)
		o.NonTrivial = p.Deg() >= 2 && tau.BitLen() > 1
		o.Class("degree %d", p.Deg()/8*8)
		fp, fq := frVec(p), frVec(q)
		if err := sameG1("CommitToPoly", ks.CommitToPoly(fp), p.Eval(tau)); err != nil {
			return err
		}
		if err := sameG1("CommitToPolyUnoptimized", ks.CommitToPolyUnoptimized(fp), p.Eval(tau)); err != nil {
			return err
		}
		// linearity, on the points the library returns
		a, b := vlib.Big(c.A), vlib.Big(c.B)
		fa, fb := fr(a), fr(b)
		x := vlib.Big(c.X)
		fx := fr(x)
		mix := vlib.AddPoly(p.Scale(a), q.Scale(b))
		comb := func(u, v *bls.G1Point) *bls.G1Point {
			var au, bv, r bls.G1Point
			bls.MulG1(&au, u, &fa)
			bls.MulG1(&bv, v, &fb)
			bls.AddG1(&r, &au, &bv)
			return &r
		}
		if err := sameG1("the combination of commitments", comb(ks.CommitToPoly(fp), ks.CommitToPoly(fq)), mix.Eval(tau)); err != nil {
			return err
		}
		if !bls.EqualG1(ks.CommitToPoly(frVec(mix)), comb(ks.CommitToPolyUnoptimized(fp), ks.CommitToPolyUnoptimized(fq))) {
			return fmt.Errorf("commitment of a combination is not the combination of the commitments")
		}
		quo := func(f vlib.Poly) *big.Int {
			d, _ := vlib.DivMod(f, vlib.Poly{vlib.Sub(vlib.B(0), x), vlib.B(1)})
			return d.Eval(tau)
		}
		if err := sameG1("ComputeProofSingle", ks.ComputeProofSingle(fp, fx), quo(p)); err != nil {
			return err
		}
		if err := sameG1("the combination of proofs", comb(ks.ComputeProofSingle(fp, fx), ks.ComputeProofSingle(fq, fx)), quo(mix)); err != nil {
			return err
		}
		// evaluation form
		n, k := nextPow2(c.Len)
		if n <= c.N && k <= 5 {
			lag, err := ks.FFTG1(ks.SecretG1[:n], true)
			if err != nil {
				return err
			}
			if err := sameG1("CommitToEvalPoly", polycommit.CommitToEvalPoly(lag, frVec(refFFT(p, k))), p.Eval(tau)); err != nil {
				return err
			}
			o.Class("evaluation form")
		}
		if err := sameVec("polynomial given to the commitment", fp, p); err != nil {
			return err
		}
		if g := val(&fx); g.Cmp(x) != 0 {
			return fmt.Errorf("point given to the proof is now %s", g)
		}
		if vlib.NewRng(c.Seed).Intn(20) == 0 {
			return checkSetup(c.Tau, c.N, ks)
		}
		return checkConstants()
	})
}

func TestVF_C13_Proofs(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C13", Quick: 3000, Thorough: 15000}, drawCom, func(c comCase, o *vlib.Obs) error {
		ks := c.settings()
		tau := getSetup(c.Tau, c.N).tau
		p := c.poly(c.Seed)
		x := vlib.Big(c.X)
		if forges[c.Forge] == "point is the secret" {
			x = tau
		}
		y := p.Eval(x)
		quo := func(f vlib.Poly, x *big.Int) *big.Int {
			d, _ := vlib.DivMod(f, vlib.Poly{vlib.Sub(vlib.B(0), x), vlib.B(1)})
			return d.Eval(tau)
		}
		// exponents of commitment and proof
		ce, pe := p.Eval(tau), quo(p, x)
		fx := fr(x)
		com, proof := ks.CommitToPoly(frVec(p)), ks.ComputeProofSingle(frVec(p), fx)
		d := vlib.Big(c.D)
		vx, vy := x, y
		switch forges[c.Forge] {
		case "value":
			vy = vlib.Add(y, d)
		case "point":
			vx = vlib.Add(x, d)
		case "commitment":
			ce = vlib.Add(ce, d)
			com = g1(ce)
		case "proof":
			pe = vlib.Add(pe, d)
			proof = g1(pe)
		case "value and commitment together":
			vy, ce = vlib.Add(y, d), vlib.Add(ce, d)
			com = g1(ce)
		case "commitment and proof infinity":
			ce, pe = vlib.B(0), vlib.B(0)
			bls.ClearG1(com)
			bls.ClearG1(proof)
			if d.Bit(0) == 0 {
				vy = vlib.B(0)
			}
		case "proof for another point":
			pe = quo(p, d)
			fd := fr(d)
			proof = ks.ComputeProofSingle(frVec(p), fd)
		case "point is the secret":
			if d.Bit(0) == 0 {
				vy = vlib.Add(y, d)
			} else {
				pe = vlib.Add(pe, d)
				proof = g1(pe)
			}
		case "value and proof together": // consistent when the check is what it is meant to be
			vy = vlib.Add(y, vlib.Mul(d, vlib.Sub(x, tau)))
			pe = vlib.Add(pe, d)
			proof = g1(pe)
		case "negated":
			switch d.Bit(0)*2 + d.Bit(1) {
			case 0:
				vy = vlib.Sub(vlib.B(0), y)
			case 1:
				vx = vlib.Sub(vlib.B(0), x)
			case 2:
				pe = vlib.Sub(vlib.B(0), pe)
				proof = g1(pe)
			case 3:
				ce = vlib.Sub(vlib.B(0), ce)
				com = g1(ce)
			}
		case "swapped":
			switch d.Bit(0) {
			case 0:
				com, proof, ce, pe = proof, com, pe, ce
			case 1:
				vx, vy = y, x
			}
		}
		want := vlib.Sub(ce, vy).Cmp(vlib.Mul(pe, vlib.Sub(tau, vx))) == 0
		o.NonTrivial = p.Deg() >= 1 && tau.BitLen() > 1
		o.Class("%s, accept=%v", forges[c.Forge], want)
		fvx, fvy := fr(vx), fr(vy)
		cb, pb := bls.ToCompressedG1(com), bls.ToCompressedG1(proof)
		for rep := 0; rep < 2; rep++ {
			if got := ks.CheckProofSingle(com, proof, &fvx, &fvy); got != want {
				return fmt.Errorf("CheckProofSingle is %v, must be %v (%s)", got, want, forges[c.Forge])
			}
		}
		if !bytes.Equal(cb, bls.ToCompressedG1(com)) || !bytes.Equal(pb, bls.ToCompressedG1(proof)) ||
			val(&fvx).Cmp(vx) != 0 || val(&fvy).Cmp(vy) != 0 {
			return fmt.Errorf("CheckProofSingle changed its inputs")
		}
		if vlib.NewRng(c.Seed).Intn(20) == 0 {
			return checkSetup(c.Tau, c.N, ks)
		}
		return checkConstants()
	})
}

type multiCase struct {
	Tau   int    `json:"tau"`
	Scale int    `json:"scale"` // of the settings
	K     int    `json:"k"`     // coset of 2^k points
	Len   int    `json:"len"`
	Seed  uint64 `json:"seed"`
	X     uint64 `json:"x"`
	BigX  string `json:"bigx"` // "" or an offset that is no uint64 (proof then made from the exponent)
	Forge int    `json:"forge"`
	At    int    `json:"at"`
	D     string `json:"d"`
}

var multiForges = []string{"none", "one value", "two values swapped", "offset", "commitment", "proof", "values rotated", "value and commitment together", "offset times a root", "offset negated", "all zero"}

func TestVF_C14_Coset(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C14", Quick: 4000, Thorough: 15000}, func(t *rapid.T) multiCase {
		sc := rapid.IntRange(0, 5).Draw(t, "scale")
		k := rapid.IntRange(0, sc).Draw(t, "k")
		l := rapid.IntRange(1, 33).Draw(t, "len")
		if rapid.IntRange(0, 2).Draw(t, "l") == 0 {
			l = 2<<k + rapid.IntRange(-1, 2).Draw(t, "dl")
			if l > 33 {
				l = 33
			}
		}
		c := multiCase{Tau: rapid.IntRange(0, len(taus)-1).Draw(t, "tau"), Scale: sc, K: k, Len: l, Seed: rapid.Uint64().Draw(t, "seed")}
		switch rapid.IntRange(0, 5).Draw(t, "xk") {
		case 0:
			c.X = rapid.Uint64Range(1, 10).Draw(t, "x")
		case 1:
			c.X = ^uint64(0) - rapid.Uint64Range(0, 5).Draw(t, "x")
		case 2:
			c.X = rapid.Uint64Range(1, 1<<63).Draw(t, "x")
		case 3: // every length of a word, and the powers' edges
			b := uint(rapid.IntRange(1, 64).Draw(t, "bits"))
			c.X = rapid.Uint64().Draw(t, "x")>>(64-b) | 1<<(b-1)
			if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
				c.X = 1<<(b-1) + rapid.Uint64Range(0, 2).Draw(t, "dx")
			}
		default:
			c.BigX = vlib.ScalarGen().Draw(t, "bigx")
			if c.BigX == "0" {
				c.BigX = "2"
			}
		}
		c.Forge = rapid.IntRange(0, len(multiForges)-1).Draw(t, "forge")
		c.At = rapid.IntRange(0, 1<<k-1).Draw(t, "at")
		c.D = vlib.ScalarGen().Draw(t, "d")
		return c
	}, func(c multiCase, o *vlib.Obs) error {
		ks := polycommit.NewKZGSettings(fftSettings(uint8(c.Scale)), getSetup(c.Tau, 34).s1, getSetup(c.Tau, 34).s2)
		tau := getSetup(c.Tau, 34).tau
		n := 1 << c.K
		p := vlib.Poly(vlib.SeededScalars(c.Seed, c.Len))
		x := new(big.Int).SetUint64(c.X)
		if c.BigX != "" {
			x = vlib.Big(c.BigX)
		}
		van := make(vlib.Poly, n+1)
		for i := range van {
			van[i] = vlib.B(0)
		}
		van[0] = vlib.Sub(vlib.B(0), new(big.Int).Exp(x, big.NewInt(int64(n)), vlib.R))
		van[n] = vlib.B(1)
		quo, _ := vlib.DivMod(p, van)
		pe := quo.Eval(tau)
		ce := p.Eval(tau)
		fp := frVec(p)
		var proof *bls.G1Point
		if c.BigX == "" {
			proof = ks.ComputeProofMulti(fp, c.X, uint64(n))
			if err := sameG1(fmt.Sprintf("ComputeProofMulti for x=%d, n=%d", c.X, n), proof, pe); err != nil {
				return err
			}
			if err := sameVec("polynomial given to ComputeProofMulti", fp, p); err != nil {
				return err
			}
			// any number of points, also where it is no power of two
			m := c.At + 1
			v2 := make(vlib.Poly, m+1)
			for i := range v2 {
				v2[i] = vlib.B(0)
			}
			v2[0] = vlib.Sub(vlib.B(0), new(big.Int).Exp(x, big.NewInt(int64(m)), vlib.R))
			v2[m] = vlib.B(1)
			q2, _ := vlib.DivMod(p, v2)
			if err := sameG1(fmt.Sprintf("ComputeProofMulti for x=%d, n=%d", c.X, m), ks.ComputeProofMulti(fp, c.X, uint64(m)), q2.Eval(tau)); err != nil {
				return err
			}
		} else {
			proof = g1(pe)
		}
		com := ks.CommitToPoly(fp)
		d := domain(uint8(c.K))
		ys := make([]*big.Int, n)
		for i := range ys {
			ys[i] = p.Eval(vlib.Mul(x, d[i]))
		}
		vx := x
		dl := vlib.Big(c.D)
		switch multiForges[c.Forge] {
		case "one value":
			ys[c.At] = vlib.Add(ys[c.At], dl)
		case "two values swapped":
			ys[c.At], ys[0] = ys[0], ys[c.At]
		case "offset":
			vx = vlib.Add(x, dl)
		case "commitment":
			ce = vlib.Add(ce, dl)
			com = g1(ce)
		case "proof":
			pe = vlib.Add(pe, dl)
			proof = g1(pe)
		case "values rotated":
			ys = append(ys[c.At:], ys[:c.At]...)
		case "value and commitment together":
			for i := range ys {
				ys[i] = vlib.Add(ys[i], dl)
			}
			ce = vlib.Add(ce, dl)
			com = g1(ce)
		case "offset times a root":
			vx = vlib.Mul(x, d[c.At])
		case "offset negated":
			vx = vlib.Sub(vlib.B(0), x)
		case "all zero":
			for i := range ys {
				ys[i] = vlib.B(0)
			}
			if dl.Bit(0) == 0 {
				ce = vlib.B(0)
				bls.ClearG1(com)
			}
			if dl.Bit(1) == 0 {
				pe = vlib.B(0)
				bls.ClearG1(proof)
			}
		}
		if vx.Sign() == 0 {
			vx = vlib.B(1)
		}
		pts := make([]*big.Int, n)
		for i := range pts {
			pts[i] = vlib.Mul(vx, d[i])
		}
		// evaluation at the secret of the polynomial through the values
		it := vlib.Interpolate(pts, ys).Eval(tau)
		xn := new(big.Int).Exp(vx, big.NewInt(int64(n)), vlib.R)
		tn := new(big.Int).Exp(tau, big.NewInt(int64(n)), vlib.R)
		want := vlib.Sub(ce, it).Cmp(vlib.Mul(pe, vlib.Sub(tn, xn))) == 0
		o.NonTrivial = quo.Deg() >= 1 && n >= 2 && tau.BitLen() > 1
		o.Class("%s, accept=%v", multiForges[c.Forge], want)
		o.Class("coset of %d", n)
		fx, fy := fr(vx), frVec(ys)
		for rep := 0; rep < 2; rep++ {
			if got := ks.CheckProofMulti(com, proof, &fx, fy); got != want {
				return fmt.Errorf("CheckProofMulti is %v, must be %v (%s, coset of %d points at %s)", got, want, multiForges[c.Forge], n, vx)
			}
		}
		if val(&fx).Cmp(vx) != 0 {
			return fmt.Errorf("CheckProofMulti changed the offset")
		}
		if err := sameVec("values given to CheckProofMulti", fy, ys); err != nil {
			return err
		}
		if err := checkSettings(uint8(c.Scale)); err != nil {
			return err
		}
		if vlib.NewRng(c.Seed).Intn(30) == 0 {
			return checkSetup(c.Tau, 34, ks)
		}
		return nil
	})
}

type fkCase struct {
	Tau   int    `json:"tau"`
	Scale int    `json:"scale"` // of the FFT settings
	K     int    `json:"k"`     // polynomial of 2^k coefficients
	Chunk int    `json:"chunk"` // chunks of 2^chunk
	Seed  uint64 `json:"seed"`
	Zeros int    `json:"zeros"`
	At    uint64 `json:"at"`
}

func rev(bits int, v int) int {
	r := 0
	for i := 0; i < bits; i++ {
		r |= (v >> i & 1) << (bits - 1 - i)
	}
	return r
}

func drawFK(t *rapid.T, chunks bool) fkCase {
	maxK := 4
	if vlib.Tier() == "thorough" {
		maxK = 5
	}
	k := rapid.IntRange(0, maxK).Draw(t, "k")
	c := fkCase{Tau: rapid.IntRange(0, len(taus)-1).Draw(t, "tau"), Scale: k + 1 + rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "extra"), K: k,
		Seed: rapid.Uint64().Draw(t, "seed"), At: rapid.Uint64().Draw(t, "at")}
	if chunks {
		c.Chunk = rapid.IntRange(0, k).Draw(t, "chunk")
	}
	if rapid.IntRange(0, 4).Draw(t, "z") == 0 {
		c.Zeros = rapid.IntRange(0, 1<<k).Draw(t, "zeros")
	}
	return c
}

func (c fkCase) poly() vlib.Poly {
	n := 1 << c.K
	p := vlib.Poly(vlib.SeededScalars(c.Seed, n))
	for i := 0; i < c.Zeros; i++ {
		p[n-1-i] = vlib.B(0)
	}
	return p
}

// proofExp is the exponent of the proof for the coset of 2^ch points whose
// points all have the power xl = x^(2^ch).
func proofExp(p vlib.Poly, tau, xl *big.Int, ch int) *big.Int {
	l := 1 << ch
	van := make(vlib.Poly, l+1)
	for i := range van {
		van[i] = vlib.B(0)
	}
	van[0] = vlib.Sub(vlib.B(0), xl)
	van[l] = vlib.B(1)
	q, _ := vlib.DivMod(p, van)
	return q.Eval(tau)
}

func TestVF_C14_FK20Single(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C14", Quick: 400, Thorough: 2500}, func(t *rapid.T) fkCase { return drawFK(t, false) }, func(c fkCase, o *vlib.Obs) error {
		size := 1<<c.Scale + 1
		st := getSetup(c.Tau, size)
		ks := polycommit.NewKZGSettings(fftSettings(uint8(c.Scale)), st.s1, st.s2)
		n := 1 << c.K
		fk := polycommit.NewFK20SingleSettings(ks, uint64(2*n))
		p := c.poly()
		o.NonTrivial = p.Deg() >= 1 && st.tau.BitLen() > 1
		o.Class("%d coefficients", n)
		fp := frVec(p)
		var lists [3][]*big.Int // expected exponents
		d1, d2 := domain(uint8(c.K)), domain(uint8(c.K+1))
		for i := 0; i < n; i++ {
			lists[0] = append(lists[0], proofExp(p, st.tau, d1[i], 0))
		}
		for i := 0; i < 2*n; i++ {
			lists[1] = append(lists[1], proofExp(p, st.tau, d2[i], 0))
			lists[2] = append(lists[2], proofExp(p, st.tau, d2[rev(c.K+1, i)], 0))
		}
		ext := append(append(vlib.Poly{}, p...), make(vlib.Poly, n)...)
		for i := n; i < 2*n; i++ {
			ext[i] = vlib.B(0)
		}
		fext := frVec(ext)
		got := [3][]bls.G1Point{fk.FK20Single(fp), fk.FK20SingleDAOptimized(fext), fk.DAUsingFK20(fp)}
		for k, name := range []string{"FK20Single", "FK20SingleDAOptimized", "DAUsingFK20"} {
			if len(got[k]) != len(lists[k]) {
				return fmt.Errorf("%s returns %d proofs for %d positions", name, len(got[k]), len(lists[k]))
			}
			for i := range got[k] {
				if err := sameG1(fmt.Sprintf("%s proof %d", name, i), &got[k][i], lists[k][i]); err != nil {
					return err
				}
			}
		}
		// against the library's own direct method and check
		at := int(c.At % uint64(2*n))
		x := fr(d2[at])
		if !bls.EqualG1(&got[1][at], ks.ComputeProofSingle(fp, x)) {
			return fmt.Errorf("proof %d of FK20SingleDAOptimized is not that of ComputeProofSingle", at)
		}
		y := fr(p.Eval(d2[at]))
		if !ks.CheckProofSingle(ks.CommitToPoly(fp), &got[1][at], &x, &y) {
			return fmt.Errorf("proof %d of FK20SingleDAOptimized does not verify", at)
		}
		if err := sameVec("polynomial given to FK20Single", fp, p); err != nil {
			return err
		}
		if err := sameVec("polynomial given to FK20SingleDAOptimized", fext, ext); err != nil {
			return err
		}
		if err := checkSettings(uint8(c.Scale)); err != nil {
			return err
		}
		if vlib.NewRng(c.Seed).Intn(10) == 0 {
			return checkSetup(c.Tau, size, ks)
		}
		return nil
	})
}

func TestVF_C14_FK20Multi(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C14", Quick: 400, Thorough: 2500}, func(t *rapid.T) fkCase { return drawFK(t, true) }, func(c fkCase, o *vlib.Obs) error {
		size := 1<<c.Scale + 1
		st := getSetup(c.Tau, size)
		ks := polycommit.NewKZGSettings(fftSettings(uint8(c.Scale)), st.s1, st.s2)
		n := 1 << c.K
		l := 1 << c.Chunk
		k := n / l
		kb := c.K - c.Chunk
		fk := polycommit.NewFK20MultiSettings(ks, uint64(2*n), uint64(l))
		p := c.poly()
		o.NonTrivial = p.Deg() >= l && st.tau.BitLen() > 1
		o.Class("%d coefficients, chunks of %d", n, l)
		fp := frVec(p)
		var lists [3][]*big.Int
		d1, d2 := domain(uint8(kb)), domain(uint8(kb+1)) // the l-th powers of the points
		for i := 0; i < k; i++ {
			lists[0] = append(lists[0], proofExp(p, st.tau, d1[i], c.Chunk))
		}
		for i := 0; i < 2*k; i++ {
			lists[1] = append(lists[1], proofExp(p, st.tau, d2[i], c.Chunk))
			lists[2] = append(lists[2], proofExp(p, st.tau, d2[rev(kb+1, i)], c.Chunk))
		}
		ext := append(append(vlib.Poly{}, p...), make(vlib.Poly, n)...)
		for i := n; i < 2*n; i++ {
			ext[i] = vlib.B(0)
		}
		fext := frVec(ext)
		got := [3][]bls.G1Point{fk.FK20Multi(fp), fk.FK20MultiDAOptimized(fext), fk.DAUsingFK20Multi(fp)}
		for k, name := range []string{"FK20Multi", "FK20MultiDAOptimized", "DAUsingFK20Multi"} {
			if len(got[k]) != len(lists[k]) {
				return fmt.Errorf("%s returns %d proofs for %d cosets", name, len(got[k]), len(lists[k]))
			}
			for i := range got[k] {
				if err := sameG1(fmt.Sprintf("%s proof %d", name, i), &got[k][i], lists[k][i]); err != nil {
					return err
				}
			}
		}
		// against the library's own check, on the coset of 2n points' domain
		at := int(c.At % uint64(2*k))
		dd := domain(uint8(c.K + 1))
		x := fr(dd[at])
		dl := domain(uint8(c.Chunk))
		ys := make([]*big.Int, l)
		for i := range ys {
			ys[i] = p.Eval(vlib.Mul(dd[at], dl[i]))
		}
		if !ks.CheckProofMulti(ks.CommitToPoly(fp), &got[1][at], &x, frVec(ys)) {
			return fmt.Errorf("proof %d of FK20MultiDAOptimized does not verify", at)
		}
		if err := sameVec("polynomial given to FK20Multi", fp, p); err != nil {
			return err
		}
		if err := sameVec("polynomial given to FK20MultiDAOptimized", fext, ext); err != nil {
			return err
		}
		if err := checkSettings(uint8(c.Scale)); err != nil {
			return err
		}
		if vlib.NewRng(c.Seed).Intn(10) == 0 {
			return checkSetup(c.Tau, size, ks)
		}
		return nil
	})
}
