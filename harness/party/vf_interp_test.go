package party

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

var vfPlain = map[uint32]*HonestParty{}

// vfParty is a member without network or keys, for the pure functions.
func vfParty(f uint32) *HonestParty {
	if vfPlain[f] == nil {
		n := 3*f + 1
		e := make([]string, n)
		vfPlain[f] = NewHonestParty(0, n, f, 0, e, e, e, e, nil, nil)
	}
	return vfPlain[f]
}

type vfInterpCase struct {
	F      uint32 `json:"f"`
	Deg    int    `json:"deg"`
	Target string `json:"target"`
	Index  int    `json:"index"`
	Known  []int  `json:"known"` // permutation source for the indexes
	Seed   uint64 `json:"seed"`
}

var vfIndexKinds = []string{"1..deg+1", "subset of 1..n", "subset of 1..n, permuted", "0 and others", "uniform"}

func vfPerm(r *vlib.Rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func (c vfInterpCase) indexes() []*big.Int {
	r := vlib.NewRng(c.Seed + 3)
	n := int(3*c.F + 1)
	if n < c.Deg+2 {
		n = c.Deg + 2
	}
	var x []*big.Int
	switch vfIndexKinds[c.Index] {
	case "1..deg+1":
		for i := 0; i <= c.Deg; i++ {
			x = append(x, vlib.B(int64(i+1)))
		}
	case "subset of 1..n":
		in := map[int]bool{}
		for _, i := range vfPerm(r, n)[:c.Deg+1] {
			in[i] = true
		}
		for i := 0; i < n; i++ {
			if in[i] {
				x = append(x, vlib.B(int64(i+1)))
			}
		}
	case "subset of 1..n, permuted":
		for _, i := range vfPerm(r, n)[:c.Deg+1] {
			x = append(x, vlib.B(int64(i+1)))
		}
	case "0 and others":
		for _, i := range vfPerm(r, n)[:c.Deg+1] {
			x = append(x, vlib.B(int64(i)))
		}
	default:
		for i := 0; i <= c.Deg; i++ {
			x = append(x, r.Scalar())
		}
	}
	return x
}

func vfDrawInterp(t *rapid.T) vfInterpCase {
	f := uint32(rapid.IntRange(1, 5).Draw(t, "f"))
	d := 2 * int(f)
	if rapid.IntRange(0, 2).Draw(t, "d") == 0 {
		d = rapid.IntRange(0, 11).Draw(t, "deg")
	}
	c := vfInterpCase{F: f, Deg: d, Index: rapid.IntRange(0, len(vfIndexKinds)-1).Draw(t, "index"), Seed: rapid.Uint64().Draw(t, "seed")}
	if rapid.IntRange(0, 3).Draw(t, "t") == 0 {
		c.Target = vlib.ScalarGen().Draw(t, "target")
	} else {
		c.Target = fmt.Sprint(rapid.IntRange(0, int(3*f+1)).Draw(t, "member"))
	}
	return c
}

func TestVF_C19_Coefficients(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C19", Quick: 4000, Thorough: 60000}, vfDrawInterp, func(c vfInterpCase, o *vlib.Obs) error {
		x := c.indexes()
		tgt := vlib.Big(c.Target)
		o.NonTrivial = c.Deg >= 2
		o.Class("%s", vfIndexKinds[c.Index])
		fx, ft := vfFrs(x), vfFr(tgt)
		lambda := vfFrs(vlib.SeededScalars(c.Seed+9, c.Deg+1)) // memory that was used before
		GetLagrangeCoefficients(uint32(c.Deg), fx, ft, lambda)
		for rep := 0; rep < 2; rep++ {
			p := vlib.Poly(vlib.SeededScalars(c.Seed+uint64(rep), c.Deg+1))
			sum := vlib.B(0)
			for i := range x {
				sum = vlib.Add(sum, vlib.Mul(vfVal(&lambda[i]), p.Eval(x[i])))
			}
			if sum.Cmp(p.Eval(tgt)) != 0 {
				return fmt.Errorf("coefficients at %s do not reproduce a polynomial of degree %d from indexes %v", tgt, c.Deg, x)
			}
		}
		for i := range x {
			if vfVal(&fx[i]).Cmp(x[i]) != 0 {
				return fmt.Errorf("index %d given was changed", i)
			}
		}
		if vfVal(&ft).Cmp(tgt) != 0 {
			return fmt.Errorf("target given was changed")
		}
		return vfConstants()
	})
}

// The tables every member keeps: coefficients from 1..2f+1 to 0..n.
func TestVF_C19_Tables(t *testing.T) {
	type tc struct {
		F    uint32 `json:"f"`
		Seed uint64 `json:"seed"`
	}
	vlib.Check(t, vlib.Opt{ID: "C19", Quick: 120, Thorough: 1000}, func(t *rapid.T) tc {
		return tc{uint32(rapid.IntRange(1, 6).Draw(t, "f")), rapid.Uint64().Draw(t, "seed")}
	}, func(c tc, o *vlib.Obs) error {
		tab := vfTable(vfParty(c.F))
		n := int(3*c.F + 1)
		o.NonTrivial = true
		if len(tab) != n+1 {
			return fmt.Errorf("table for %d members has %d rows", n, len(tab))
		}
		p := vlib.Poly(vlib.SeededScalars(c.Seed, int(2*c.F+1)))
		for k := range tab {
			if len(tab[k]) != int(2*c.F+1) {
				return fmt.Errorf("row %d has %d coefficients", k, len(tab[k]))
			}
			sum := vlib.B(0)
			for i := range tab[k] {
				sum = vlib.Add(sum, vlib.Mul(vfVal(&tab[k][i]), p.Eval(vlib.B(int64(i+1)))))
			}
			if sum.Cmp(p.Eval(vlib.B(int64(k)))) != 0 {
				return fmt.Errorf("row %d of the table for f=%d does not reproduce a polynomial of degree 2f", k, c.F)
			}
		}
		return nil
	})
}

func TestVF_C19_Commitments(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C19", Quick: 1600, Thorough: 20000}, func(t *rapid.T) vfInterpCase {
		c := vfDrawInterp(t)
		c.Target = fmt.Sprint(rapid.IntRange(0, int(3*c.F+1)+2).Draw(t, "member"))
		return c
	}, func(c vfInterpCase, o *vlib.Obs) error {
		p := vfParty(c.F)
		poly := vlib.Poly(vlib.SeededScalars(c.Seed, c.Deg+1))
		tgt := uint32(vlib.Big(c.Target).Int64())
		want := vfG1(poly.Eval(vlib.B(int64(tgt))))
		o.NonTrivial = c.Deg >= 2 && int(tgt) != 0
		o.Class("%s", vfIndexKinds[c.Index])
		try := func(name string, x []*big.Int, f func(list []bls.G1Point) bls.G1Point) error {
			list := make([]bls.G1Point, len(x))
			enc := make([][]byte, len(x))
			for i := range x {
				list[i] = *vfG1(poly.Eval(x[i]))
				enc[i] = bls.ToCompressedG1(&list[i])
			}
			got := f(list)
			if !bytes.Equal(bls.ToCompressedG1(&got), bls.ToCompressedG1(want)) {
				return fmt.Errorf("%s: commitment at %d from indexes %v (degree %d, f=%d) is wrong", name, tgt, x, c.Deg, c.F)
			}
			for i := range list {
				if !bytes.Equal(enc[i], bls.ToCompressedG1(&list[i])) {
					return fmt.Errorf("%s changed the commitments given", name)
				}
			}
			return nil
		}
		var std []*big.Int
		for i := 0; i <= c.Deg; i++ {
			std = append(std, vlib.B(int64(i+1)))
		}
		if err := try("InterpolateComOrWit", std, func(l []bls.G1Point) bls.G1Point { return p.InterpolateComOrWit(uint32(c.Deg), tgt, l) }); err != nil {
			return err
		}
		x := c.indexes()
		if err := try("InterpolateComOrWitByKnownIndexes", x, func(l []bls.G1Point) bls.G1Point {
			return p.InterpolateComOrWitByKnownIndexes(uint32(c.Deg), tgt, vfFrs(x), l)
		}); err != nil {
			return err
		}
		return vfConstants()
	})
}
