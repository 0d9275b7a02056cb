//go:build !bignum_pure && !bignum_hol256
// +build !bignum_pure,!bignum_hol256

package vfpc

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polyring"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

type interpCase struct {
	Deg   int    `json:"deg"`
	Extra int    `json:"extra"` // points beyond deg+1, on the same polynomial
	Low   int    `json:"low"`   // top coefficients that are zero
	Index int    `json:"index"` // how indexes are chosen
	Seed  uint64 `json:"seed"`
}

var indexKinds = []string{"1..n", "permuted 1..n", "distinct small, with 0", "uniform", "edge values", "descending"}

func (c interpCase) indexes(n int) []*big.Int {
	r := vlib.NewRng(c.Seed + 7)
	x := make([]*big.Int, 0, n)
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if !seen[v.String()] && len(x) < n {
			seen[v.String()] = true
			x = append(x, v)
		}
	}
	switch indexKinds[c.Index] {
	case "1..n":
		for i := 1; i <= n; i++ {
			add(vlib.B(int64(i)))
		}
	case "permuted 1..n":
		for _, i := range perm(r, n) {
			add(vlib.B(int64(i + 1)))
		}
	case "distinct small, with 0":
		for _, i := range perm(r, n+3) {
			add(vlib.B(int64(i)))
		}
	case "descending":
		for i := n; i >= 0; i-- {
			add(vlib.B(int64(i)))
		}
	case "edge values":
		for i := 0; len(x) < n; i++ {
			switch r.Intn(4) {
			case 0:
				add(vlib.B(int64(-1 - r.Intn(5))))
			case 1:
				add(vlib.B(int64(r.Intn(4))))
			case 2:
				add(vlib.Mod(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(255)))))
			default:
				add(r.Scalar())
			}
		}
	default:
		for len(x) < n {
			add(r.Scalar())
		}
	}
	return x
}

func TestVF_C19_Interpolate(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C19", Quick: 6000, Thorough: 80000}, func(t *rapid.T) interpCase {
		d := rapid.IntRange(0, 24).Draw(t, "deg")
		c := interpCase{Deg: d, Index: rapid.IntRange(0, len(indexKinds)-1).Draw(t, "index"), Seed: rapid.Uint64().Draw(t, "seed")}
		if rapid.IntRange(0, 3).Draw(t, "e") == 0 {
			c.Extra = rapid.IntRange(1, 5).Draw(t, "extra")
		}
		if rapid.IntRange(0, 3).Draw(t, "l") == 0 {
			c.Low = rapid.IntRange(0, d+1).Draw(t, "low")
		}
		return c
	}, func(c interpCase, o *vlib.Obs) error {
		p := vlib.Poly(vlib.SeededScalars(c.Seed, c.Deg+1))
		for i := 0; i < c.Low; i++ {
			p[c.Deg-i] = vlib.B(0)
		}
		n := c.Deg + 1 + c.Extra
		x := c.indexes(n)
		y := make([]*big.Int, n)
		for i := range y {
			y[i] = p.Eval(x[i])
		}
		o.NonTrivial = p.Deg() >= 2
		o.Class("indexes: %s", indexKinds[c.Index])
		fx, fy := frVec(x), frVec(y)
		got := polyring.LagrangeInterpolate(c.Deg, fx, fy)
		if err := sameVec(fmt.Sprintf("polynomial through %d points", n), got, p); err != nil {
			return err
		}
		if err := sameVec("indexes given", fx, x); err != nil {
			return err
		}
		if err := sameVec("values given", fy, y); err != nil {
			return err
		}
		var v bls.Fr
		at := fr(x[0])
		bls.EvalPolyAt(&v, got, &at)
		if val(&v).Cmp(y[0]) != 0 {
			return fmt.Errorf("EvalPolyAt of the interpolated polynomial at %s is %s, want %s", x[0], val(&v), y[0])
		}
		return checkConstants()
	})
}

// EvalPolyAt underlies every interpolation: all degrees, any point.
func TestVF_C19_Eval(t *testing.T) {
	type tc struct {
		Len  int    `json:"len"`
		Seed uint64 `json:"seed"`
		X    string `json:"x"`
	}
	vlib.Check(t, vlib.Opt{ID: "C19", Quick: 6000, Thorough: 60000}, func(t *rapid.T) tc {
		return tc{rapid.IntRange(0, 40).Draw(t, "len"), rapid.Uint64().Draw(t, "seed"), vlib.ScalarGen().Draw(t, "x")}
	}, func(c tc, o *vlib.Obs) error {
		p := vlib.Poly(vlib.SeededScalars(c.Seed, c.Len))
		f := frVec(p)
		x := fr(vlib.Big(c.X))
		o.NonTrivial = p.Deg() >= 1 && vlib.Big(c.X).BitLen() > 1
		var out bls.Fr
		setFr(&out, vlib.NewRng(c.Seed).Scalar()) // the target need not be zero before
		bls.EvalPolyAt(&out, f, &x)
		if g := val(&out); g.Cmp(p.Eval(vlib.Big(c.X))) != 0 {
			return fmt.Errorf("value at %s is %s, want %s", c.X, g, p.Eval(vlib.Big(c.X)))
		}
		if err := sameVec("coefficients given", f, p); err != nil {
			return err
		}
		if val(&x).Cmp(vlib.Big(c.X)) != 0 {
			return fmt.Errorf("EvalPolyAt changed its point")
		}
		return checkConstants()
	})
}
