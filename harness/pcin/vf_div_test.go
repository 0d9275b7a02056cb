package polycommit

import (
	"fmt"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

type vfDivCase struct {
	Q    int    `json:"q"`    // coefficients of the quotient
	D    int    `json:"d"`    // coefficients of the divisor
	Seed uint64 `json:"seed"` // of the coefficients
	QZ   uint64 `json:"qz"`   // coefficients of the quotient that are zero
	DZ   uint64 `json:"dz"`   // coefficients of the divisor that are zero (not the top one)
	Rem  bool   `json:"rem"`  // with a remainder
	Lin  bool   `json:"lin"`  // the divisor is X^(d-1) - c, as in the proofs
}

func vfMask(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2: // a run of zeros
		a := rapid.IntRange(0, 40).Draw(t, label+"from")
		return (uint64(1)<<uint(rapid.IntRange(1, 12).Draw(t, label+"len")) - 1) << uint(a)
	}
	return rapid.Uint64().Draw(t, label)
}

func vfFrs(p vlib.Poly) []bls.Fr {
	out := make([]bls.Fr, len(p))
	for i := range p {
		bls.SetFr(&out[i], p[i].String())
	}
	return out
}

func TestVF_C15_Division(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C15", Quick: 4000, Thorough: 60000}, func(t *rapid.T) vfDivCase {
		c := vfDivCase{Q: rapid.IntRange(0, 40).Draw(t, "q"), D: rapid.IntRange(1, 20).Draw(t, "d"), Seed: rapid.Uint64().Draw(t, "seed"),
			QZ: vfMask(t, "qz"), DZ: vfMask(t, "dz"), Rem: rapid.Bool().Draw(t, "rem"), Lin: rapid.Bool().Draw(t, "lin")}
		return c
	}, func(c vfDivCase, o *vlib.Obs) error {
		r := vlib.NewRng(c.Seed)
		q, d := vlib.Poly(vlib.SeededScalars(c.Seed, c.Q)), vlib.Poly(vlib.SeededScalars(c.Seed+1, c.D))
		for i := range q {
			if c.QZ>>uint(i)&1 == 1 {
				q[i] = vlib.B(0)
			}
		}
		for i := range d {
			if c.DZ>>uint(i)&1 == 1 || c.Lin && i > 0 {
				d[i] = vlib.B(0)
			}
		}
		top := r.Scalar()
		if c.Lin || top.Sign() == 0 {
			top = vlib.B(1)
		}
		d[c.D-1] = top
		zeros := 0
		for i := range q {
			if q[i].Sign() == 0 {
				zeros++
			}
		}
		o.NonTrivial = c.Q >= 2 && zeros < c.Q && c.D >= 2
		o.Class("quotient with zeros %v, remainder %v", zeros > 0, c.Rem)
		n := c.Q + c.D - 1
		a := make(vlib.Poly, n)
		for i := range a {
			a[i] = vlib.B(0)
		}
		for i := range q {
			for j := range d {
				a[i+j] = vlib.Add(a[i+j], vlib.Mul(q[i], d[j]))
			}
		}
		if c.Rem {
			for i := 0; i < c.D-1 && i < n; i++ {
				a[i] = vlib.Add(a[i], r.Scalar())
			}
		}
		fa, fd := vfFrs(a), vfFrs(d)
		got := polyLongDiv(fa, fd)
		if len(got) != c.Q {
			return fmt.Errorf("the quotient of %d by %d coefficients has %d, want %d", n, c.D, len(got), c.Q)
		}
		for i := range q {
			if bls.FrStr(&got[i]) != q[i].String() {
				return fmt.Errorf("coefficient %d of the quotient of %d by %d coefficients is %s, want %s", i, n, c.D, bls.FrStr(&got[i]), q[i])
			}
		}
		for i := range a {
			if bls.FrStr(&fa[i]) != a[i].String() {
				return fmt.Errorf("division changed coefficient %d of the dividend", i)
			}
		}
		for i := range d {
			if bls.FrStr(&fd[i]) != d[i].String() {
				return fmt.Errorf("division changed coefficient %d of the divisor", i)
			}
		}
		return nil
	})
}
