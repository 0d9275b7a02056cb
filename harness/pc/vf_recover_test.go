package vfpc

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

type recCase struct {
	Scale   uint8  `json:"scale"` // settings
	K       uint8  `json:"k"`     // 2^k samples
	Miss    int    `json:"miss"`  // number of missing samples
	Pattern int    `json:"pattern"`
	Seed    uint64 `json:"seed"`
	Spoil   bool   `json:"spoil"` // samples that are not of such a polynomial
}

var patterns = []string{"random", "even positions first", "odd positions first", "prefix", "suffix", "blocks", "every fourth first"}

// missing lists the missing positions in increasing order.
func (c recCase) missing() []uint64 {
	n := 1 << c.K
	r := vlib.NewRng(c.Seed ^ 0xabcdef)
	order := make([]int, 0, n)
	switch patterns[c.Pattern] {
	case "random":
		order = perm(r, n)
	case "even positions first", "odd positions first":
		par := 0
		if patterns[c.Pattern] == "odd positions first" {
			par = 1
		}
		for _, i := range perm(r, n/2) {
			order = append(order, 2*i+par)
		}
		for _, i := range perm(r, n/2) {
			order = append(order, 2*i+1-par)
		}
	case "prefix":
		for i := 0; i < n; i++ {
			order = append(order, i)
		}
	case "suffix":
		for i := n - 1; i >= 0; i-- {
			order = append(order, i)
		}
	case "blocks":
		b := 1 << r.Intn(int(c.K)+1)
		for _, i := range perm(r, n/b) {
			for j := 0; j < b; j++ {
				order = append(order, i*b+j)
			}
		}
	case "every fourth first":
		for _, o := range perm(r, 4) {
			for i := o; i < n; i += 4 {
				order = append(order, i)
			}
		}
	}
	set := map[int]bool{}
	for _, i := range order[:c.Miss] {
		set[i] = true
	}
	var out []uint64
	for i := 0; i < n; i++ {
		if set[i] {
			out = append(out, uint64(i))
		}
	}
	return out
}

func perm(r *vlib.Rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func drawRec(t *rapid.T, maxK int) recCase {
	k := rapid.IntRange(2, maxK).Draw(t, "k")
	if rapid.IntRange(0, 12).Draw(t, "big") == 0 && vlib.Tier() == "thorough" {
		k = rapid.IntRange(9, 11).Draw(t, "bigk")
	}
	scale := k + rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "extra")
	half := 1 << (k - 1)
	miss := rapid.IntRange(0, half).Draw(t, "miss")
	switch rapid.IntRange(0, 4).Draw(t, "m") {
	case 0:
		miss = half
	case 1:
		miss = rapid.IntRange(0, 6).Draw(t, "few")
		if miss > half {
			miss = half
		}
	}
	return recCase{uint8(scale), uint8(k), miss, rapid.IntRange(0, len(patterns)-1).Draw(t, "pattern"), rapid.Uint64().Draw(t, "seed"),
		rapid.IntRange(0, 3).Draw(t, "spoil") == 0}
}

func TestVF_C16_Recover(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C16", Quick: 2400, Thorough: 30000}, func(t *rapid.T) recCase { return drawRec(t, 8) },
		func(c recCase, o *vlib.Obs) error {
			fs := fftSettings(c.Scale)
			n := 1 << c.K
			poly := vlib.SeededScalars(c.Seed, n/2)
			if vlib.NewRng(c.Seed).Intn(4) == 0 {
				poly = poly[:n/4]
			}
			data := refFFT(poly, c.K)
			miss := c.missing()
			isMiss := make([]bool, n)
			for _, m := range miss {
				isMiss[m] = true
			}
			o.NonTrivial = len(miss) > 0 && vlib.Poly(poly).Deg() > 0
			o.Class("%s", patterns[c.Pattern])
			o.Class("missing: all of the half %v, none %v", len(miss) == n/2, len(miss) == 0)
			given := append([]*big.Int{}, data...)
			spoilt := 0
			if c.Spoil {
				r := vlib.NewRng(c.Seed + 3)
				for t := 0; t < 1+r.Intn(3); t++ {
					i := r.Intn(n)
					given[i] = vlib.Add(given[i], vlib.B(int64(1+r.Intn(5))))
					if !isMiss[i] {
						spoilt++
					}
				}
			}
			o.Class("samples of a polynomial of half degree: %v", spoilt == 0)
			samples := make([]*bls.Fr, n)
			for i := range samples {
				if !isMiss[i] {
					f := new(bls.Fr)
					setFr(f, given[i])
					samples[i] = f
				}
			}
			for _, alg := range []struct {
				name string
				f    func([]*bls.Fr) ([]bls.Fr, error)
			}{
				{"RecoverPolyFromSamples", func(s []*bls.Fr) ([]bls.Fr, error) {
					return fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
				}},
				{"ErasureCodeRecover", fs.ErasureCodeRecover},
			} {
				out, err := alg.f(samples)
				for i := range samples {
					if (samples[i] == nil) != isMiss[i] {
						return fmt.Errorf("%s changed the list of samples at %d", alg.name, i)
					}
					if samples[i] != nil && val(samples[i]).Cmp(given[i]) != 0 {
						return fmt.Errorf("%s changed sample %d", alg.name, i)
					}
				}
				if spoilt == 0 {
					if err != nil {
						return fmt.Errorf("%s with %d of %d missing (%s): %v", alg.name, len(miss), n, patterns[c.Pattern], err)
					}
					if err := sameVec(fmt.Sprintf("%s with %d of %d missing", alg.name, len(miss), n), out, data); err != nil {
						return err
					}
					continue
				}
				if err != nil {
					o.Class("%s reports the spoilt samples", alg.name)
					continue
				}
				// whatever is returned fits the samples, and the polynomial has fewer
				// coefficients than there were samples
				if len(out) != n {
					return fmt.Errorf("%s returned %d values", alg.name, len(out))
				}
				res := make([]*big.Int, n)
				for i := range out {
					res[i] = val(&out[i])
					if !isMiss[i] && res[i].Cmp(given[i]) != 0 {
						return fmt.Errorf("%s returned %s at %d where the sample was %s", alg.name, res[i], i, given[i])
					}
				}
				if d := interpDeg(res, c.K); d >= n-len(miss) {
					return fmt.Errorf("%s returned values of a polynomial of degree %d from %d samples", alg.name, d, n-len(miss))
				}
			}
			return checkSettings(c.Scale)
		})
}

// interpDeg is the degree of the polynomial with these values on the domain.
func interpDeg(v []*big.Int, k uint8) int {
	f := refFFT(v, k) // forward transform of the values: n * coefficient[-i]
	n := len(v)
	for d := n - 1; d > 0; d-- {
		if f[n-d].Sign() != 0 {
			return d
		}
	}
	return 0
}

func TestVF_C16_ZeroPoly(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C16", Quick: 2000, Thorough: 30000}, func(t *rapid.T) recCase { return drawRec(t, 9) },
		func(c recCase, o *vlib.Obs) error {
			fs := fftSettings(c.Scale)
			n := 1 << c.K
			miss := c.missing()
			if len(miss) == 0 {
				return nil
			}
			isMiss := make([]bool, n)
			for _, m := range miss {
				isMiss[m] = true
			}
			o.NonTrivial = true
			o.Class("%s", patterns[c.Pattern])
			o.Class("more than 63 missing: %v, more than 252: %v", len(miss) > 63, len(miss) > 252)
			in := append([]uint64{}, miss...)
			ev, poly := fs.ZeroPolyViaMultiplication(in, uint64(n))
			for i := range in {
				if in[i] != miss[i] {
					return fmt.Errorf("the list of missing positions was changed")
				}
			}
			if len(ev) != n || len(poly) != n {
				return fmt.Errorf("lengths %d, %d for %d samples", len(ev), len(poly), n)
			}
			pb := make([]*big.Int, n)
			for i := range pb {
				pb[i] = val(&poly[i])
			}
			if d := vlib.Poly(pb).Deg(); d != len(miss) {
				return fmt.Errorf("zero polynomial of %d positions has degree %d", len(miss), d)
			}
			want := refFFT(pb, c.K)
			if err := sameVec("values of the zero polynomial", ev, want); err != nil {
				return err
			}
			for i := range want {
				if (want[i].Sign() == 0) != isMiss[i] {
					return fmt.Errorf("zero polynomial of %d of %d positions (%s) is %s at position %d, missing: %v", len(miss), n, patterns[c.Pattern], want[i], i, isMiss[i])
				}
			}
			return checkSettings(c.Scale)
		})
}
