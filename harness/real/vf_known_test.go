package vfbls

// Runs the failing inputs recorded in known_findings.jsonl against the curve
// library the repository really pins (every other check is built with the
// repaired copy in /verif/third_party/kilic), and reports the ones that fail.

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polycommit"
	"verif/lib/vlib"
)

type knownCase struct {
	How string `json:"how"`
	A   uint64 `json:"a"`
	B   uint64 `json:"b"`
}

func (c knownCase) holds() (bool, error) {
	var a, b, ab bls.Fr
	bls.AsFr(&a, c.A)
	bls.AsFr(&b, c.B)
	bls.MulModFr(&ab, &a, &b)
	switch c.How {
	case "pairing", "pairing-swapped": // e(a*G1, b*G2) = e(ab*G1, G2)
		var p, r bls.G1Point
		var q bls.G2Point
		g2 := bls.GenG2
		bls.MulG1(&p, &bls.GenG1, &a)
		bls.MulG2(&q, &bls.GenG2, &b)
		bls.MulG1(&r, &bls.GenG1, &ab)
		if c.How == "pairing" {
			return bls.PairingsVerify(&p, &q, &r, &g2), nil
		}
		return bls.PairingsVerify(&r, &g2, &p, &q), nil
	case "proof": // the proof of a*X at 1, with the setup secret b+1
		g1, g2 := polycommit.GenerateTestingSetup(fmt.Sprint(c.B+1), 16)
		k := polycommit.NewKZGSettings(polycommit.NewFFTSettings(4), g1, g2)
		poly := []bls.Fr{bls.ZERO, a}
		proof := k.ComputeProofSingle(poly, bls.ONE)
		x := bls.ONE
		return k.CheckProofSingle(k.CommitToPoly(poly), proof, &x, &a), nil
	}
	return false, fmt.Errorf("unknown kind %q", c.How)
}

func runKnown(t *testing.T, id string) {
	vlib.Known(t, id, func(raw []byte) (bool, error) {
		var c knownCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return false, err
		}
		return c.holds()
	})
}

func TestVF_C18_Known(t *testing.T) { runKnown(t, "C18") }
func TestVF_C13_Known(t *testing.T) { runKnown(t, "C13") }
