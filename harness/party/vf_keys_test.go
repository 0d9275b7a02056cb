package party

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/big"
	"os"
	"testing"

	"github.com/drand/kyber"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	"github.com/drand/kyber/sign/bls"
	"github.com/drand/kyber/sign/tbls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

type vfKeyCase struct {
	Mode string   `json:"mode"` // direct | files | given
	F    int      `json:"f"`
	Seed uint64   `json:"seed"`
	Msg  []byte   `json:"msg"`
	Edge []int    `json:"edge"` // kind of each given coefficient
	Pick []uint64 `json:"pick"` // choices of subsets
}

func vfGenKeys(rt *rapid.T) vfKeyCase {
	c := vfKeyCase{
		Mode: rapid.SampledFrom([]string{"direct", "files", "files", "given", "given"}).Draw(rt, "mode"),
		F:    rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 4}).Draw(rt, "f"),
		Seed: rapid.Uint64().Draw(rt, "seed"),
		Msg:  rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "msg"),
	}
	c.Edge = rapid.SliceOfN(rapid.IntRange(0, 8), 2*c.F+1, 2*c.F+1).Draw(rt, "edge")
	c.Pick = rapid.SliceOfN(rapid.Uint64(), 3, 3).Draw(rt, "pick")
	return c
}

func vfScalarBig(s kyber.Scalar) *big.Int {
	b, err := s.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return new(big.Int).SetBytes(b)
}

// vfKeySet checks that shares and public key belong together and to one
// polynomial of degree exactly 2f; it returns the polynomial.
func vfKeySet(name string, sk []*share.PriShare, pk *share.PubPoly, f int) (vlib.Poly, error) {
	n, t := 3*f+1, 2*f+1
	suite := kyberbls.NewBLS12381Suite()
	if len(sk) != n {
		return nil, fmt.Errorf("%s: %d shares for %d members", name, len(sk), n)
	}
	var x, y []*big.Int
	for i, s := range sk {
		if s == nil || s.V == nil || s.I != i {
			return nil, fmt.Errorf("%s: share %d is not that member's", name, i)
		}
		x = append(x, vlib.B(int64(i+1)))
		y = append(y, vfScalarBig(s.V))
	}
	p := vlib.Interpolate(x[:t], y[:t])
	for i := range x {
		if p.Eval(x[i]).Cmp(y[i]) != 0 {
			return nil, fmt.Errorf("%s: share %d is not on the polynomial of the first %d", name, i, t)
		}
	}
	if pk.Threshold() != t {
		return nil, fmt.Errorf("%s: the public key is of %d signers, not %d", name, pk.Threshold(), t)
	}
	_, com := pk.Info()
	for i := range com {
		s := suite.G2().Scalar().SetBytes(p[i].Bytes())
		if !com[i].Equal(suite.G2().Point().Mul(s, nil)) {
			return nil, fmt.Errorf("%s: commitment %d of the public key does not fit the shares", name, i)
		}
	}
	return p, nil
}

func vfKeyBytes(sk []*share.PriShare, pk *share.PubPoly) []byte {
	var b bytes.Buffer
	for _, s := range sk {
		v, _ := s.V.MarshalBinary()
		fmt.Fprintf(&b, "%d:%x;", s.I, v)
	}
	_, com := pk.Info()
	for _, c := range com {
		v, _ := c.MarshalBinary()
		fmt.Fprintf(&b, "%x;", v)
	}
	return b.Bytes()
}

func vfSigns(c vfKeyCase, sk []*share.PriShare, pk *share.PubPoly, other []*share.PriShare) error {
	n, t := 3*c.F+1, 2*c.F+1
	suite := kyberbls.NewBLS12381Suite()
	ts := tbls.NewThresholdSchemeOnG1(suite)
	bs := bls.NewSchemeOnG1(suite)
	sigs := make([][]byte, n)
	for i := range sigs {
		var err error
		sigs[i], err = ts.Sign(sk[i], c.Msg)
		if err != nil {
			return err
		}
		if err := ts.VerifyPartial(pk, c.Msg, sigs[i]); err != nil {
			return fmt.Errorf("share of member %d does not verify: %v", i, err)
		}
	}
	var first []byte
	r := vlib.NewRng(c.Pick[0])
	for k := 0; k < 3; k++ {
		perm := vfPerm(r, n)
		if k == 0 {
			perm = nil
			for i := n - t; i < n; i++ { // the last ones
				perm = append(perm, i)
			}
		}
		var use [][]byte
		for _, i := range perm[:t] {
			use = append(use, sigs[i])
		}
		sig, err := ts.Recover(pk, c.Msg, use, t, n)
		if err != nil {
			return fmt.Errorf("%d shares of %v do not combine: %v", t, perm[:t], err)
		}
		if err := bs.Verify(pk.Commit(), c.Msg, sig); err != nil {
			return fmt.Errorf("signature combined by %v does not verify: %v", perm[:t], err)
		}
		if first == nil {
			first = sig
		} else if !bytes.Equal(first, sig) {
			return fmt.Errorf("signature combined by %v differs from another combination", perm[:t])
		}
		// one share less
		if s2, err := ts.Recover(pk, c.Msg, use[:t-1], t, n); err == nil && bs.Verify(pk.Commit(), c.Msg, s2) == nil {
			return fmt.Errorf("%d shares made a valid signature", t-1)
		}
		if s2, err := ts.Recover(pk, c.Msg, use[:t-1], t-1, n); err == nil && bs.Verify(pk.Commit(), c.Msg, s2) == nil {
			return fmt.Errorf("%d shares made a valid signature", t-1)
		}
		// an altered share
		j := r.Intn(t)
		i := perm[j]
		alt := &share.PriShare{I: sk[i].I, V: suite.G1().Scalar().Add(sk[i].V, suite.G1().Scalar().One())}
		as, _ := ts.Sign(alt, c.Msg)
		if ts.VerifyPartial(pk, c.Msg, as) == nil {
			return fmt.Errorf("share of an altered key verifies")
		}
		if other != nil {
			os, _ := ts.Sign(other[i], c.Msg)
			if ts.VerifyPartial(pk, c.Msg, os) == nil {
				return fmt.Errorf("member %d of the other committee signs for this one", i)
			}
		}
		moved := &share.PriShare{I: (sk[i].I + 1) % n, V: sk[i].V}
		ms, _ := ts.Sign(moved, c.Msg)
		if ts.VerifyPartial(pk, c.Msg, ms) == nil {
			return fmt.Errorf("share of member %d verifies as another member's", i)
		}
	}
	return nil
}

func vfRunKeys(c vfKeyCase, o *vlib.Obs) error {
	n, t := 3*c.F+1, 2*c.F+1
	os.Remove("coefficients")
	os.Remove("coefficients_new")
	real := crand.Reader
	crand.Reader = vlib.NewRng(c.Seed)
	defer func() { crand.Reader = real }()
	o.NonTrivial = true
	o.Class("%s", c.Mode)
	switch c.Mode {
	case "direct":
		sk, pk := SigKeyGen(uint32(n), uint32(t))
		sk2, pk2 := SigKeyGen(uint32(n), uint32(t))
		p, err := vfKeySet("keys", sk, pk, c.F)
		if err != nil {
			return err
		}
		p2, err := vfKeySet("other keys", sk2, pk2, c.F)
		if err != nil {
			return err
		}
		if err := vfIndependent(p, p2); err != nil {
			return err
		}
		return vfSigns(c, sk, pk, sk2)
	case "files":
		GenCoefficientsFile(n, t)
	case "given":
		r := vlib.NewRng(c.Seed)
		for k, file := range []string{"coefficients", "coefficients_new"} {
			cb := make([][]byte, t)
			for i := range cb {
				v := r.Scalar()
				switch (c.Edge[i] + 3*k) % 9 {
				case 0:
					v = vlib.B(int64(1 + r.Intn(255)))
				case 1:
					v.Rsh(v, 8)
				case 2:
					v.Rsh(v, 17)
				case 3:
					v = vlib.B(-1 - int64(r.Intn(9)))
				case 4:
					if i < t-1 && i > 0 {
						v = vlib.B(0)
					}
				}
				cb[i] = make([]byte, 32)
				v.FillBytes(cb[i])
			}
			WriteToFile(cb, file)
			var back [][]byte
			ReadFromFile(&back, file)
			if len(back) != len(cb) {
				return fmt.Errorf("%d coefficients stored, %d read", len(cb), len(back))
			}
			want := vlib.Poly{}
			for i := range cb {
				if !bytes.Equal(back[i], cb[i]) {
					return fmt.Errorf("coefficient %d stored as %x, read as %x", i, cb[i], back[i])
				}
				want = append(want, new(big.Int).SetBytes(cb[i]))
			}
			var sk []*share.PriShare
			var pk *share.PubPoly
			if k == 0 {
				sk, pk = SigKeyGenFix(uint32(n), uint32(t))
			} else {
				sk, pk = SigKeyGenFix_New(uint32(n), uint32(t))
			}
			got, err := vfKeySet(file, sk, pk, c.F)
			if err != nil {
				return err
			}
			if !vlib.EqPoly(got, want) {
				return fmt.Errorf("keys read from %s are not those stored", file)
			}
		}
	}
	sk, pk := SigKeyGenFix(uint32(n), uint32(t))
	skn, pkn := SigKeyGenFix_New(uint32(n), uint32(t))
	skb, pkb := SigKeyGenFix(uint32(n), uint32(t))
	sknb, pknb := SigKeyGenFix_New(uint32(n), uint32(t))
	if !bytes.Equal(vfKeyBytes(sk, pk), vfKeyBytes(skb, pkb)) || !bytes.Equal(vfKeyBytes(skn, pkn), vfKeyBytes(sknb, pknb)) {
		return fmt.Errorf("two members read different keys from the same files")
	}
	p, err := vfKeySet("old committee", sk, pk, c.F)
	if err != nil {
		return err
	}
	pn, err := vfKeySet("new committee", skn, pkn, c.F)
	if err != nil {
		return err
	}
	if c.Mode == "files" {
		if err := vfIndependent(p, pn); err != nil {
			return err
		}
		if c.Pick[1]%2 == 0 {
			GenCoefficientsFile(n, t)
			sk3, pk3 := SigKeyGenFix(uint32(n), uint32(t))
			p3, err := vfKeySet("second setup", sk3, pk3, c.F)
			if err != nil {
				return err
			}
			if err := vfIndependent(p, p3); err != nil {
				return fmt.Errorf("two setups: %v", err)
			}
			if err := vfIndependent(pn, p3); err != nil {
				return fmt.Errorf("two setups: %v", err)
			}
		}
	}
	if err := vfSigns(c, sk, pk, skn); err != nil {
		return fmt.Errorf("old committee: %v", err)
	}
	if err := vfSigns(c, skn, pkn, sk); err != nil {
		return fmt.Errorf("new committee: %v", err)
	}
	return nil
}

// vfIndependent refuses polynomials that are visibly made from each other.
func vfIndependent(a, b vlib.Poly) error {
	var q *big.Int
	same := len(a) > 1
	for i := range a {
		if a[i].Sign() == 0 || len(a[i].Bytes()) < 24 {
			return fmt.Errorf("coefficient %d is not random: %s", i, a[i])
		}
		for j := range b {
			if a[i].Cmp(b[j]) == 0 {
				return fmt.Errorf("coefficients %d and %d of independent keys are equal", i, j)
			}
		}
		for j := range a {
			if i != j && a[i].Cmp(a[j]) == 0 {
				return fmt.Errorf("coefficients %d and %d of one key are equal", i, j)
			}
		}
		r := vlib.Mul(a[i], vlib.Inv(b[i]))
		if q != nil && q.Cmp(r) != 0 {
			same = false
		}
		q = r
	}
	if same {
		return fmt.Errorf("one key is a multiple of the other")
	}
	return nil
}

func TestVF_C12_Keys(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C12", Quick: 200, Thorough: 4000}, vfGenKeys, vfRunKeys)
}
