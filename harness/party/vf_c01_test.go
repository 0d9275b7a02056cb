package party

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polyring"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

type vfDealing struct {
	Secret string `json:"secret"`
	ID     string `json:"id"`
}

type vfDealCase struct {
	F     int         `json:"f"`
	Deals []vfDealing `json:"deals"` // one after the other
	Sched vfSched     `json:"sched"`
	Pick  uint64      `json:"pick"`
	Key   bool        `json:"key"`
}

// vfForbidden collects the values that must not be seen in some message.
type vfForbidden map[string]string

var vfSmall = new(big.Int).Lsh(big.NewInt(1), 128)

func (m vfForbidden) add(v *big.Int, what string) {
	if v.Cmp(vfSmall) < 0 {
		return // such bytes may be there for other reasons
	}
	le := vfToLE(v)
	m[string(le)] = what
	be := make([]byte, 32)
	for i := range le {
		be[31-i] = le[i]
	}
	m[string(be)] = what
}

func (m vfForbidden) scan(data []byte) (string, bool) {
	for i := 0; i+32 <= len(data); i++ {
		if w, ok := m[string(data[i:i+32])]; ok {
			return w, true
		}
	}
	return "", false
}

// vfFresh demands that no two of the values are equal and none is zero.
func vfFresh(seen map[string]string, v *big.Int, what string) error {
	if v.Sign() == 0 {
		return fmt.Errorf("%s is zero", what)
	}
	if o, ok := seen[v.String()]; ok {
		return fmt.Errorf("%s equals %s", what, o)
	}
	seen[v.String()] = what
	return vfLong(v, what)
}

// vfLong demands a value that is far from 0 on both sides, as every uniform
// one is but for a chance of 2^-70.
func vfLong(v *big.Int, what string) error {
	if v.BitLen() < 184 || vlib.Sub(new(big.Int), v).BitLen() < 184 {
		return fmt.Errorf("%s is %s, which is no random value", what, v)
	}
	return nil
}

func vfDegrees(s *vfSharing, name string, seen map[string]string) error {
	for i := 0; i <= s.f; i++ {
		for j := 0; j <= 2*s.f; j++ {
			if i == 0 && j == 0 {
				continue
			}
			if err := vfFresh(seen, s.bi[i][j], fmt.Sprintf("%s: coefficient of x^%d y^%d", name, i, j)); err != nil {
				return err
			}
		}
	}
	for j := 1; j <= 2*s.f+1; j++ {
		for i, v := range s.bi.AtY(vlib.B(int64(j))) {
			if i > 0 {
				if err := vfLong(v, fmt.Sprintf("%s: coefficient %d of column %d", name, i, j)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func vfRunDeal(c vfDealCase, o *vlib.Obs) error {
	s := vfNewSim(c.Sched)
	n := 3*c.F + 1
	nodes := s.committee(0, uint32(c.F), nil, nil)
	rng := vlib.NewRng(c.Pick)
	seen := map[string]string{}
	o.Class("f=%d", c.F)
	o.Class("dealings %d", len(c.Deals))
	o.NonTrivial = true
	var all []*vfEnv
	s.onSend = func(e *vfEnv) []*vfEnv {
		all = append(all, e)
		return []*vfEnv{e}
	}
	for k, d := range c.Deals {
		secret := vlib.Big(d.Secret)
		all = nil
		if err := s.deal(nodes, secret, d.ID); err != nil {
			return err
		}
		sh, err := vfJudge(nodes, c.F, secret, vfWhat{commits: true, witnesses: true})
		if err != nil {
			return fmt.Errorf("dealing %d: %v", k, err)
		}
		if err := vfDegrees(sh, fmt.Sprintf("dealing %d", k), seen); err != nil {
			return err
		}
		// every commitment and witness, also the interpolated ones
		for _, nd := range nodes {
			p := nd.p
			if !bls.EqualG1(&p.Proof.Gs, vfG1(secret)) {
				return fmt.Errorf("%s: the commitment to the secret is wrong", nd.name)
			}
			var cbs []bls.G1Point
			for j := 1; j <= 2*c.F+1; j++ {
				y := vlib.B(int64(j))
				cb, cz, wz, gf, idx := vfPiContent(p.Proof, j)
				v0 := sh.at(new(big.Int), y)
				z := vlib.Sub(sh.com(j), v0)
				if int(*idx) != j || !bls.EqualG1(gf, vfG1(v0)) || !bls.EqualG1(cz, vfG1(z)) || !bls.EqualG1(wz, vfG1(vlib.Mul(z, vlib.Inv(vfTau)))) {
					return fmt.Errorf("%s: the public values of column %d do not belong to the shared polynomial", nd.name, j)
				}
				cbs = append(cbs, *cb)
			}
			for j := 1; j <= n; j++ {
				g := p.InterpolateComOrWit(uint32(2*c.F), uint32(j), cbs)
				if !bls.EqualG1(&g, vfG1(sh.com(j))) {
					return fmt.Errorf("%s: the interpolated commitment %d is wrong", nd.name, j)
				}
				w := p.InterpolateComOrWitByKnownIndexes(uint32(2*c.F), uint32(j), vfWitnessIndexes(p), vfWitness(p))
				if !bls.EqualG1(&w, vfG1(sh.wit(nd.idx+1, vlib.B(int64(j))))) {
					return fmt.Errorf("%s: the interpolated witness %d is wrong", nd.name, j)
				}
			}
		}
		// some f+1 members reconstruct with the code's own interpolation
		pm := vfPerm(rng, n)[:c.F+1]
		x, y := make([]bls.Fr, c.F+1), make([]bls.Fr, c.F+1)
		for i, m := range pm {
			bls.AsFr(&x[i], uint64(m+1))
			y[i] = vfFullShare(nodes[m].p)[0]
		}
		if r := polyring.LagrangeInterpolate(c.F, x, y); vfVal(&r[0]).Cmp(vlib.Mod(secret)) != 0 {
			return fmt.Errorf("the shares of members %v give %s, the secret is %s", pm, vfVal(&r[0]), secret)
		}
		// what was sent
		own := make([]map[string]bool, n)
		for i := range own {
			own[i] = map[string]bool{}
			for j := 0; j <= n; j++ {
				own[i][sh.at(vlib.B(int64(i+1)), vlib.B(int64(j))).String()] = true
			}
		}
		for _, e := range all {
			m := e.to.idx
			fb := vfForbidden{}
			put := func(v *big.Int, what string) {
				if !own[m][v.String()] {
					fb.add(v, what)
				}
			}
			put(vlib.Mod(secret), "the secret")
			for x := 0; x <= n; x++ {
				for y := 0; y <= n; y++ {
					if x != m+1 {
						put(sh.at(vlib.B(int64(x)), vlib.B(int64(y))), fmt.Sprintf("B(%d,%d)", x, y))
					}
				}
			}
			for i := range sh.bi {
				for j := range sh.bi[i] {
					put(sh.bi[i][j], fmt.Sprintf("the coefficient of x^%d y^%d", i, j))
				}
			}
			for y := 0; y <= n; y++ {
				for i, v := range sh.bi.AtY(vlib.B(int64(y))) {
					put(v, fmt.Sprintf("coefficient %d of column %d", i, y))
				}
			}
			raw, err := proto.Marshal(e.m)
			if err != nil {
				return err
			}
			if w, bad := fb.scan(raw); bad {
				return fmt.Errorf("dealing %d: the message to member %d contains %s", k, m, w)
			}
		}
		o.Note("messages", "%d", len(all))
	}
	return nil
}

func TestVF_C01_Dealing(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C01", Quick: 300, Thorough: 6000, Isolated: true}, func(rt *rapid.T) vfDealCase {
		c := vfDealCase{F: rapid.SampledFrom([]int{1, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4}).Draw(rt, "f"), Pick: rapid.Uint64().Draw(rt, "pick")}
		n := 3*c.F + 1
		c.Sched = vfGenSched(rt, n, []string{"", "VSSSend"})
		ids := []string{"vssshare", "1", "", "vssshare2", "vss\x00share", "vsssharev", "10"}
		for k := rapid.IntRange(1, 3).Draw(rt, "dealings"); k > 0; k-- {
			i := rapid.IntRange(0, len(ids)-1).Draw(rt, "id")
			c.Deals = append(c.Deals, vfDealing{Secret: vlib.ScalarGen().Draw(rt, "secret"), ID: ids[i]})
			ids = append(ids[:i], ids[i+1:]...)
		}
		return c
	}, vfRunDeal)
}
