package party

import (
	"fmt"
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// The setup's secret, so that every commitment and proof has a known exponent.
var vfTau = vlib.Big("46015081477078601964787943834255776126696019968430095991502055467779756761969")

// vfSharing is the polynomial of a sharing: degree f in the member
// coordinate x, 2f in y.
type vfSharing struct {
	f  int
	bi vlib.BiPoly
}

func vfRandSharing(rng *vlib.Rng, f int, secret *big.Int) *vfSharing {
	s := &vfSharing{f: f, bi: make(vlib.BiPoly, f+1)}
	for i := range s.bi {
		s.bi[i] = make(vlib.Poly, 2*f+1)
		for j := range s.bi[i] {
			s.bi[i][j] = rng.Scalar()
		}
	}
	s.bi[0][0] = vlib.Mod(secret)
	return s
}

func (s *vfSharing) at(x, y *big.Int) *big.Int { return s.bi.AtY(y).Eval(x) }
func (s *vfSharing) com(j int) *big.Int        { return s.at(vfTau, vlib.B(int64(j))) }
func (s *vfSharing) wit(i int, y *big.Int) *big.Int {
	x := vlib.B(int64(i))
	return vlib.Mul(vlib.Sub(s.at(vfTau, y), s.at(x, y)), vlib.Inv(vlib.Sub(vfTau, x)))
}

// vfInstall gives a member the state it has after a dealing or a handoff;
// its witnesses are at the given indexes.
func vfInstall(p *HonestParty, s *vfSharing, idx []int) {
	i := int(p.PID) + 1
	vfSetFullShare(p, vfFrs(s.bi.AtX(vlib.B(int64(i)))))
	w, wi := vfWitness(p), vfWitnessIndexes(p)
	for k := range w {
		y := k + 1
		if idx != nil {
			y = idx[k]
		}
		w[k] = *vfG1(s.wit(i, vlib.B(int64(y))))
		vfSetFr(&wi[k], vlib.B(int64(y)))
	}
	for j := 1; j <= 2*s.f+1; j++ {
		cb, _, _, _, _ := vfPiContent(p.Proof, j)
		*cb = *vfG1(s.com(j))
	}
}

// vfRead finds the one polynomial behind the members' shares.
func vfRead(nodes []*vfNode, f int) (*vfSharing, error) {
	if len(nodes) < f+1 {
		return nil, fmt.Errorf("harness: too few members")
	}
	s := &vfSharing{f: f, bi: make(vlib.BiPoly, f+1)}
	for i := range s.bi {
		s.bi[i] = make(vlib.Poly, 2*f+1)
	}
	var full []vlib.Poly
	for _, nd := range nodes {
		fs := vfVals(vfFullShare(nd.p))
		if len(fs) != 2*f+1 {
			return nil, fmt.Errorf("%s: the full share has %d coefficients", nd.name, len(fs))
		}
		full = append(full, fs)
	}
	for j := 0; j <= 2*f; j++ {
		var x, y []*big.Int
		for k := 0; k <= f; k++ {
			x = append(x, vlib.B(int64(nodes[k].idx+1)))
			y = append(y, full[k][j])
		}
		p := vlib.Interpolate(x, y)
		for i := 0; i <= f && i < len(p); i++ {
			s.bi[i][j] = p[i]
		}
		for i := range s.bi {
			if s.bi[i][j] == nil {
				s.bi[i][j] = new(big.Int)
			}
		}
	}
	for k, nd := range nodes {
		if !vlib.EqPoly(full[k], s.bi.AtX(vlib.B(int64(nd.idx+1)))) {
			return nil, fmt.Errorf("%s: its full share is not on the polynomial of degree %d of the others", nd.name, f)
		}
	}
	return s, nil
}

type vfWhat struct{ reduced, commits, witnesses bool }

// vfJudge checks that the members hold shares of one polynomial through the
// secret, and that the rest of their state fits it.
func vfJudge(nodes []*vfNode, f int, secret *big.Int, what vfWhat) (*vfSharing, error) {
	s, err := vfRead(nodes, f)
	if err != nil {
		return nil, err
	}
	if s.bi[0][0].Cmp(vlib.Mod(secret)) != 0 {
		return nil, fmt.Errorf("the shares are of %s, the secret is %s", s.bi[0][0], secret)
	}
	for _, nd := range nodes {
		if err := vfJudgeState(nd, s, what); err != nil {
			return nil, err
		}
	}
	return s, nil
}

func vfJudgeState(nd *vfNode, s *vfSharing, what vfWhat) error {
	p := nd.p
	if what.reduced {
		r := vfVals(vfReducedShare(p))
		if len(r) != s.f+1 || !vlib.EqPoly(r, s.bi.AtY(vlib.B(int64(nd.idx+1)))) {
			return fmt.Errorf("%s: its reduced share is not the slice of the shared polynomial at its index", nd.name)
		}
	}
	if what.commits {
		for j := 1; j <= 2*s.f+1; j++ {
			cb, _, _, _, _ := vfPiContent(p.Proof, j)
			if !bls.EqualG1(cb, vfG1(s.com(j))) {
				return fmt.Errorf("%s: its commitment %d is not that of the shared polynomial", nd.name, j)
			}
		}
	}
	if what.witnesses {
		w, wi := vfWitness(p), vfVals(vfWitnessIndexes(p))
		if len(w) < 2*s.f+1 || len(wi) < 2*s.f+1 {
			return fmt.Errorf("%s: it has %d witnesses at %d indexes", nd.name, len(w), len(wi))
		}
		seen := map[string]bool{}
		for k := 0; k < 2*s.f+1; k++ {
			if seen[wi[k].String()] {
				return fmt.Errorf("%s: two of its witnesses are for index %s", nd.name, wi[k])
			}
			seen[wi[k].String()] = true
			if !bls.EqualG1(&w[k], vfG1(s.wit(nd.idx+1, wi[k]))) {
				return fmt.Errorf("%s: its witness for index %s does not belong to the shared polynomial", nd.name, wi[k])
			}
		}
	}
	return nil
}

// ---- a handoff

type vfMember struct {
	Node int     `json:"node"`
	Muts []vfMut `json:"muts"`
	Seed uint64  `json:"seed"`
	Lie  *vfLie  `json:"lie,omitempty"`
}

// vfLie is one false story told in all messages of a member: its contribution
// is moved by D[k-1] in the k-th polynomial, in its commitments, the proofs
// and the values alike, as far as Fields says. Its new share is moved by New.
type vfLie struct {
	D      []int64 `json:"d"`
	Fields int     `json:"fields"` // 1 constant, 2 polynomial, 4 its blinding, 8 the proof of it, 16 the values, 32 their proofs
	New    int64   `json:"new"`
	NewF   int     `json:"newf"` // 1 commitment, 2 values, 4 proofs
}

type vfHandoffCase struct {
	F        int        `json:"f"`
	Secret   string     `json:"secret"`
	Seed     uint64     `json:"seed"`
	Dealt    bool       `json:"dealt"` // shares come from a dealing, not made by the harness
	Self     bool       `json:"self"`  // the committee hands over to itself
	WIdx     [][]int    `json:"widx"`  // indexes of the old members' witnesses
	Sched    vfSched    `json:"sched"`
	OldCrash []vfCrash  `json:"oldcrash"`
	NewCrash []vfCrash  `json:"newcrash"`
	OldByz   []vfMember `json:"oldbyz,omitempty"`
	NewByz   []vfMember `json:"newbyz,omitempty"`
	Lead     []int      `json:"lead,omitempty"` // leaders of the agreement
	Trace    bool       `json:"trace,omitempty"`
}

func vfGenF(rt *rapid.T) int {
	return rapid.SampledFrom([]int{1, 1, 1, 1, 1, 1, 1, 2}).Draw(rt, "f")
}

func vfGenIdx(rt *rapid.T, n, f int) [][]int {
	if rapid.Bool().Draw(rt, "plain") {
		return nil
	}
	var out [][]int
	for i := 0; i < n; i++ {
		p := vfPerm(vlib.NewRng(rapid.Uint64().Draw(rt, "widx")), n)
		for k := range p {
			p[k]++
		}
		out = append(out, p[:2*f+1])
	}
	return out
}

func vfGenHandoff(rt *rapid.T) vfHandoffCase {
	c := vfHandoffCase{F: vfGenF(rt), Seed: rapid.Uint64().Draw(rt, "seed"), Secret: vlib.ScalarGen().Draw(rt, "secret")}
	n := 3*c.F + 1
	c.Dealt = rapid.IntRange(0, 3).Draw(rt, "dealt") == 0
	c.Self = rapid.IntRange(0, 4).Draw(rt, "self") == 0
	if !c.Dealt {
		c.WIdx = vfGenIdx(rt, n, c.F)
	}
	c.Sched = vfGenSched(rt, n, vfKinds)
	c.OldCrash = vfGenCrashes(rt, "old", n, c.F, 8)
	if !c.Self {
		c.NewCrash = vfGenCrashes(rt, "new", n, c.F, 250)
	}
	return c
}

type vfRun struct {
	c        vfHandoffCase
	s        *vfSim
	old, new []*vfNode
	kr       *vfKeyring
	sharing  *vfSharing // of the old committee, when the harness made it
}

const vfPrepID = "shareReduce"
const vfProID = "ProactivizeAndShareDist"

// vfSetup builds the committees and gives the old one its sharing.
func vfSetup(c vfHandoffCase) (*vfRun, error) {
	r := &vfRun{c: c, s: vfNewSim(c.Sched)}
	r.s.trace = c.Trace
	secret := vlib.Big(c.Secret)
	kr := vfKeys(c.F)
	r.old = r.s.committee(0, uint32(c.F), kr.sk, kr.pk)
	r.new = r.old
	r.kr = kr
	if !c.Self {
		r.kr = vfKeys(c.F)
		r.new = r.s.committee(1, uint32(c.F), r.kr.sk, r.kr.pk)
	}
	r.s.next(r.old, r.new)
	r.s.leaders = r.kr.leaders([]byte(vfProID))
	if c.Dealt {
		if err := r.s.deal(r.old, secret, "vssshare"); err != nil {
			return nil, err
		}
	} else {
		r.sharing = vfRandSharing(vlib.NewRng(c.Seed), c.F, secret)
		for i, nd := range r.old {
			var idx []int
			if i < len(c.WIdx) {
				idx = c.WIdx[i]
			}
			vfInstall(nd.p, r.sharing, idx)
		}
	}
	vfCrashNodes(r.old, c.OldCrash)
	if !c.Self {
		vfCrashNodes(r.new, c.NewCrash)
	}
	for _, m := range c.OldByz {
		vfMakeByz(r.old[m.Node], m.Muts, m.Seed)
	}
	if !c.Self {
		for _, m := range c.NewByz {
			vfMakeByz(r.new[m.Node], m.Muts, m.Seed)
			r.new[m.Node].byz.lie = m.Lie
		}
	}
	return r, nil
}

// deal lets an honest dealer share the secret with the committee.
func (s *vfSim) deal(nodes []*vfNode, secret *big.Int, id string) error {
	f := nodes[0].p.F
	cl := &Client{}
	cl.SetSecret(vfFr(secret))
	e := make([]string, len(nodes))
	cl.HonestParty = NewHonestParty(0, 3*f+1, f, 0x7fffffff, e, e, e, e, nodes[0].p.SigPK, nil)
	d := &vfNode{p: cl.HonestParty, com: -1, idx: 0x7fffffff, limit: -1, name: "the dealer"}
	vfWire(d.p, d.link(nodes), nil, nil)
	s.nodes = append(s.nodes, d)
	d.start(func(*HonestParty) { cl.Share([]byte(id)) })
	for _, nd := range nodes {
		nd.start(func(p *HonestParty) { p.VSSShareReceive([]byte(id)) })
	}
	if err := s.run(); err != nil {
		return err
	}
	if u := vfUnfinished(append([]*vfNode{d}, nodes...)); u != "" {
		return fmt.Errorf("the dealing did not end at %s", u)
	}
	return nil
}

// handoff runs a whole handoff between the two committees.
func (r *vfRun) handoff(tag string) error {
	prep, red, pro := []byte(vfPrepID+tag), []byte(vfPrepID+tag), []byte(vfProID+tag)
	if r.c.Self {
		for _, nd := range r.old {
			nd.start(func(p *HonestParty) {
				p.PrepareSend(prep)
				p.PrepareReceive(prep)
				p.ShareReduceSend(red)
				p.ShareReduceReceive(red)
				p.ProactivizeAndShareDist(pro)
			})
		}
	} else {
		for _, nd := range r.old {
			nd.start(func(p *HonestParty) {
				p.PrepareSend(prep)
				p.ShareReduceSend(red)
			})
		}
		for _, nd := range r.new {
			nd.start(func(p *HonestParty) {
				p.PrepareReceive(prep)
				p.ShareReduceReceive(red)
				p.ProactivizeAndShareDist(pro)
			})
		}
	}
	if err := r.s.run(); err != nil {
		return err
	}
	if u := vfUnfinished(r.new); u != "" {
		return fmt.Errorf("all messages were received, but the handoff did not end at %s", u)
	}
	return nil
}
