package party

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// Malformed content in every part of the protocol. A member that crashes ends
// the process of its case.

func vfBadOps() []string {
	return append(append(append([]string{}, vfShapeOps...), vfBytesOps...), "num", "zero", "drop", "dup")
}

type vfBadDealing struct {
	F     int     `json:"f"`
	Seed  uint64  `json:"seed"`
	Muts  []vfMut `json:"muts"`
	Again bool    `json:"again"` // an honest dealing follows
	Sched vfSched `json:"sched"`
}

func TestVF_C22_Dealing(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C22", Quick: 250, Thorough: 20000, Isolated: true}, func(rt *rapid.T) vfBadDealing {
		c := vfBadDealing{F: rapid.IntRange(1, 2).Draw(rt, "f"), Seed: rapid.Uint64().Draw(rt, "seed"), Again: rapid.Bool().Draw(rt, "again")}
		c.Muts = vfGenMuts(rt, 3*c.F+1, []string{"VSSSend"}, vfBadOps()[:14])
		for i := range c.Muts {
			c.Muts[i].Leaf = rapid.IntRange(0, 60).Draw(rt, "leaf2")
		}
		c.Sched = vfGenSched(rt, 3*c.F+1, []string{"", "VSSSend"})
		return c
	}, func(c vfBadDealing, o *vlib.Obs) error {
		s := vfNewSim(c.Sched)
		nodes := s.committee(0, uint32(c.F), nil, nil)
		o.NonTrivial = true
		b := &vfByz{muts: c.Muts, rng: vlib.NewRng(c.Seed), seen: map[string][]*protobuf.Message{}}
		for _, m := range c.Muts {
			o.Class("%s", m.Op)
		}
		altered := map[int]bool{}
		s.onSend = func(e *vfEnv) []*vfEnv {
			before := string(e.m.Data)
			out := b.apply(s, e)
			if string(e.m.Data) != before {
				altered[e.to.idx] = true
			}
			return out
		}
		first := vlib.B(1234567)
		if err := s.deal(nodes, first, "vssshare"); err != nil {
			return err
		}
		var ok []*vfNode
		for _, nd := range nodes {
			if !altered[nd.idx] {
				ok = append(ok, nd)
			}
		}
		if len(ok) >= c.F+2 {
			if _, err := vfJudge(ok, c.F, first, vfWhat{commits: true, witnesses: true}); err != nil {
				return err
			}
		}
		if c.Again {
			s.onSend = nil
			if err := s.deal(nodes, vlib.B(99), "again"); err != nil {
				return err
			}
			_, err := vfJudge(nodes, c.F, vlib.B(99), vfWhat{commits: true, witnesses: true})
			return err
		}
		return nil
	})
}

func TestVF_C22_Transfer(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C22", Quick: 200, Thorough: 10000, Isolated: true}, func(rt *rapid.T) vfTransferCase {
		c := vfGenTransfer(rt)
		c.False, c.H.OldCrash, c.H.OldByz = nil, nil, nil
		n := 3*c.H.F + 1
		bad := rapid.Permutation(vfRange(n)).Draw(rt, "bad")[:c.H.F]
		for _, x := range bad {
			c.H.OldByz = append(c.H.OldByz, vfMember{Node: x, Seed: rapid.Uint64().Draw(rt, "byzseed"), Muts: vfBeside(rt, vfGenMuts(rt, n, []string{"Prepare", "ShareReduce"}, vfBadOps()))})
		}
		if rapid.IntRange(0, 2).Draw(rt, "fast") > 0 {
			vfFast(&c.H.Sched, bad)
		}
		return c
	}, vfRunTransfer)
}

// vfFast has what these members send arrive before the rest.
func vfFast(s *vfSched, bad []int) {
	s.Rules, s.Slow = nil, nil
	for _, x := range bad {
		s.Rules = append(s.Rules, vfRule{From: x, To: -1, Inst: -1, View: -1, Stage: -1})
	}
	s.Rules = append(s.Rules, vfRule{From: -1, To: -1, Inst: -1, View: -1, Stage: -1, Prio: 1})
}

func TestVF_C22_Broadcast(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C22", Quick: 500, Thorough: 20000, Isolated: true}, func(rt *rapid.T) vfRBCCase {
		c := vfGenRBC(rt)
		n := 3*c.F + 1
		if len(c.Faulty) == 0 {
			c.Faulty, c.Crash = []int{rapid.IntRange(0, n-1).Draw(rt, "bad")}, nil
		}
		for k := rapid.IntRange(1, 10).Draw(rt, "junk"); k > 0; k-- {
			c.Acts = append(c.Acts, vfRBCAct{
				Kind: rapid.SampledFrom([]string{"RBCPropose", "RBCEcho", "RBCReady"}).Draw(rt, "kind"),
				From: rapid.IntRange(0, c.F-1).Draw(rt, "who"), Inst: rapid.IntRange(0, len(c.Insts)-1).Draw(rt, "inst"),
				Frag: rapid.SampledFrom([]string{"right", "wrong", "short", "long", "empty"}).Draw(rt, "frag"),
				Hash: rapid.SampledFrom([]string{"right", "wrong", "short", "empty", "len"}).Draw(rt, "hash"),
				Rep:  1, Arg: rapid.IntRange(0, 255).Draw(rt, "arg"), Junk: rapid.IntRange(0, 3000).Draw(rt, "bytes"),
			})
		}
		if rapid.Bool().Draw(rt, "fast") {
			vfFast(&c.Sched, c.Faulty)
		}
		return c
	}, vfRunRBC)
}

func TestVF_C22_Agreement(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C22", Quick: 120, Thorough: 8000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		c := vfGenMVBA(rt, "muts")
		n := 3*c.F + 1
		c.Byz = nil
		bad := rapid.Permutation(vfRange(n)).Draw(rt, "bad")[:c.F]
		for _, x := range bad {
			c.Byz = append(c.Byz, vfMember{x, vfBeside(rt, vfGenMuts(rt, n, vfMVBAKinds, vfBadOps())), rapid.Uint64().Draw(rt, "byzseed"), nil})
		}
		if rapid.Bool().Draw(rt, "lead") {
			c.Leaders = []int{bad[0]}
		}
		if rapid.IntRange(0, 2).Draw(rt, "fast") > 0 {
			vfFast(&c.Sched, bad)
		}
		return c
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = true
		return vfRunMVBA(c, o, true)
	})
}

func TestVF_C22_Handoff(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C22", Quick: 90, Thorough: 8000, Isolated: true}, func(rt *rapid.T) vfHandoffCase {
		c := vfGenByzHandoff(rt, vfNewKinds, vfBadOps())
		c.OldCrash = nil
		n := 3*c.F + 1
		for i := range c.NewByz {
			c.NewByz[i].Muts = vfBeside(rt, c.NewByz[i].Muts)
		}
		for _, x := range vfGenSubset(rt, "oldbad", n, c.F) {
			c.OldByz = append(c.OldByz, vfMember{Node: x, Seed: rapid.Uint64().Draw(rt, "oldseed"), Muts: vfBeside(rt, vfGenMuts(rt, n, []string{"Prepare", "ShareReduce"}, vfBadOps()))})
		}
		return c
	}, vfRunByzHandoff)
}
