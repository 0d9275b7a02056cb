package party

import (
	"bytes"
	"strconv"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

var vfNewKinds = []string{"Commit", "Commit", "Reshare", "Reshare", "Recover", "Recover", "NewCommit", "ShareDist", "ShareDist", "Success",
	"RBCPropose", "RBCEcho", "RBCReady", "Value", "Echo", "Finish", "Done", "PreVote", "Vote", "Halt"}

func vfJudgeHandoff(c vfHandoffCase, r *vfRun) error {
	_, err := vfJudge(vfHonest(r.new), c.F, vlib.Big(c.Secret), vfWhat{reduced: true, commits: true, witnesses: true})
	return err
}

func vfGenByzHandoff(rt *rapid.T, kinds, ops []string) vfHandoffCase {
	c := vfGenHandoff(rt)
	c.NewCrash, c.Self, c.Dealt = nil, false, false
	n := 3*c.F + 1
	bad := vfGenSubset(rt, "bad", n, c.F)
	if len(bad) == 0 {
		bad = []int{rapid.IntRange(0, n-1).Draw(rt, "onebad")}
	}
	for _, x := range bad {
		c.NewByz = append(c.NewByz, vfMember{Node: x, Muts: vfGenMuts(rt, n, kinds, ops), Seed: rapid.Uint64().Draw(rt, "byzseed")})
	}
	if rapid.Bool().Draw(rt, "fast") { // what the faulty members send arrives first
		c.Sched.Rules = nil
		for _, x := range bad {
			c.Sched.Rules = append(c.Sched.Rules, vfRule{From: x, To: -1, Inst: -1, View: -1, Stage: -1})
		}
		c.Sched.Rules = append(c.Sched.Rules, vfRule{From: -1, To: -1, Inst: -1, View: -1, Stage: -1, Prio: 1})
	}
	return c
}

func vfRunByzHandoff(c vfHandoffCase, o *vlib.Obs) error {
	r, err := vfSetup(c)
	if err != nil {
		return err
	}
	o.NonTrivial = true
	o.Class("f=%d", c.F)
	for _, m := range c.NewByz {
		for _, x := range m.Muts {
			o.Class("%s", x.Kind)
		}
	}
	tag := ""
	if len(c.Lead) > 0 { // the coin falls on a member that we choose
		tag = string(r.kr.findID(vfProID, c.Lead)[len(vfProID):])
	}
	if err := r.handoff(tag); err != nil {
		return err
	}
	return vfJudgeHandoff(c, r)
}

func TestVF_C06_Altered(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C06", Quick: 110, Thorough: 10000, Isolated: true}, func(rt *rapid.T) vfHandoffCase {
		return vfGenByzHandoff(rt, vfNewKinds, append(append([]string{}, vfValueOps...), vfWholeOps...))
	}, vfRunByzHandoff)
}

// ---- one false story told everywhere

// vfGenLie makes a lie that most of the checks at the receivers agree with.
func vfGenLie(rt *rapid.T, f int) *vfLie {
	l := &vfLie{}
	d := rapid.Int64Range(1, 5)
	switch rapid.SampledFrom([]int{0, 1, 2, 3, 4, 4}).Draw(rt, "shape") {
	case 0: // all alike
		v := d.Draw(rt, "d")
		for k := 0; k <= 2*f; k++ {
			l.D = append(l.D, v)
		}
	case 1: // one polynomial only
		l.D = make([]int64, 2*f+1)
		l.D[rapid.IntRange(0, 2*f).Draw(rt, "k")] = d.Draw(rt, "d")
	case 2:
		for k := 0; k <= 2*f; k++ {
			l.D = append(l.D, rapid.Int64Range(-3, 3).Draw(rt, "d"))
		}
	case 3: // a polynomial in k with 0 at 0: no lie, a different contribution
		v := d.Draw(rt, "d")
		for k := 0; k <= 2*f; k++ {
			l.D = append(l.D, v*int64(k+1))
		}
	case 4: // two polynomials, so that their sum is right
		v := d.Draw(rt, "d")
		l.D = make([]int64, 2*f+1)
		p := rapid.Permutation(vfRange(2*f+1)).Draw(rt, "two")
		l.D[p[0]], l.D[p[1]] = v, -v
		l.Fields = rapid.SampledFrom([]int{16, 16, 16, 32, 16 + 32, 8, 4 + 8, 2, 1, 2 + 4}).Draw(rt, "which")
		return l
	}
	l.Fields = rapid.SampledFrom([]int{2 + 16, 2 + 16, 2 + 16, 2 + 4 + 16, 2 + 4 + 16, 2 + 4 + 8 + 16, 1 + 2 + 16, 1 + 2 + 16, 1 + 2 + 16,
		1 + 2 + 4 + 16, 1, 4 + 8, 16, 16 + 32, 1 + 4, 2}).Draw(rt, "fields")
	if rapid.IntRange(0, 2).Draw(rt, "again") == 0 {
		l.New = d.Draw(rt, "new")
		l.NewF = rapid.SampledFrom([]int{3, 3, 3, 1, 2, 7, 6}).Draw(rt, "newf")
	}
	return l
}

func TestVF_C06_Lies(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C06", Quick: 70, Thorough: 6000, Isolated: true}, func(rt *rapid.T) vfHandoffCase {
		c := vfGenByzHandoff(rt, []string{"Success"}, []string{"late"})
		c.OldCrash = nil
		for i := range c.NewByz {
			c.NewByz[i].Muts = nil
			c.NewByz[i].Lie = vfGenLie(rt, c.F)
		}
		if rapid.IntRange(0, 3).Draw(rt, "first") != 0 {
			// the liars are ahead in everything up to the agreement
			bad := c.NewByz
			c.Sched.Rules = nil
			for _, m := range bad {
				c.Sched.Rules = append(c.Sched.Rules, vfRule{From: m.Node, To: -1, Inst: -1, View: -1, Stage: -1},
					vfRule{From: -1, To: -1, Inst: m.Node, View: -1, Stage: -1})
			}
			c.Sched.Rules = append(c.Sched.Rules, vfRule{From: -1, To: -1, Inst: -1, View: -1, Stage: -1, Prio: 1})
		}
		// a lie that hurts only some comes out when another member's set is chosen
		var lead []int
		for x := 0; x <= 3*c.F; x++ {
			hurt := false
			for _, m := range c.NewByz {
				hurt = hurt || m.Node == x || x < len(m.Lie.D) && m.Lie.D[x] != 0
			}
			if !hurt {
				lead = append(lead, x)
			}
		}
		if len(lead) > 0 && rapid.IntRange(0, 2).Draw(rt, "chosen") > 0 {
			c.Lead = []int{rapid.SampledFrom(lead).Draw(rt, "leader")}
		}
		return c
	}, func(c vfHandoffCase, o *vlib.Obs) error {
		for _, m := range c.NewByz {
			o.Class("fields %d", m.Lie.Fields)
		}
		return vfRunByzHandoff(c, o)
	})
}

// ---- what a faulty member proposes to the agreement

type vfEvil struct {
	Js   []int    `json:"js"`
	Sig  string   `json:"sig"`            // true, stale, plain, random, missing, swapped
	Sigs []string `json:"sigs,omitempty"` // of the single entries, when they differ
	Prop bool     `json:"prop"`
}

type vfEvilCase struct {
	H     vfHandoffCase `json:"h"`
	Evil  []vfEvil      `json:"evil"`
	Plan  []vfSend      `json:"plan"`
	Lead  []int         `json:"lead"`
	Quiet bool          `json:"quiet"` // the faulty members take no part in the rest
}

// value is the set of contributions as it is proposed; signed tells of which
// members a quorum signs the resharing.
func (e vfEvil) value(r *vfRun, id []byte, signed func(j int) bool) []byte {
	in := &protobuf.MVBAIN{}
	for k, j := range e.Js {
		in.J = append(in.J, uint32(j))
		num := strconv.Itoa(j)
		var sig []byte
		how := e.Sig
		if k < len(e.Sigs) {
			how = e.Sigs[k]
		}
		if (how == "true" || how == "swapped") && !signed(j) {
			how = "random"
		}
		switch how {
		case "true":
			sig = r.kr.master([]byte(string(id) + "_reshare," + num))
		case "stale":
			sig = r.kr.master([]byte(vfProID + "old_reshare," + num))
		case "plain":
			sig = r.kr.master([]byte(num))
		case "random":
			sig = vlib.NewRng(uint64(k)).Bytes(48)
		case "swapped":
			sig = r.kr.master([]byte(string(id) + "_reshare," + strconv.Itoa(j%(3*r.c.F+1)+1)))
		case "missing":
			continue
		}
		in.Sig = append(in.Sig, sig)
	}
	b, err := proto.Marshal(in)
	if err != nil {
		panic(err)
	}
	if e.Prop {
		b = append(b, 0xff)
	}
	return b
}

func TestVF_C06_Proposals(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C06", Quick: 60, Thorough: 6000, Isolated: true}, func(rt *rapid.T) vfEvilCase {
		c := vfEvilCase{H: vfGenHandoff(rt)}
		h := &c.H
		h.NewCrash, h.OldCrash, h.Self, h.Dealt = nil, nil, false, false
		n := 3*h.F + 1
		bad := rapid.Permutation(vfRange(n)).Draw(rt, "bad")[:h.F]
		c.Quiet = rapid.Bool().Draw(rt, "quiet")
		for _, x := range bad {
			h.NewByz = append(h.NewByz, vfMember{Node: x, Seed: rapid.Uint64().Draw(rt, "byzseed")})
		}
		c.Lead = []int{rapid.SampledFrom(bad).Draw(rt, "l0"), rapid.OneOf(rapid.Just(-1), rapid.SampledFrom(bad)).Draw(rt, "l1")}
		nv := rapid.IntRange(1, 4).Draw(rt, "values")
		for k := 0; k < nv; k++ {
			e := vfEvil{Sig: rapid.SampledFrom([]string{"true", "true", "true", "stale", "plain", "random", "missing", "swapped"}).Draw(rt, "sig"), Prop: rapid.IntRange(0, 9).Draw(rt, "prop") == 0}
			m := rapid.SampledFrom([]int{h.F + 1, h.F + 1, h.F, 0, 1, n, 2*h.F + 1}).Draw(rt, "count")
			e.Js = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, n), rapid.IntRange(1, n), rapid.IntRange(1, n), rapid.SampledFrom([]int{0, n + 1, 1 << 20, 1<<32 - 1})), m, m).Draw(rt, "js")
			if rapid.Bool().Draw(rt, "valid") { // true signatures, of honest members
				e.Js = nil
				for _, x := range rapid.Permutation(vfRange(n)).Draw(rt, "vj") {
					if !vfIn(bad, x) && len(e.Js) < m {
						e.Js = append(e.Js, x+1)
					}
				}
			}
			// sets that are nearly right
			honest := []int{}
			for _, x := range rapid.Permutation(vfRange(n)).Draw(rt, "ho") {
				if !vfIn(bad, x) {
					honest = append(honest, x+1)
				}
			}
			switch rapid.SampledFrom([]string{"", "", "repeat", "repeat", "extra", "extra", "few"}).Draw(rt, "nearly") {
			case "repeat": // too few, or enough, with repetitions
				e.Sig, e.Prop = "true", false
				e.Js = append([]int{}, honest[:rapid.IntRange(1, h.F+1).Draw(rt, "distinct")]...)
				for m := rapid.IntRange(1, h.F+1).Draw(rt, "more"); m > 0; m-- {
					e.Js = append(e.Js, rapid.SampledFrom(e.Js).Draw(rt, "again"))
				}
			case "extra": // enough, and one that is wrong
				e.Sig, e.Prop = "true", false
				e.Js = append([]int{}, honest[:h.F+1]...)
				for range e.Js {
					e.Sigs = append(e.Sigs, "true")
				}
				at := rapid.SampledFrom([]int{0, h.F + 1, h.F + 1, h.F + 1}).Draw(rt, "at")
				j := rapid.OneOf(rapid.SampledFrom(bad), rapid.Just(honest[h.F+1]-1), rapid.SampledFrom([]int{-1, n, 1<<32 - 2})).Draw(rt, "extra") + 1
				e.Js = append(append(append([]int{}, e.Js[:at]...), j), e.Js[at:]...)
				e.Sigs = append(append(append([]string{}, e.Sigs[:at]...), rapid.SampledFrom([]string{"stale", "plain", "random", "swapped"}).Draw(rt, "extrasig")), e.Sigs[at:]...)
			case "few":
				e.Sig, e.Prop = "true", false
				e.Js = append([]int{}, honest[:h.F]...)
			}
			c.Evil = append(c.Evil, e)
		}
		// a plan that gets its value through when it is accepted
		c.Plan = vfGenPlan(rt, n, h.F, nv)
		for v := range c.Lead {
			c.Plan = append(c.Plan, vfSend{Kind: "Value1", View: v, Just: "chain", Inst: -1}, vfSend{Kind: "Value2", View: v, Inst: -1},
				vfSend{Kind: "Finish", View: v, Inst: -1}, vfSend{Kind: "Done", View: v, Inst: -1})
		}
		if rapid.Bool().Draw(rt, "first") {
			h.Sched.Rules = nil
			for _, x := range bad {
				for _, k := range vfMVBAKinds[1:] {
					h.Sched.Rules = append(h.Sched.Rules, vfRule{Kind: k, From: x, To: -1, Inst: -1, View: -1, Stage: -1})
				}
			}
			for _, k := range []string{"Value", "Echo"} { // the leader gets ahead
				h.Sched.Rules = append(h.Sched.Rules, vfRule{Kind: k, From: -1, To: -1, Inst: -1, View: -1, Stage: -1, Prio: 2},
					vfRule{Kind: k, From: -1, To: bad[0], Inst: -1, View: -1, Stage: -1, Prio: 1})
			}
		}
		return c
	}, func(c vfEvilCase, o *vlib.Obs) error {
		r, err := vfSetup(c.H)
		if err != nil {
			return err
		}
		id := r.kr.findID(vfProID, c.Lead)
		tag := string(id[len(vfProID):])
		r.s.leaders = r.kr.leaders(id)
		var vals [][]byte
		var bad []int
		for _, m := range c.H.NewByz {
			bad = append(bad, m.Node)
		}
		for _, e := range c.Evil {
			vals = append(vals, e.value(r, id, func(j int) bool { return j >= 1 && j <= 3*c.H.F+1 && !(c.Quiet && vfIn(bad, j-1)) }))
			o.Class("%s", e.Sig)
		}
		o.NonTrivial = true
		a := vfNewActor(r.s, r.kr, id, r.new, bad, vals, c.Plan)
		a.hook()
		// which of its values gets decided
		decided := map[int]bool{}
		prev := r.s.onRecv
		r.s.onRecv = func(e *vfEnv) {
			prev(e)
			if e.kind == "Halt" && e.from != nil && !e.from.faulty {
				var h protobuf.Halt
				if proto.Unmarshal(e.m.Data, &h) == nil {
					k := -1
					for i, v := range vals {
						if bytes.Equal(v, h.Value) {
							k = i
						}
					}
					decided[k] = true
				}
			}
		}
		if !c.Quiet {
			for _, x := range bad {
				nd := r.new[x]
				nd.silent = false
				nd.byz.muts = nil
				for _, k := range vfMVBAKinds[1:] {
					nd.byz.muts = append(nd.byz.muts, vfMut{Kind: k, Op: "drop", Prob: 8})
				}
			}
		}
		if err := r.handoff(tag); err != nil {
			return err
		}
		for k := range decided {
			if k < 0 {
				o.Class("an honest member's value decided")
			} else {
				o.Class("a faulty member's value decided")
			}
		}
		o.Note("sent", "%d of %d", vfCount(a.sent), len(a.sent))
		return vfJudgeHandoff(c.H, r)
	})
}

func vfCount(b []bool) int {
	n := 0
	for _, x := range b {
		if x {
			n++
		}
	}
	return n
}
