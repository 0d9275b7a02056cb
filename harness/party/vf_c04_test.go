package party

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// Something a faulty old member sends to one new member, made by the harness.
type vfFalse struct {
	From   int    `json:"from"`
	To     int    `json:"to"` // -1 all
	Round  int    `json:"round"`
	Kind   string `json:"kind"` // Prepare or ShareReduce
	What   string `json:"what"`
	Arg    int    `json:"arg"`
	Times  int    `json:"times"`
	Sender int    `json:"sender"` // -1 its own number
}

type vfTransferCase struct {
	H      vfHandoffCase `json:"h"`
	Rounds int           `json:"rounds"` // transfers one after the other, of different sharings
	Mute   bool          `json:"mute"`   // the faulty members send only what the harness makes
	False  []vfFalse     `json:"false,omitempty"`
}

func vfGenTransfer(rt *rapid.T) vfTransferCase {
	c := vfTransferCase{Rounds: rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "rounds"), Mute: rapid.Bool().Draw(rt, "mute")}
	h := &c.H
	h.F = rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(rt, "f")
	h.Seed, h.Secret = rapid.Uint64().Draw(rt, "seed"), vlib.ScalarGen().Draw(rt, "secret")
	n := 3*h.F + 1
	h.Self = rapid.IntRange(0, 5).Draw(rt, "self") == 0
	h.WIdx = vfGenIdx(rt, n, h.F)
	h.Sched = vfGenSched(rt, n, []string{"", "Prepare", "ShareReduce"})
	bad := vfGenSubset(rt, "bad", n, h.F)
	for _, x := range bad {
		switch rapid.IntRange(0, 4).Draw(rt, "badkind") {
		case 0:
			h.OldCrash = append(h.OldCrash, vfCrash{Node: x, After: rapid.IntRange(0, 2*n).Draw(rt, "after")})
		case 1:
			h.OldByz = append(h.OldByz, vfMember{Node: x, Seed: rapid.Uint64().Draw(rt, "byzseed"),
				Muts: vfGenMuts(rt, n, []string{"Prepare", "ShareReduce"}, append(append([]string{}, vfValueOps...), vfWholeOps...))})
		default:
			for k := rapid.IntRange(1, 4).Draw(rt, "falses"); k > 0; k-- {
				f := vfFalse{From: x, To: -1, Round: rapid.IntRange(0, c.Rounds-1).Draw(rt, "round"), Sender: -1,
					Kind: rapid.SampledFrom([]string{"Prepare", "ShareReduce", "ShareReduce"}).Draw(rt, "kind"),
					Arg:  rapid.IntRange(0, 20).Draw(rt, "arg"), Times: rapid.SampledFrom([]int{1, 1, 2, h.F + 1, n}).Draw(rt, "times")}
				if rapid.IntRange(0, 2).Draw(rt, "one") == 0 {
					f.To = rapid.IntRange(0, n-1).Draw(rt, "to")
				}
				if f.Kind == "Prepare" {
					f.What = rapid.SampledFrom([]string{"fake", "one", "true", "permuted", "none", "stale"}).Draw(rt, "what")
				} else {
					f.What = rapid.SampledFrom([]string{"fake", "fake", "true", "value", "commitment", "negated", "negated", "column", "index", "witness", "stale"}).Draw(rt, "what")
				}
				if rapid.IntRange(0, 5).Draw(rt, "foreign") == 0 {
					f.Sender = rapid.SampledFrom([]int{n, n + 1, 0x7fffffff, 0xffffffff}).Draw(rt, "sender")
				}
				c.False = append(c.False, f)
			}
		}
	}
	return c
}

func vfFalseMsg(f vfFalse, to int, sh, fake, other *vfSharing) []byte {
	n := 3*sh.f + 1
	i, y := vlib.B(int64(f.From+1)), vlib.B(int64(to+1))
	var pm proto.Message
	if f.Kind == "Prepare" {
		m := &protobuf.Prepare{Commitments: [][]byte{{}}}
		for j := 1; j <= 2*sh.f+1; j++ {
			e := sh.com(j)
			switch f.What {
			case "fake":
				e = fake.com(j)
			case "stale":
				e = other.com(j)
			case "one":
				if j == f.Arg%(2*sh.f+1)+1 {
					e = vlib.Add(e, vlib.B(1))
				}
			case "permuted":
				e = sh.com(j%(2*sh.f+1) + 1)
			case "none":
				e = new(big.Int)
			}
			m.Commitments = append(m.Commitments, vfG1Bytes(e))
		}
		if f.What == "none" && f.Arg%2 == 0 {
			m.Commitments = nil
		}
		pm = m
	} else {
		s := sh
		col, x := to+1, i
		switch f.What {
		case "fake":
			s = fake
		case "stale":
			s = other
		case "column":
			col = f.Arg%n + 1
		case "index":
			x = vlib.B(int64(f.Arg%n + 1))
		}
		y = vlib.B(int64(col))
		c, v := s.com(col), s.at(x, y)
		w := vlib.Mul(vlib.Sub(c, v), vlib.Inv(vlib.Sub(vfTau, x)))
		switch f.What {
		case "value": // false, and the proof with it
			v = vlib.Add(v, vlib.B(int64(f.Arg+1)))
		case "commitment": // a commitment of which the value and the proof are true
			v = vlib.Add(v, vlib.B(int64(f.Arg+1)))
			c = vlib.Add(v, vlib.Mul(w, vlib.Sub(vfTau, x)))
		case "negated": // another sharing, of which the commitment differs in one bit of its encoding only
			c, v, w = vlib.Sub(vlib.B(0), c), vlib.Sub(vlib.B(0), v), vlib.Sub(vlib.B(0), w)
		case "witness":
			w = vlib.Add(w, vlib.B(1))
		}
		pm = &protobuf.ShareReduce{C: vfG1Bytes(c), V: vfToLE(v), W: vfG1Bytes(w)}
	}
	b, err := proto.Marshal(pm)
	if err != nil {
		panic(err)
	}
	return b
}

func vfRunTransfer(c vfTransferCase, o *vlib.Obs) error {
	r, err := vfSetup(c.H)
	if err != nil {
		return err
	}
	o.Class("f=%d", c.H.F)
	o.Class("rounds %d", c.Rounds)
	o.NonTrivial = len(c.H.OldCrash)+len(c.H.OldByz)+len(c.False) > 0 || c.Rounds > 1
	var sh []*vfSharing
	for k := 0; k < c.Rounds; k++ {
		s := r.sharing
		if k > 0 {
			s = vfRandSharing(vlib.NewRng(c.H.Seed+uint64(k)), c.H.F, vlib.Big(c.H.Secret))
		}
		sh = append(sh, s)
	}
	fake := vfRandSharing(vlib.NewRng(c.H.Seed^0xfa4e), c.H.F, vlib.B(4711))
	id := func(k int) []byte { return []byte(fmt.Sprintf("%s%d", vfPrepID, k)) }
	for _, f := range c.False {
		nd := r.old[f.From]
		nd.faulty = true
		if c.Mute && !c.H.Self {
			nd.silent = true
		}
		for to := range r.new {
			if f.To >= 0 && f.To != to {
				continue
			}
			data := vfFalseMsg(f, to, sh[f.Round], fake, sh[(f.Round+1)%len(sh)])
			sender := uint32(f.From)
			if f.Sender >= 0 {
				sender = uint32(f.Sender)
			}
			for k := 0; k < f.Times; k++ {
				r.s.inject(nd, r.new[to], &protobuf.Message{Type: f.Kind, Id: id(f.Round), Sender: sender, Data: data})
			}
			o.Class("%s %s", f.Kind, f.What)
		}
	}
	states := make([][]string, len(r.new))
	send := func(p *HonestParty, k int) {
		if k > 0 {
			vfInstall(p, sh[k], nil)
		}
		p.PrepareSend(id(k))
		p.ShareReduceSend(id(k))
	}
	receive := func(nd *vfNode, p *HonestParty, k int) {
		p.PrepareReceive(id(k))
		p.ShareReduceReceive(id(k))
		if err := vfJudgeState(nd, sh[k], vfWhat{reduced: true, commits: true}); err != nil && !nd.faulty {
			states[nd.idx] = append(states[nd.idx], fmt.Sprintf("transfer %d: %v", k, err))
		}
	}
	for _, nd := range r.new {
		nd := nd
		nd.start(func(p *HonestParty) {
			for k := 0; k < c.Rounds; k++ {
				if c.H.Self {
					send(p, k)
				}
				receive(nd, p, k)
			}
		})
	}
	if !c.H.Self {
		for _, nd := range r.old {
			nd.start(func(p *HonestParty) {
				for k := 0; k < c.Rounds; k++ {
					send(p, k)
				}
			})
		}
	}
	if err := r.s.run(); err != nil {
		return err
	}
	for _, st := range states {
		if len(st) > 0 {
			return fmt.Errorf("%s", st[0])
		}
	}
	if u := vfUnfinished(r.new); u != "" {
		return fmt.Errorf("all messages were received, but the transfer did not end at %s", u)
	}
	// the old members keep what they had
	for _, nd := range vfHonest(r.old) {
		if !c.H.Self && !vlib.EqPoly(vfVals(vfFullShare(nd.p)), sh[len(sh)-1].bi.AtX(vlib.B(int64(nd.idx+1)))) {
			return fmt.Errorf("%s: sending changed its share", nd.name)
		}
	}
	return nil
}

func TestVF_C04_Transfer(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C04", Quick: 900, Thorough: 20000, Isolated: true}, vfGenTransfer, vfRunTransfer)
}
