package party

import (
	"bytes"
	"fmt"
	"sync"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// Several agreements and broadcasts among the same members, at once or one
// after the other, under names that resemble each other. What faulty members
// send in one of them they send in others too.

type vfManyCase struct {
	F       int      `json:"f"`
	Names   [][]byte `json:"names"`
	Agree   int      `json:"agree"` // the first ones are agreements
	Senders []int    `json:"senders"`
	InTurn  bool     `json:"inTurn"` // each member begins an agreement when it has finished the one before
	Bad     []int    `json:"bad,omitempty"`
	Ops     []vfMix  `json:"ops,omitempty"`
	Crash   []vfCrash
	Sched   vfSched `json:"sched"`
	Seed    uint64  `json:"seed"`
}

// vfMix is what becomes of a faulty member's messages of one kind.
type vfMix struct {
	Kind string `json:"kind"`
	How  string `json:"how"` // also: sent in another instance as well; instead: only there; body: another instance's content
	Inst int    `json:"inst"`
	To   int    `json:"to"` // -1: to all
}

func (c vfManyCase) value(inst, i int) []byte {
	return []byte(fmt.Sprintf("value %d of instance %d, %x", i, inst, c.Seed))
}

// vfGenNames draws different names: extensions of each other by what the code
// appends, kinds of messages, the empty name.
func vfGenNames(rt *rapid.T, k int) [][]byte {
	base := vlib.NewRng(rapid.Uint64().Draw(rt, "base")).Bytes(rapid.OneOf(rapid.IntRange(1, 7), rapid.IntRange(1, 7), rapid.SampledFrom([]int{32, 64, 128, 300})).Draw(rt, "len"))
	var names [][]byte
	for len(names) < k {
		b := append([]byte{}, base...)
		switch rapid.IntRange(0, 9).Draw(rt, "name") {
		case 0:
		case 1:
			b = append(b, 0, 0, 0, byte(rapid.IntRange(0, 3).Draw(rt, "view")))
		case 2:
			b = append(b, 0, 0, 0, 0, 0, 0, 0, byte(rapid.IntRange(0, 3).Draw(rt, "member")))
		case 3:
			b = append(b, 0, 0, 0, 0, 0, 0, 0, 1, byte(rapid.IntRange(0, 2).Draw(rt, "stage")))
		case 4:
			b = append(b, byte(rapid.IntRange(0, 255).Draw(rt, "more")))
		case 5:
			b = b[:len(b)-1]
		case 6:
			b[rapid.OneOf(rapid.Just(len(b)-1), rapid.IntRange(0, len(b)-1)).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "flip"))
		case 7:
			b = append([]byte(rapid.SampledFrom([]string{"Echo", "Done", "Value", "RBCEcho", "Unlock"}).Draw(rt, "kind")), b...)
		case 8:
			b = append(b, b...)
		case 9:
			b = nil
		}
		fresh := true
		for _, x := range names {
			fresh = fresh && !bytes.Equal(x, b)
		}
		if fresh {
			names = append(names, b)
		} else {
			base = append(base, byte(len(base)))
		}
	}
	return names
}

func vfGenMany(rt *rapid.T) vfManyCase {
	c := vfManyCase{F: 1, Seed: rapid.Uint64().Draw(rt, "seed"), InTurn: rapid.IntRange(0, 2).Draw(rt, "turn") == 0}
	if rapid.IntRange(0, 9).Draw(rt, "f") == 0 {
		c.F = 2
	}
	n := 3*c.F + 1
	c.Agree = rapid.IntRange(1, 3).Draw(rt, "agree")
	casts := rapid.IntRange(0, 3).Draw(rt, "casts")
	if c.Agree == 1 && casts == 0 {
		casts = 2
	}
	c.Names = vfGenNames(rt, c.Agree+casts)
	if casts > 0 && rapid.Bool().Draw(rt, "same") { // a broadcast and an agreement may share a name
		c.Names[c.Agree] = c.Names[0]
	}
	for i := 0; i < casts; i++ {
		c.Senders = append(c.Senders, rapid.IntRange(0, n-1).Draw(rt, "sender"))
	}
	c.Bad = vfGenSubset(rt, "bad", n, c.F)
	if len(c.Bad) > 0 {
		for k := rapid.IntRange(1, 5).Draw(rt, "ops"); k > 0; k-- {
			c.Ops = append(c.Ops, vfMix{
				Kind: rapid.SampledFrom([]string{"", "", "Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote", "RBCPropose", "RBCEcho", "RBCReady"}).Draw(rt, "mixkind"),
				How:  rapid.SampledFrom([]string{"also", "also", "first", "instead", "body"}).Draw(rt, "how"),
				Inst: rapid.IntRange(0, len(c.Names)-1).Draw(rt, "inst"),
				To:   rapid.IntRange(-1, n-1).Draw(rt, "to"),
			})
		}
	} else if rapid.Bool().Draw(rt, "crashes") {
		c.Crash = vfGenCrashes(rt, "crash", n, c.F, 120)
	}
	c.Sched = vfGenSched(rt, n, vfMVBAKinds)
	return c
}

func vfRunMany(c vfManyCase, o *vlib.Obs) error {
	n := 3*c.F + 1
	s := vfNewSim(c.Sched)
	kr := vfKeys(c.F)
	nodes := s.committee(0, uint32(c.F), kr.sk, kr.pk)
	s.next(nodes, nodes)
	vfCrashNodes(nodes, c.Crash)
	for _, x := range c.Bad {
		nodes[x].faulty = true
	}
	// instanceOf finds the instance of a message by the longest fitting name.
	instanceOf := func(m *protobuf.Message) (int, []byte) {
		rbc := m.Type == "RBCPropose" || m.Type == "RBCEcho" || m.Type == "RBCReady"
		tail := map[string]int{"Value": 9, "Echo": 9}[m.Type]
		if tail == 0 && !rbc {
			tail = 4
		}
		for i, name := range c.Names {
			if (i >= c.Agree) == rbc && len(m.Id) == len(name)+tail && bytes.HasPrefix(m.Id, name) {
				return i, m.Id[len(name):]
			}
		}
		return -1, nil
	}
	proposed := make([]map[string]bool, len(c.Names))
	for i := range proposed {
		proposed[i] = map[string]bool{}
	}
	last := map[string]*protobuf.Message{} // by kind and instance, of the faulty members
	mixed := 0
	s.onSend = func(e *vfEnv) []*vfEnv {
		if !e.from.faulty {
			return []*vfEnv{e}
		}
		in, suffix := instanceOf(e.m)
		if in < 0 {
			return []*vfEnv{e}
		}
		last[fmt.Sprint(e.kind, in)] = e.m
		out := []*vfEnv{e}
		for _, op := range c.Ops {
			if (op.Kind != "" && op.Kind != e.kind) || (op.To >= 0 && op.To != e.to.idx) || op.Inst == in || (op.Inst >= c.Agree) != (in >= c.Agree) {
				continue
			}
			mixed++
			m := vfCloneMsg(e.m)
			if op.How == "body" {
				if l := last[fmt.Sprint(e.kind, op.Inst)]; l != nil {
					m.Data = append([]byte{}, l.Data...)
					out[0] = s.envelope(e.from, e.to, m)
				}
				continue
			}
			m.Id = vfCat(c.Names[op.Inst], suffix)
			x := s.envelope(e.from, e.to, m)
			switch op.How {
			case "also":
				out = append(out, x)
			case "first":
				x.prio -= 5
				out = append(out, x)
			case "instead":
				out[0] = x
			}
		}
		return out
	}
	s.onRecv = func(e *vfEnv) {
		if e.kind == "Value" && e.stage == 1 {
			if in, _ := instanceOf(e.m); in >= 0 {
				var p protobuf.Value
				if proto.Unmarshal(e.m.Data, &p) == nil {
					proposed[in][string(p.Value)] = true
				}
			}
		}
	}
	decided := make([][][]byte, len(c.Names))
	cast := make([][]*protobuf.Message, len(c.Names))
	content := func(i int) *protobuf.Message {
		return &protobuf.Message{Type: "NewCommit", Id: c.Names[i], Sender: uint32(c.Senders[i-c.Agree]), Data: c.value(i, 0)}
	}
	for i := range c.Names {
		decided[i] = make([][]byte, n)
		cast[i] = make([]*protobuf.Message, n)
	}
	for _, nd := range nodes {
		nd := nd
		nd.start(func(p *HonestParty) {
			var wg sync.WaitGroup
			for i := range c.Names {
				i := i
				if i >= c.Agree {
					go func() { cast[i][nd.idx] = p.RBCReceiveFrom(c.Names[i], uint32(c.Senders[i-c.Agree])) }()
					if c.Senders[i-c.Agree] == nd.idx {
						go p.RBCSend(content(i), c.Names[i])
					}
					continue
				}
				one := func() { decided[i][nd.idx] = MainProcess(p, c.Names[i], c.value(i, nd.idx), []byte{}) }
				if c.InTurn {
					one()
				} else {
					wg.Add(1)
					go func() { one(); wg.Done() }()
				}
			}
			wg.Wait()
		})
	}
	if err := s.run(); err != nil {
		return err
	}
	o.NonTrivial = c.Agree > 1 || len(c.Names) > 1
	o.Class("agreements %d, broadcasts %d", c.Agree, len(c.Names)-c.Agree)
	o.Class("mixed up by faulty members: %v", mixed > 0)
	o.Class("one after the other: %v", c.InTurn)
	if u := vfUnfinished(nodes); u != "" {
		return fmt.Errorf("all messages were received, but not every agreement has ended at %s", u)
	}
	for i := range c.Names {
		var first *vfNode
		for _, nd := range vfHonest(nodes) {
			if i >= c.Agree {
				m := cast[i][nd.idx]
				if snd := nodes[c.Senders[i-c.Agree]]; !snd.faulty && !snd.crashed {
					if m == nil {
						return fmt.Errorf("%s did not deliver the broadcast %x of an honest sender", nd.name, c.Names[i])
					}
					if want := content(i); !proto.Equal(m, want) {
						return fmt.Errorf("%s delivered %q in the broadcast %x of an honest sender, and not %q", nd.name, m.Data, c.Names[i], want.Data)
					}
				}
				if first == nil {
					first = nd
				} else if (m == nil) != (cast[i][first.idx] == nil) || m != nil && !proto.Equal(m, cast[i][first.idx]) {
					return fmt.Errorf("%s and %s have different outcomes of broadcast %x", first.name, nd.name, c.Names[i])
				}
				continue
			}
			v := decided[i][nd.idx]
			if first == nil {
				first = nd
			} else if !bytes.Equal(v, decided[i][first.idx]) {
				return fmt.Errorf("instance %x: %s decided %q, %s decided %q", c.Names[i], first.name, decided[i][first.idx], nd.name, v)
			}
			if !proposed[i][string(v)] {
				return fmt.Errorf("instance %x: %s decided %q, which nobody proposed there", c.Names[i], nd.name, v)
			}
			own := false
			for j := 0; j < n; j++ {
				own = own || bytes.Equal(v, c.value(i, j))
			}
			if !own && len(c.Bad) == 0 {
				return fmt.Errorf("instance %x: %s decided %q, which is no input of this instance", c.Names[i], nd.name, v)
			}
		}
	}
	return nil
}

func TestVF_C25_Together(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C25", Quick: 110, Thorough: 12000, Isolated: true}, vfGenMany, vfRunMany)
}
