package party

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/klauspost/reedsolomon"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// A reliable broadcast case: several instances at once; faulty members are
// played by the harness, which sends in their names what the case lists.

type vfRBCAct struct {
	Junk int    `json:"junk,omitempty"` // other bytes altogether
	Kind string `json:"kind"`           // RBCPropose RBCEcho RBCReady
	From int    `json:"from"`           // counted over the faulty members
	Inst int    `json:"inst"`
	Var  int    `json:"var"`  // which content: 0 the instance's, 1.. others
	To   []int  `json:"to"`   // empty all
	Frag string `json:"frag"` // right wrong short long empty other
	Hash string `json:"hash"` // right wrong short empty len
	Rep  int    `json:"rep"`
	Arg  int    `json:"arg"`
}

type vfRBCInst struct {
	Sender int    `json:"sender"`
	Len    int    `json:"len"`
	Fill   int    `json:"fill"` // 0 random, 1 zeros, 2 trailing zeros
	Bare   bool   `json:"bare"` // a message without any field set
	To     []int  `json:"to"`   // crash of an honest sender: only these get the proposal; empty all
	Type   string `json:"type"`
	Skip   int    `json:"skip,omitempty"` // an honest sender leaves out member Skip-1 (RBCSendExclude)
	Any    bool   `json:"any,omitempty"`  // members wait for any sender (RBCReceive)
}

type vfRBCCase struct {
	F      int         `json:"f"`
	Faulty []int       `json:"faulty"`
	Insts  []vfRBCInst `json:"insts"`
	Acts   []vfRBCAct  `json:"acts"`
	Crash  []vfCrash   `json:"crash"`
	Sched  vfSched     `json:"sched"`
	Seed   uint64      `json:"seed"`
	Bytes  bool        `json:"bytes"` // faulty senders propose bytes that are no message
	Trace  bool        `json:"trace,omitempty"`
}

func vfGenRBC(rt *rapid.T) vfRBCCase {
	c := vfRBCCase{F: rapid.SampledFrom([]int{1, 1, 1, 1, 2, 2, 3}).Draw(rt, "f"), Seed: rapid.Uint64().Draw(rt, "seed")}
	n := 3*c.F + 1
	c.Faulty = vfGenSubset(rt, "faulty", n, c.F)
	if len(c.Faulty) < c.F && rapid.IntRange(0, 2).Draw(rt, "crashk") == 0 {
		for _, x := range vfGenCrashes(rt, "crash", n, c.F-len(c.Faulty), 30) {
			if !vfIn(c.Faulty, x.Node) {
				c.Crash = append(c.Crash, x)
			}
		}
	}
	ni := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "insts")
	k := 2 * c.F
	for i := 0; i < ni; i++ {
		in := vfRBCInst{Sender: rapid.IntRange(0, n-1).Draw(rt, "sender"), Fill: rapid.IntRange(0, 2).Draw(rt, "fill")}
		if len(c.Faulty) > 0 && rapid.Bool().Draw(rt, "badsender") {
			in.Sender = rapid.SampledFrom(c.Faulty).Draw(rt, "bad")
		}
		in.Len = rapid.OneOf(rapid.IntRange(0, 3*k+2), rapid.IntRange(0, 400), rapid.SampledFrom([]int{0, 1, k, 255, 256, 257, 1000, 4096, 20000, 65535, 65536, 65537, 100000, 300000})).Draw(rt, "len")
		in.Bare = rapid.IntRange(0, 9).Draw(rt, "bare") == 0
		in.Type = rapid.SampledFrom([]string{"Commit", "NewCommit", "", "Test"}).Draw(rt, "type")
		if len(c.Faulty)+len(c.Crash) < c.F && rapid.IntRange(0, 3).Draw(rt, "leaveout") == 0 {
			in.Skip = 1 + rapid.IntRange(0, n-1).Draw(rt, "skip")
		}
		in.Any = rapid.IntRange(0, 3).Draw(rt, "any") == 0
		c.Insts = append(c.Insts, in)
	}
	if len(c.Faulty) > 0 {
		na := rapid.IntRange(0, 14).Draw(rt, "acts")
		for i := 0; i < na; i++ {
			a := vfRBCAct{
				Kind: rapid.SampledFrom([]string{"RBCPropose", "RBCEcho", "RBCEcho", "RBCReady", "RBCReady"}).Draw(rt, "kind"),
				From: rapid.IntRange(0, len(c.Faulty)-1).Draw(rt, "who"),
				Inst: rapid.IntRange(0, ni-1).Draw(rt, "inst"),
				Var:  rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(rt, "var"),
				Frag: rapid.SampledFrom([]string{"right", "right", "wrong", "short", "long", "empty", "other"}).Draw(rt, "frag"),
				Hash: rapid.SampledFrom([]string{"right", "right", "right", "wrong", "short", "empty", "len"}).Draw(rt, "hash"),
				Rep:  rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "rep"),
				Arg:  rapid.IntRange(0, 255).Draw(rt, "arg"),
			}
			if rapid.Bool().Draw(rt, "some") {
				a.To = vfGenSubset(rt, "to", n, n-1)
			}
			c.Acts = append(c.Acts, a)
		}
	}
	c.Sched = vfGenSched(rt, n, []string{"", "RBCPropose", "RBCEcho", "RBCReady"})
	c.Bytes = rapid.IntRange(0, 7).Draw(rt, "bytes") == 0
	return c
}

func vfIn(l []int, x int) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

func (c vfRBCCase) content(inst, variant int) *protobuf.Message {
	in := c.Insts[inst]
	r := vlib.NewRng(c.Seed + uint64(inst)*1000 + uint64(variant))
	if in.Bare && variant == 0 {
		return &protobuf.Message{}
	}
	d := r.Bytes(in.Len)
	switch in.Fill {
	case 1:
		d = make([]byte, in.Len)
	case 2:
		for i := len(d) / 2; i < len(d); i++ {
			d[i] = 0
		}
	}
	return &protobuf.Message{Type: in.Type, Id: []byte{byte(variant)}, Sender: uint32(in.Sender), Data: d}
}

func (c vfRBCCase) raw(inst, variant int) []byte {
	b, err := proto.Marshal(c.content(inst, variant))
	if err != nil {
		panic(err)
	}
	if c.Bytes && variant > 0 {
		return vlib.NewRng(c.Seed ^ uint64(variant)).Bytes(len(b))
	}
	return b
}

func vfRBCID(inst int) []byte { return []byte(fmt.Sprintf("x_%d,%d", inst%2+1, inst/2+1)) }

// vfFragments are the fragments of a content, as members make them.
func vfFragments(raw []byte, f int) (hash []byte, frags [][]byte) {
	h := sha256.Sum256(raw)
	hash = append(h[:], vfBE32(len(raw))...)
	n := 3*f + 1
	enc, err := reedsolomon.New(n-(f+1), f+1)
	if err != nil {
		panic(err)
	}
	b := append([]byte{}, raw...)
	if len(b) == 0 {
		b = []byte{0}
	}
	frags, err = enc.Split(b)
	if err != nil {
		panic(err)
	}
	if err := enc.Encode(frags); err != nil {
		panic(err)
	}
	return hash, frags
}

func TestVF_C03_Broadcast(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C03", Quick: 4000, Thorough: 40000, Isolated: true}, vfGenRBC, vfRunRBC)
}

func vfRunRBC(c vfRBCCase, o *vlib.Obs) error {
	n := 3*c.F + 1
	s := vfNewSim(c.Sched)
	s.trace = c.Trace
	nodes := s.committee(0, uint32(c.F), nil, nil)
	s.next(nodes, nodes)
	vfCrashNodes(nodes, c.Crash)
	for _, x := range c.Faulty {
		nodes[x].faulty = true
		nodes[x].silent = true
	}
	got := make([][]*protobuf.Message, len(c.Insts))
	for _, a := range c.Acts { // then a proposal in the sender's name would be anybody's
		if in := &c.Insts[a.Inst]; a.Kind == "RBCPropose" && c.Faulty[a.From%len(c.Faulty)] != in.Sender {
			in.Any = false
		}
	}
	for i := range c.Insts {
		i := i
		got[i] = make([]*protobuf.Message, n)
		for j := range nodes {
			if nodes[j].silent {
				continue
			}
			j := j
			go func() {
				if c.Insts[i].Any {
					got[i][j] = nodes[j].p.RBCReceive(vfRBCID(i))
				} else {
					got[i][j] = nodes[j].p.RBCReceiveFrom(vfRBCID(i), uint32(c.Insts[i].Sender))
				}
			}()
		}
		if snd := nodes[c.Insts[i].Sender]; !snd.silent {
			if k := c.Insts[i].Skip; k > 0 && len(c.Faulty)+len(c.Crash) < c.F { // such a sender counts as faulty
				o.Class("a member left out")
				go snd.p.RBCSendExclude(c.content(i, 0), vfRBCID(i), uint32(k-1))
			} else {
				go snd.p.RBCSend(c.content(i, 0), vfRBCID(i))
			}
		}
	}
	for _, a := range c.Acts {
		from := nodes[c.Faulty[a.From%len(c.Faulty)]]
		raw := c.raw(a.Inst, a.Var)
		hash, frags := vfFragments(raw, c.F)
		r := vlib.NewRng(uint64(a.Arg))
		for _, to := range nodes {
			if !vfHas(a.To, to.idx) || to.silent {
				continue
			}
			m := &protobuf.Message{Type: a.Kind, Sender: uint32(from.idx), Id: vfRBCID(a.Inst)}
			who := to.idx // an Echo carries the receiver's fragment
			if a.Kind == "RBCReady" {
				who = from.idx
			}
			fr := append([]byte{}, frags[who]...)
			switch a.Frag {
			case "wrong":
				fr[a.Arg%len(fr)] ^= byte(1 + a.Arg/2)
			case "short":
				fr = fr[:a.Arg%len(fr)]
			case "long":
				fr = append(fr, r.Bytes(1+a.Arg%5)...)
			case "empty":
				fr = nil
			case "other":
				fr = append([]byte{}, frags[(who+1+a.Arg%(n-1))%n]...)
			}
			h := append([]byte{}, hash...)
			switch a.Hash {
			case "wrong":
				h[a.Arg%32] ^= 1
			case "short":
				h = h[:a.Arg%len(h)]
			case "empty":
				h = nil
			case "len":
				copy(h[32:], [][]byte{{255, 255, 255, 255}, {0, 0, 0, 0}, {0x7f, 255, 255, 255}, {0, 0, 0, byte(a.Arg)}}[a.Arg%4])
			}
			switch a.Kind {
			case "RBCPropose":
				m.Data = raw
			case "RBCEcho":
				m.Data, _ = proto.Marshal(&protobuf.RBCEcho{Hash: h, M: fr})
			case "RBCReady":
				m.Data, _ = proto.Marshal(&protobuf.RBCReady{Hash: h, M: fr})
			}
			if a.Junk > 0 {
				d := vlib.NewRng(uint64(a.Junk)).Bytes(a.Junk % 97)
				if a.Junk%3 == 0 && len(m.Data) > 0 { // the true beginning
					d = append([]byte{}, m.Data[:a.Junk%len(m.Data)]...)
				}
				m.Data = d
			}
			for k := 0; k < a.Rep; k++ {
				s.inject(from, to, m)
			}
		}
	}
	if err := s.run(); err != nil {
		return err
	}
	honest := vfHonest(nodes)
	for i, in := range c.Insts {
		var first *protobuf.Message
		var who *vfNode
		count := 0
		for _, nd := range honest {
			m := got[i][nd.idx]
			if m == nil {
				continue
			}
			count++
			if first == nil {
				first, who = m, nd
			} else if !proto.Equal(first, m) {
				return fmt.Errorf("instance %d: %s and %s delivered different messages", i, who.name, nd.name)
			}
		}
		if snd := nodes[in.Sender]; !snd.faulty {
			if count != len(honest) {
				return fmt.Errorf("instance %d: the sender is honest, and %d of %d honest members delivered", i, count, len(honest))
			}
			if want := c.content(i, 0); !proto.Equal(first, want) || !bytes.Equal(first.Data, want.Data) {
				return fmt.Errorf("instance %d: the sender is honest, and another message was delivered", i)
			}
			o.Class("sender honest")
		} else {
			if count != 0 && count != len(honest) {
				return fmt.Errorf("instance %d: %d of %d honest members delivered", i, count, len(honest))
			}
			if count > 0 {
				o.Class("sender faulty, delivered")
			} else {
				o.Class("sender faulty, not delivered")
			}
		}
	}
	if len(c.Acts) > 0 {
		o.Class("with actions of faulty members")
	}
	o.Class("f=%d", c.F)
	o.NonTrivial = len(c.Acts) > 0 || len(c.Crash) > 0
	return nil
}
