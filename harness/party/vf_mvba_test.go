package party

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	"github.com/drand/kyber/sign/bls"
	"github.com/drand/kyber/sign/tbls"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// The strings that members of the agreement sign.

func vfIDv(id []byte, v int) []byte     { return vfCat(id, vfBE32(v)) }
func vfIDvj(id []byte, v, j int) []byte { return vfCat(id, vfBE32(v), vfBE32(j)) }
func vfSmEcho(id []byte, v, j, stage int, value []byte) []byte {
	h := sha3.Sum512(value)
	return vfCat([]byte("Echo"), vfIDvj(id, v, j), []byte{byte(stage)}, h[:])
}
func vfSmNo(id []byte, v int) []byte     { return vfCat([]byte{0}, vfIDv(id, v)) }
func vfSmUnlock(id []byte, v int) []byte { return vfCat([]byte("Unlock"), vfIDv(id, v)) }
func vfSmCoin(id []byte, v int) []byte   { return vfCat([]byte("Done"), vfIDv(id, v)) }

var vfBls = bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite())

// master signs with the committee's secret itself.
func (k *vfKeyring) master(msg []byte) []byte {
	if k.sec == nil {
		s, err := share.RecoverSecret(kyberbls.NewBLS12381Suite().G1(), k.sk, 2*k.f+1, k.n)
		if err != nil {
			panic(err)
		}
		k.sec = s
	}
	sig, err := vfBls.Sign(k.sec, msg)
	if err != nil {
		panic(err)
	}
	return sig
}

// findID looks for an instance name under which the leaders are the wanted
// ones (-1: any).
func (k *vfKeyring) findID(prefix string, want []int) []byte {
	for t := 0; ; t++ {
		id := []byte(fmt.Sprintf("%s%d", prefix, t))
		l := k.leaders(id)
		ok := true
		for v, w := range want {
			if w >= 0 && l(v) != w {
				ok = false
				break
			}
		}
		if ok || t > 3000 {
			return id
		}
	}
}

// ---- faulty members that follow a plan of their own. They share what they
// know, and use only what they received and their own keys.

type vfSend struct {
	Kind string `json:"kind"` // Value1 Value2 Finish Done PreYes PreNo VoteYes VoteNo Halt Echo1 Echo2
	From int    `json:"from"` // counted over the faulty members
	View int    `json:"view"`
	Val  int    `json:"val"`  // which value
	To   []int  `json:"to"`   // empty all
	Just string `json:"just"` // for Value1: chain none junk stale
	Rep  int    `json:"rep"`
	Inst int    `json:"inst"` // for Echo: whose SPB; -1 every one
	Late bool   `json:"late"` // sent when nothing else is left to do
	For  []int  `json:"for"`  // for Value1, Value2: in the names of these members' broadcasts instead
}

type vfActor struct {
	s      *vfSim
	kr     *vfKeyring
	id     []byte
	nodes  []*vfNode
	faulty []int
	vals   [][]byte
	plan   []vfSend
	sent   []bool
	certs  map[string][]byte
	shares map[string]map[int][]byte
	seen   map[string]bool // values proposed, as they reached a faulty member
	values map[string][]byte
	own    map[string][]byte // what the faulty members proposed
	maxV   int
}

func vfNewActor(s *vfSim, kr *vfKeyring, id []byte, nodes []*vfNode, faulty []int, vals [][]byte, plan []vfSend) *vfActor {
	a := &vfActor{s: s, kr: kr, id: id, nodes: nodes, faulty: faulty, vals: vals, plan: plan, sent: make([]bool, len(plan)),
		certs: map[string][]byte{}, shares: map[string]map[int][]byte{}, values: map[string][]byte{}, own: map[string][]byte{}}
	for _, x := range faulty {
		nodes[x].faulty, nodes[x].silent = true, true
	}
	return a
}

func (a *vfActor) addCert(sm, sig []byte) {
	if _, ok := a.certs[string(sm)]; !ok && vfBls.Verify(a.kr.pk.Commit(), sm, sig) == nil {
		a.certs[string(sm)] = sig
	}
}

func (a *vfActor) addShare(sm, sh []byte) bool {
	if len(sh) < 2 || vfTbls.VerifyPartial(a.kr.pk, sm, sh) != nil {
		return false
	}
	i, _ := tbls.SigShare(sh).Index()
	if a.shares[string(sm)] == nil {
		a.shares[string(sm)] = map[int][]byte{}
	}
	a.shares[string(sm)][i] = sh
	return true
}

// cert is the quorum's signature on sm, if the faulty members can make it.
func (a *vfActor) cert(sm []byte) []byte {
	if c, ok := a.certs[string(sm)]; ok {
		return c
	}
	have := map[int][]byte{}
	for i, s := range a.shares[string(sm)] {
		have[i] = s
	}
	for _, x := range a.faulty {
		have[x] = nil
	}
	if len(have) < 2*a.kr.f+1 {
		return nil
	}
	c := a.kr.master(sm)
	a.certs[string(sm)] = c
	return c
}

// saw learns from a message that reached a faulty member.
func (a *vfActor) saw(e *vfEnv) {
	m := e.m
	v := e.view
	if v > a.maxV {
		a.maxV = v
	}
	switch m.Type {
	case "Value":
		p := core.Decapsulation("Value", m).(*protobuf.Value)
		a.values[string(p.Value)] = p.Value
		if e.stage == 2 {
			a.addCert(vfSmEcho(a.id, v, e.inst, 1, p.Value), p.Validation)
		}
	case "Echo":
		p := core.Decapsulation("Echo", m).(*protobuf.Echo)
		for _, val := range append([][]byte{a.seenValue(v, e.inst, e.stage, a.vals[0])}, a.vals...) {
			if a.addShare(vfSmEcho(a.id, v, e.inst, e.stage, val), p.Sigshare) {
				break
			}
		}
	case "Finish":
		p := core.Decapsulation("Finish", m).(*protobuf.Finish)
		a.addCert(vfSmEcho(a.id, v, int(m.Sender), 2, p.Value), p.Sig)
		a.values[string(p.Value)] = p.Value
	case "Halt":
		p := core.Decapsulation("Halt", m).(*protobuf.Halt)
		a.addCert(vfSmEcho(a.id, v, a.s.leaders(v), 2, p.Value), p.Sig)
	case "PreVote":
		p := core.Decapsulation("PreVote", m).(*protobuf.PreVote)
		if p.Vote {
			a.addCert(vfSmEcho(a.id, v, a.s.leaders(v), 1, p.Value), p.Sig)
			a.values[string(p.Value)] = p.Value
		} else {
			a.addShare(vfSmNo(a.id, v), p.Sig)
		}
	case "Vote":
		p := core.Decapsulation("Vote", m).(*protobuf.Vote)
		if p.Vote {
			a.addCert(vfSmEcho(a.id, v, a.s.leaders(v), 1, p.Value), p.Sig)
			a.addShare(vfSmEcho(a.id, v, a.s.leaders(v), 2, p.Value), p.Sigshare)
			a.values[string(p.Value)] = p.Value
		} else {
			a.addCert(vfSmNo(a.id, v), p.Sig)
			a.addShare(vfSmUnlock(a.id, v), p.Sigshare)
		}
	}
}

// lockOf finds a value that has a stage certificate in the leader's broadcast.
func (a *vfActor) lockOf(v, stage, val int, just string) ([]byte, []byte) {
	l := a.s.leaders(v)
	cand := [][]byte{a.vals[val%len(a.vals)]}
	if just != "own" {
		cand = append(cand, a.vals...)
	}
	if x := a.seenValue(v, l, stage, a.own[fmt.Sprintf("%d/%d", v, l)]); x != nil && just != "own" {
		cand = append([][]byte{x}, cand...)
	}
	for _, x := range cand {
		if c := a.cert(vfSmEcho(a.id, v, l, stage, x)); c != nil {
			return x, c
		}
	}
	return nil, nil
}

// chain is what justifies proposing in view v: certificates of all views
// before, or of a lock and the views after it.
func (a *vfActor) chain(v, val int) ([]byte, []byte) {
	var tail []byte
	for w := v - 1; w >= 0; w-- {
		if c := a.cert(vfSmUnlock(a.id, w)); c != nil {
			tail = vfCat(c, tail)
			continue
		}
		if x, c := a.lockOf(w, 1, val, ""); c != nil {
			return x, vfCat(c, tail)
		}
		return nil, nil
	}
	return a.vals[val%len(a.vals)], tail
}

// act sends what the plan has and what can be made by now.
func (a *vfActor) act(idle bool) bool {
	did := false
	for k, p := range a.plan {
		if a.sent[k] || (p.Late && !idle) {
			continue
		}
		from := a.faulty[p.From%len(a.faulty)]
		val := a.vals[p.Val%len(a.vals)]
		v := p.View
		if v > a.maxV+1 {
			continue
		}
		id := vfIDv(a.id, v)
		var ms []*protobuf.Message
		var tos []int
		switch p.Kind {
		case "Value1":
			pl := &protobuf.Value{Value: val}
			switch p.Just {
			case "chain":
				x, c := a.chain(v, p.Val)
				if x == nil {
					continue
				}
				pl.Value, pl.Validation = x, c
			case "junk":
				pl.Validation = vlib.NewRng(uint64(k)).Bytes(48 * v)
			case "stale":
				var names []string
				for sm := range a.certs {
					names = append(names, sm)
				}
				sort.Strings(names)
				for _, sm := range names {
					pl.Validation = append(pl.Validation, a.certs[sm]...)
				}
			case "wronglock", "wrongstage", "nocert": // certificates of the last view for something else
				if v == 0 {
					continue
				}
				st := 1
				if p.Just == "wrongstage" {
					st = 2
				}
				_, c := a.lockOf(v-1, st, p.Val, "")
				if p.Just == "nocert" {
					c = a.cert(vfSmNo(a.id, v-1))
				}
				if c == nil {
					continue
				}
				pl.Validation = c
			case "otherlock": // a value locked in the broadcast of a member that did not lead
				for j := 0; j < len(a.nodes) && pl.Validation == nil && v > 0; j++ {
					if x := a.seenValue(v-1, j, 1, nil); x != nil && j != a.s.leaders(v-1) {
						if c := a.certs[string(vfSmEcho(a.id, v-1, j, 1, x))]; c != nil {
							pl.Value, pl.Validation = x, c
						}
					}
				}
				if pl.Validation == nil {
					continue
				}
			case "unlock": // only the last view's
				c := a.cert(vfSmUnlock(a.id, v-1))
				if v > 0 && c == nil {
					continue
				}
				pl.Validation = c
			}
			if k := fmt.Sprintf("%d/%d", v, from); a.own[k] == nil && len(p.For) == 0 {
				a.own[k] = pl.Value
			}
			if len(p.For) == 0 {
				ms = append(ms, core.Encapsulation("Value", vfCat(vfIDvj(a.id, v, from), []byte{1}), uint32(from), pl))
			}
			for _, j := range p.For {
				ms = append(ms, core.Encapsulation("Value", vfCat(vfIDvj(a.id, v, j), []byte{1}), uint32(from), pl))
			}
		case "Value2":
			if x, ok := a.own[fmt.Sprintf("%d/%d", v, from)]; ok && p.Just != "own" {
				val = x
			}
			c := a.cert(vfSmEcho(a.id, v, from, 1, val))
			if c == nil {
				if p.Just != "junk" {
					continue
				}
				c = vlib.NewRng(uint64(k)).Bytes(48)
			}
			if len(p.For) == 0 {
				ms = append(ms, core.Encapsulation("Value", vfCat(vfIDvj(a.id, v, from), []byte{2}), uint32(from), &protobuf.Value{Value: val, Validation: c}))
			}
			for _, j := range p.For {
				ms = append(ms, core.Encapsulation("Value", vfCat(vfIDvj(a.id, v, j), []byte{2}), uint32(from), &protobuf.Value{Value: val, Validation: c}))
			}
		case "Finish":
			if x, ok := a.own[fmt.Sprintf("%d/%d", v, from)]; ok && p.Just != "own" {
				val = x
			}
			c := a.cert(vfSmEcho(a.id, v, from, 2, val))
			if c == nil {
				continue
			}
			ms = append(ms, core.Encapsulation("Finish", id, uint32(from), &protobuf.Finish{Value: val, Sig: c}))
		case "Done":
			ms = append(ms, core.Encapsulation("Done", id, uint32(from), &protobuf.Done{CoinShare: a.kr.share(from, vfSmCoin(a.id, v))}))
		case "PreYes":
			x, c := a.lockOf(v, 1, p.Val, p.Just)
			if c == nil {
				continue
			}
			ms = append(ms, core.Encapsulation("PreVote", id, uint32(from), &protobuf.PreVote{Vote: true, Value: x, Sig: c}))
		case "PreNo":
			ms = append(ms, core.Encapsulation("PreVote", id, uint32(from), &protobuf.PreVote{Sig: a.kr.share(from, vfSmNo(a.id, v))}))
		case "VoteYes":
			x, c := a.lockOf(v, 1, p.Val, p.Just)
			if c == nil {
				continue
			}
			ms = append(ms, core.Encapsulation("Vote", id, uint32(from), &protobuf.Vote{Vote: true, Value: x, Sig: c, Sigshare: a.kr.share(from, vfSmEcho(a.id, v, a.s.leaders(v), 2, x))}))
		case "VoteNo":
			c := a.cert(vfSmNo(a.id, v))
			if c == nil {
				continue
			}
			ms = append(ms, core.Encapsulation("Vote", id, uint32(from), &protobuf.Vote{Sig: c, Sigshare: a.kr.share(from, vfSmUnlock(a.id, v))}))
		case "Halt":
			x, c := a.lockOf(v, 2, p.Val, p.Just)
			if c == nil {
				continue
			}
			ms = append(ms, core.Encapsulation("Halt", id, uint32(from), &protobuf.Halt{Value: x, Sig: c}))
		case "Echo1", "Echo2":
			st := int(p.Kind[4] - '0')
			for j := range a.nodes {
				if p.Inst >= 0 && j != p.Inst {
					continue
				}
				x := a.seenValue(v, j, st, val)
				ms = append(ms, core.Encapsulation("Echo", vfCat(vfIDvj(a.id, v, j), []byte{byte(st)}), uint32(from), &protobuf.Echo{Sigshare: a.kr.share(from, vfSmEcho(a.id, v, j, st, x))}))
				tos = append(tos, j)
			}
		}
		a.sent[k] = true
		did = true
		for i, m := range ms {
			for _, to := range a.nodes {
				if tos != nil && to.idx != tos[i] || tos == nil && !vfHas(p.To, to.idx) {
					continue
				}
				for r := 0; r < p.Rep || r == 0; r++ {
					a.s.inject(a.nodes[from], to, m)
				}
			}
		}
	}
	return did
}

// seenValue is the value proposed in an SPB, as far as the faulty saw it.
func (a *vfActor) seenValue(v, j, st int, def []byte) []byte {
	if x, ok := a.values[fmt.Sprintf("%d/%d", v, j)]; ok {
		return x
	}
	return def
}

// hook makes the actor part of the simulated network.
func (a *vfActor) hook() {
	prev := a.s.onRecv
	a.s.onRecv = func(e *vfEnv) {
		if prev != nil {
			prev(e)
		}
		if vfIn(a.faulty, e.to.idx) && e.to == a.nodes[e.to.idx] {
			if e.kind == "Value" {
				if p, ok := core.Decapsulation("Value", e.m).(*protobuf.Value); ok {
					k := fmt.Sprintf("%d/%d", e.view, e.inst)
					if _, ok := a.values[k]; !ok {
						a.values[k] = p.Value
					}
				}
			}
			a.saw(e)
			a.act(false)
		}
	}
	a.s.onIdle = func() bool { return a.act(true) }
}

func vfGenPlan(rt *rapid.T, n, nf, nv int) []vfSend {
	kinds := []string{"Value1", "Value1", "Value2", "Finish", "Done", "PreYes", "PreYes", "PreNo", "VoteYes", "VoteYes", "VoteNo", "Halt", "Echo1", "Echo2"}
	k := rapid.IntRange(0, 24).Draw(rt, "sends")
	var out []vfSend
	for i := 0; i < k; i++ {
		p := vfSend{
			Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"),
			From: rapid.IntRange(0, nf-1).Draw(rt, "from"),
			View: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2, 3}).Draw(rt, "view"),
			Val:  rapid.IntRange(0, nv-1).Draw(rt, "val"),
			Just: rapid.SampledFrom([]string{"chain", "chain", "none", "unlock", "junk", "stale"}).Draw(rt, "just"),
			Rep:  rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "rep"),
			Inst: rapid.IntRange(-1, n-1).Draw(rt, "inst"),
			Late: rapid.IntRange(0, 4).Draw(rt, "late") == 0,
		}
		if strings.HasPrefix(p.Kind, "Value") && rapid.IntRange(0, 3).Draw(rt, "squat") == 0 {
			p.For, p.Just = vfRange(n), "junk"
			if rapid.Bool().Draw(rt, "squatsome") {
				p.For = vfGenSubset(rt, "for", n, n-1)
			}
		} else if rapid.Bool().Draw(rt, "some") {
			p.To = vfGenSubset(rt, "to", n, n-1)
		}
		out = append(out, p)
	}
	return out
}

// vfSplit fills in a case in which faulty leaders have one member decide in
// the first view while the others go on with its lock, and then propose
// another value in a later view.
func vfSplit(rt *rapid.T, c *vfMVBACase) {
	n := 3*c.F + 1
	perm := rapid.Permutation(vfRange(n)).Draw(rt, "order")
	c.Faulty = append([]int{}, perm[:c.F]...)
	yes, no := perm[c.F:2*c.F+1], perm[2*c.F+1:]
	l := c.Faulty[0]
	gap := rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "gap")
	last := 1 + gap
	c.Leaders = []int{l, l}
	if gap == 1 {
		c.Leaders = []int{l, c.Faulty[len(c.Faulty)-1], l}
	}
	others := append(append([]int{}, yes[1:]...), no...)
	just := []string{"none", "none", "junk", "stale", "wronglock", "wrongstage", "nocert", "otherlock", "unlock"}
	if gap == 1 {
		just = []string{"unlock", "unlock", "unlock", "none", "stale", "nocert", "otherlock"}
	}
	add := func(s vfSend) {
		if rapid.IntRange(0, 39).Draw(rt, "keep") > 0 {
			c.Plan = append(c.Plan, s)
		}
	}
	add(vfSend{Kind: "Value1", Just: "chain", Val: 0})
	for i := range c.Faulty {
		for v := 0; v <= last; v++ {
			add(vfSend{Kind: "Echo1", From: i, View: v, Inst: -1})
			add(vfSend{Kind: "Echo2", From: i, View: v, Inst: -1})
			add(vfSend{Kind: "Done", From: i, View: v})
		}
		add(vfSend{Kind: "PreYes", From: i, Val: 0, To: yes})
		add(vfSend{Kind: "VoteYes", From: i, Val: 0, To: yes[:1]})
		add(vfSend{Kind: "VoteNo", From: i, To: others})
		for v := 1; v < last; v++ {
			add(vfSend{Kind: "PreNo", From: i, View: v})
			add(vfSend{Kind: "VoteNo", From: i, View: v})
		}
		add(vfSend{Kind: "PreYes", From: i, View: last, Val: 1})
		add(vfSend{Kind: "VoteYes", From: i, View: last, Val: 1})
	}
	add(vfSend{Kind: "Value1", View: last, Val: 1, Just: rapid.SampledFrom(just).Draw(rt, "just")})
	add(vfSend{Kind: "Value2", View: last, Val: 1})
	add(vfSend{Kind: "Finish", View: last, Val: 1})
	rule := func(r vfRule) {
		if rapid.IntRange(0, 39).Draw(rt, "keep") > 0 {
			r.Inst, r.Stage = -1, -1
			c.Sched.Rules = append(c.Sched.Rules, r)
		}
	}
	c.Sched.Rules = nil
	rule(vfRule{Kind: "Halt", From: -1, To: -1, View: -1, Prio: 6})
	for _, x := range c.Faulty {
		rule(vfRule{From: x, To: -1, View: -1, Prio: 0})
	}
	for _, y := range yes {
		rule(vfRule{Kind: "PreVote", From: -1, To: y, View: 0, Prio: 3})
	}
	for _, x := range no {
		rule(vfRule{Kind: "Vote", From: x, To: yes[0], View: 0, Prio: 4})
	}
	if rapid.Bool().Draw(rt, "hide") {
		for _, x := range others {
			rule(vfRule{Kind: "Vote", From: yes[0], To: x, View: 0, Prio: 4})
		}
	}
	c.Sched.Slow = nil
}

// vfDouble fills in a case in which a faulty leader has two values of its own
// broadcast in full, as far as the others let it, and ends with each of them
// before different members.
func vfDouble(rt *rapid.T, c *vfMVBACase) {
	n := 3*c.F + 1
	perm := rapid.Permutation(vfRange(n)).Draw(rt, "order")
	c.Faulty = append([]int{}, perm[:c.F]...)
	rest := perm[c.F:]
	k := rapid.IntRange(1, len(rest)-1).Draw(rt, "side")
	side := [][]int{rest[:k], rest[k:]}
	l := c.Faulty[0]
	view := rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "view")
	c.Leaders = []int{l, l}
	add := func(s vfSend) {
		if rapid.IntRange(0, 29).Draw(rt, "keep") > 0 {
			s.View = view
			c.Plan = append(c.Plan, s)
		}
	}
	all := rapid.IntRange(0, 3).Draw(rt, "all") > 0 // both values to everybody, or to a side and some more
	to := func(x int) []int {
		if all {
			return nil
		}
		return append(append([]int{}, side[x]...), vfGenSubset(rt, "more", n, n-1)...)
	}
	if view == 1 {
		c.Plan = append(c.Plan, vfSend{Kind: "Echo1", Inst: -1}, vfSend{Kind: "Echo2", Inst: -1}, vfSend{Kind: "Done"}, vfSend{Kind: "PreNo"}, vfSend{Kind: "VoteNo"})
	}
	rep := rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "rep")
	for x := 0; x < 2; x++ {
		add(vfSend{Kind: "Value1", Just: "chain", Val: x, To: to(x), Rep: rep})
	}
	for x := 0; x < 2; x++ {
		add(vfSend{Kind: "Value2", Just: "own", Val: x, To: to(x), Rep: rep})
	}
	for i := range c.Faulty {
		add(vfSend{Kind: "Echo1", From: i, Inst: -1})
		add(vfSend{Kind: "Echo2", From: i, Inst: -1})
	}
	for x := 0; x < 2; x++ {
		add(vfSend{Kind: "Finish", Just: "own", Val: x, To: side[x]})
		for i := range c.Faulty {
			if i > 0 {
				add(vfSend{Kind: "Finish", Just: "own", From: i, Val: x, To: side[x]})
			}
			add(vfSend{Kind: "PreYes", From: i, Just: "own", Val: x, To: side[x]})
			add(vfSend{Kind: "VoteYes", From: i, Just: "own", Val: x, To: side[x]})
			add(vfSend{Kind: "Halt", From: i, Just: "own", Val: x, To: side[x]})
		}
	}
	for i := range c.Faulty {
		add(vfSend{Kind: "Done", From: i})
	}
	vfFast(&c.Sched, c.Faulty)
	c.Sched.Rules = append([]vfRule{{Kind: "Value", From: -1, To: l, Inst: -1, View: -1, Stage: -1}, {Kind: "Echo", From: -1, To: l, Inst: -1, View: -1, Stage: -1}}, c.Sched.Rules...)
	if rapid.Bool().Draw(rt, "hide") { // the sides hear of each other's end late
		c.Sched.Rules = append([]vfRule{{Kind: "Halt", From: -1, To: -1, Inst: -1, View: -1, Stage: -1, Prio: 6}}, c.Sched.Rules...)
	}
	c.Sched.Policy, c.Sched.Batch = rapid.SampledFrom([]string{"fifo", "fifo", "link", "random"}).Draw(rt, "policy2"), 1
}

// vfViews fills in a case without lies in which members see the leader's
// broadcast, the votes and the end differently.
func vfViews(rt *rapid.T, c *vfMVBACase) {
	n := 3*c.F + 1
	var rules []vfRule
	p := func(name string, of ...int) int { return rapid.SampledFrom(of).Draw(rt, name) }
	rule := func(kind string, from, to, view, stage, prio, each int) {
		rules = append(rules, vfRule{Kind: kind, From: from, To: to, Inst: -1, View: view, Stage: stage, Prio: prio, Each: each})
	}
	c.Sched.Batch, c.Late = 1, nil
	if rapid.IntRange(0, 2).Draw(rt, "halt") == 0 {
		// one member decides before the others and stops while it tells them
		z := rapid.IntRange(0, n-1).Draw(rt, "first")
		c.Crash = []vfCrash{{Node: z, Kind: "Halt", After: rapid.IntRange(1, n).Draw(rt, "halts")}}
		rule("Finish", 100, z, 0, -1, 0, 0)
		rule("Finish", 100, -1, 0, -1, 5, 0)
		rule("Done", -1, z, 0, -1, 0, 0)
		rule("Done", -1, -1, 0, -1, 3, p("done", 0, 2))
		rule("Halt", -1, -1, -1, -1, p("haltprio", 0, 0, 4), p("halteach", 0, 3))
		c.Sched.Rules = rules
		return
	}
	for _, x := range vfGenSubset(rt, "crash", n, c.F) {
		c.Crash = append(c.Crash, vfCrash{Node: x, Kind: rapid.SampledFrom([]string{"", "Value", "Vote", "Vote", "PreVote", "Done", "Finish"}).Draw(rt, "kind"), After: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5, 8}).Draw(rt, "after")})
	}
	views := rapid.IntRange(1, 2).Draw(rt, "views")
	for v := 0; v < views; v++ {
		if rapid.IntRange(0, 2).Draw(rt, "mix") > 0 {
			// at most f members hold the lock, and only some of the others learn of it in time
			perm := rapid.Permutation(vfRange(n)).Draw(rt, "order")
			holders := perm[:rapid.IntRange(1, c.F).Draw(rt, "holders")]
			perm = rapid.Permutation(vfRange(n)).Draw(rt, "order2")
			told := perm[:rapid.IntRange(1, n-1).Draw(rt, "told")]
			for _, h := range holders {
				rule("Value", 100+v, h, v, 2, 0, 0)
				for _, t := range told {
					rule("PreVote", h, t, v, -1, 0, 0)
				}
				rule("PreVote", h, -1, v, -1, 4, 0)
			}
			rule("Value", 100+v, -1, v, 2, 6, 0)
			rule("Finish", 100+v, -1, v, -1, 6, 0)
			rule("PreVote", -1, -1, v, -1, 2, 0)
			first, second := p("yesvotes", 2, 2, 5), p("novotes", 2, 5, 5)
			for _, t := range told {
				rule("Vote", t, -1, v, -1, first, 0)
			}
			rule("Vote", -1, -1, v, -1, second, p("voteeach", 0, 0, 2))
			continue
		}
		rule("Value", 100+v, -1, v, 2, p("value", 0, 2, 5), p("valueeach", 0, 5, 9))
		rule("Finish", 100+v, -1, v, -1, p("finish", 5, 5, 5, 0), p("finisheach", 0, 3))
		if rapid.Bool().Draw(rt, "own") {
			rule("PreVote", 100+v, -1, v, -1, p("ownprevote", 2, 5), 0)
		}
		rule("PreVote", -1, -1, v, -1, 0, p("prevoteeach", 0, 1, 3))
		rule("Vote", -1, -1, v, -1, 0, p("voteeach", 0, 1, 3))
		rule("Done", -1, -1, v, -1, 0, p("doneeach", 0, 0, 3))
	}
	rule("Halt", -1, -1, -1, -1, p("haltprio", 0, 4, 7), p("halteach", 0, 3))
	c.Sched.Rules = rules
}

// vfLossy fills in a case in which some member is slow, and the faulty ones
// lose a part of their messages, mostly those to it.
func vfLossy(rt *rapid.T, c *vfMVBACase) {
	n := 3*c.F + 1
	perm := rapid.Permutation(vfRange(n)).Draw(rt, "order")
	y := perm[0]
	c.Late = nil
	if rapid.Bool().Draw(rt, "yleads") {
		c.Leaders = []int{y}
	}
	order := []string{"Value", "Echo", "Finish", "Done", "PreVote", "Vote", "Halt"}
	for _, z := range perm[1 : 1+rapid.IntRange(1, c.F).Draw(rt, "faulty")] {
		x := vfCrash{Node: z}
		stop := rapid.IntRange(2, len(order)).Draw(rt, "stop") // from this phase on it says nothing
		for k, kind := range order {
			if k >= stop {
				x.Drop = append(x.Drop, vfDrop{Kind: kind})
				continue
			}
			switch rapid.IntRange(0, 3).Draw(rt, "lose") {
			case 0, 1:
				x.Drop = append(x.Drop, vfDrop{Kind: kind, To: []int{y}})
			case 2:
				if to := vfGenSubset(rt, "to", n, n-1); len(to) > 0 {
					x.Drop = append(x.Drop, vfDrop{Kind: kind, To: to})
				}
			}
		}
		if len(x.Drop) == 0 {
			x.Drop = []vfDrop{{To: []int{y}}}
		}
		c.Crash = append(c.Crash, x)
	}
	rule := func(kind string, from, to, stage, prio int) {
		c.Sched.Rules = append(c.Sched.Rules, vfRule{Kind: kind, From: from, To: to, Inst: -1, View: rapid.SampledFrom([]int{0, 0, -1}).Draw(rt, "view"), Stage: stage, Prio: prio})
	}
	c.Sched.Rules, c.Sched.Slow = nil, nil
	switch rapid.IntRange(0, 3).Draw(rt, "slowness") {
	case 0, 1: // what it says comes late
		rule("Value", y, -1, -1, rapid.SampledFrom([]int{3, 8}).Draw(rt, "prio"))
	case 2: // what it hears comes late
		rule("", -1, y, -1, rapid.SampledFrom([]int{3, 8}).Draw(rt, "prio"))
	case 3:
		rule("", y, -1, -1, rapid.SampledFrom([]int{3, 8}).Draw(rt, "prio"))
	}
	for k := rapid.IntRange(0, 2).Draw(rt, "more"); k > 0; k-- {
		rule(rapid.SampledFrom(order).Draw(rt, "kind"), rapid.IntRange(-1, n-1).Draw(rt, "from"), rapid.IntRange(-1, n-1).Draw(rt, "to"), -1, rapid.IntRange(1, 6).Draw(rt, "prio"))
	}
}

func vfRange(n int) []int {
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return l
}

// ---- an agreement

type vfMVBACase struct {
	F       int        `json:"f"`
	Inputs  []int      `json:"inputs"` // which value each member proposes
	Len     int        `json:"len"`
	Leaders []int      `json:"leaders"`
	Faulty  []int      `json:"faulty"`
	Plan    []vfSend   `json:"plan"`
	Byz     []vfMember `json:"byz,omitempty"`
	Crash   []vfCrash  `json:"crash,omitempty"`
	Late    []int      `json:"late,omitempty"` // members that begin when nothing else can happen
	Sched   vfSched    `json:"sched"`
	Seed    uint64     `json:"seed"`
	Trace   bool       `json:"trace,omitempty"`
}

var vfMVBAKinds = []string{"", "Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote"}

func (c vfMVBACase) value(i int) []byte {
	return append([]byte{byte('A' + i)}, vlib.NewRng(c.Seed+uint64(i)).Bytes(c.Len)...)
}

type vfMVBARun struct {
	s     *vfSim
	nodes []*vfNode
	kr    *vfKeyring
	id    []byte
	views int
	sawV  map[string]bool // stage 1 proposals of anybody
}

func vfMVBA(c vfMVBACase) (*vfMVBARun, error) {
	n := 3*c.F + 1
	s := vfNewSim(c.Sched)
	s.trace = c.Trace
	r := &vfMVBARun{s: s, kr: vfKeys(c.F), sawV: map[string]bool{}}
	r.id = r.kr.findID("mvba", c.Leaders)
	s.leaders = r.kr.leaders(r.id)
	r.nodes = s.committee(0, uint32(c.F), r.kr.sk, r.kr.pk)
	s.next(r.nodes, r.nodes)
	for _, x := range c.Crash {
		if x.Node >= 100 {
			x.Node = s.leaders(x.Node - 100)
		}
		if !vfIn(c.Faulty, x.Node) {
			vfCrashNodes(r.nodes, []vfCrash{x})
		}
	}
	for _, m := range c.Byz {
		vfMakeByz(r.nodes[m.Node], m.Muts, m.Seed)
	}
	s.onRecv = func(e *vfEnv) {
		if e.view+1 > r.views {
			r.views = e.view + 1
		}
		if e.kind == "Value" && e.stage == 1 {
			var p protobuf.Value
			if proto.Unmarshal(e.m.Data, &p) == nil {
				r.sawV[string(p.Value)] = true
			}
		}
	}
	if len(c.Faulty) > 0 {
		var vals [][]byte
		for i := 0; i < n+3; i++ {
			vals = append(vals, c.value(i))
		}
		a := vfNewActor(s, r.kr, r.id, r.nodes, c.Faulty, vals, c.Plan)
		a.hook()
	}
	begin := func(nd *vfNode) {
		v := c.value(c.Inputs[nd.idx])
		nd.start(func(p *HonestParty) { nd.result = MainProcess(p, r.id, v, []byte{}) })
	}
	var late []*vfNode
	for _, nd := range r.nodes {
		if vfIn(c.Late, nd.idx) {
			late = append(late, nd)
		} else {
			begin(nd)
		}
	}
	prev := s.onIdle
	s.onIdle = func() bool {
		if len(late) > 0 {
			begin(late[0])
			late = late[1:]
			return true
		}
		return prev != nil && prev()
	}
	// Every view has an even chance at least of a leader that is there and in
	// time, so nobody gets this far by accident.
	err := s.runUntil(func() bool { return r.views > 64 && !r.allDone() })
	if err == nil && r.views > 64 && !r.allDone() {
		err = fmt.Errorf("view %d has begun, and no decision was made by %s", r.views-1, vfUnfinished(r.nodes))
	}
	return r, err
}

func (r *vfMVBARun) allDone() bool { return vfUnfinished(r.nodes) == "" }

// vfAgreed judges the outcome.
func vfAgreed(c vfMVBACase, r *vfMVBARun, end bool) error {
	var first *vfNode
	for _, nd := range vfHonest(r.nodes) {
		if !nd.finished() {
			continue
		}
		if first == nil {
			first = nd
		} else if !bytes.Equal(first.result, nd.result) {
			return fmt.Errorf("%s decided %.8x, %s decided %.8x", first.name, first.result, nd.name, nd.result)
		}
	}
	if first != nil && !r.sawV[string(first.result)] {
		return fmt.Errorf("%s decided %.8x (%d bytes), which no member proposed", first.name, first.result, len(first.result))
	}
	if first != nil && len(c.Faulty) == 0 && len(c.Byz) == 0 {
		ok := false
		for _, i := range c.Inputs {
			if bytes.Equal(first.result, c.value(i)) {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("%s decided %.8x, which was no member's input", first.name, first.result)
		}
	}
	if end {
		if u := vfUnfinished(r.nodes); u != "" {
			return fmt.Errorf("all messages were received, but no decision was made by %s", u)
		}
	}
	return nil
}

func vfGenMVBA(rt *rapid.T, mode string) vfMVBACase {
	c := vfMVBACase{F: vfGenFA(rt), Seed: rapid.Uint64().Draw(rt, "seed")}
	n := 3*c.F + 1
	same := rapid.IntRange(0, 4).Draw(rt, "same") == 0
	for i := 0; i < n; i++ {
		if same {
			c.Inputs = append(c.Inputs, 0)
		} else {
			c.Inputs = append(c.Inputs, i)
		}
	}
	c.Len = rapid.SampledFrom([]int{0, 1, 20, 100, 500}).Draw(rt, "len")
	c.Sched = vfGenSched(rt, n, vfMVBAKinds)
	if rapid.IntRange(0, 5).Draw(rt, "latek") == 0 {
		c.Late = vfGenSubset(rt, "late", n, c.F)
	}
	switch mode {
	case "crash":
		for _, x := range vfGenCrashes(rt, "crash", n, c.F, 60) {
			if rapid.Bool().Draw(rt, "leader") {
				x.Node = 100 + rapid.IntRange(0, 1).Draw(rt, "leaderview")
			}
			c.Crash = append(c.Crash, x)
		}
	case "views":
		vfViews(rt, &c)
	case "double":
		vfDouble(rt, &c)
		c.Late = nil
	case "lossy":
		vfLossy(rt, &c)
	case "actor":
		if rapid.Bool().Draw(rt, "quick") { // what the faulty members send arrives first
			c.Sched.Rules = nil
		}
		c.Faulty = vfGenSubset(rt, "faulty", n, c.F)
		if len(c.Faulty) == 0 {
			c.Faulty = []int{rapid.IntRange(0, n-1).Draw(rt, "one")}
		}
		bad := rapid.SampledFrom(c.Faulty)
		lead := func(name string) int {
			return rapid.OneOf(rapid.Just(-1), bad, bad, rapid.IntRange(0, n-1)).Draw(rt, name)
		}
		c.Leaders = []int{lead("l0"), lead("l1")}
		c.Plan = vfGenPlan(rt, n, len(c.Faulty), n+3)
		if len(c.Sched.Rules) == 0 {
			for _, x := range c.Faulty {
				c.Sched.Rules = append(c.Sched.Rules, vfRule{From: x, To: -1, Inst: -1, View: -1, Stage: -1})
			}
			c.Sched.Rules = append(c.Sched.Rules, vfRule{From: -1, To: -1, Inst: -1, View: -1, Stage: -1, Prio: 1})
		}
	case "split":
		vfSplit(rt, &c)
		c.Late = nil
	case "muts":
		for _, x := range vfGenSubset(rt, "byz", n, c.F) {
			c.Byz = append(c.Byz, vfMember{x, vfGenMuts(rt, n, vfMVBAKinds, append(append([]string{}, vfValueOps...), vfWholeOps...)), rapid.Uint64().Draw(rt, "byzseed"), nil})
		}
	}
	return c
}

func vfWithout(l []int, x int) []int {
	var out []int
	for _, v := range l {
		if v != x {
			out = append(out, v)
		}
	}
	return out
}

func vfCoinLeader(coin []byte, n int) int { return int(binary.BigEndian.Uint32(coin) % uint32(n)) }

// vfGenFA is vfGenF for agreements alone, which are cheap enough for ten members.
func vfGenFA(rt *rapid.T) int {
	if rapid.IntRange(0, 59).Draw(rt, "large") == 59 {
		return 3
	}
	return vfGenF(rt)
}
