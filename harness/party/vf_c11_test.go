package party

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber/sign/tbls"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// One honest member runs the agreement; the harness plays all the others and
// holds their keys, so that it can bring the member to every step. What the
// member sends is compared with the evidence it was given: every step needs
// its quorum of distinct signers for exactly that string, whatever else
// arrives.

type vfCertView struct {
	Vals    []int  `json:"vals"` // what each member proposes
	Prop    int    `json:"prop"` // how many of each kind are valid
	Prop2   int    `json:"prop2"`
	Echo1   int    `json:"echo1"`
	Echo2   int    `json:"echo2"`
	Finish  int    `json:"finish"`
	Done    int    `json:"done"`
	PreYes  int    `json:"preyes"`
	PreNo   int    `json:"preno"`
	VoteYes int    `json:"voteyes"`
	VoteNo  int    `json:"voteno"`
	Halt    int    `json:"halt"`
	Just    string `json:"just"` // what the valid proposals of the next view rest on: unlock, lock
}

type vfForge struct {
	Kind string `json:"kind"`
	View int    `json:"view"`
	From int    `json:"from"`
	How  string `json:"how"`
	Arg  int    `json:"arg"`
	Rep  int    `json:"rep"`
}

type vfCertCase struct {
	F       int          `json:"f"`
	X       int          `json:"x"`
	Leaders []int        `json:"leaders"`
	Views   []vfCertView `json:"views"`
	Forge   []vfForge    `json:"forge"`
	Sched   vfSched      `json:"sched"`
	Seed    uint64       `json:"seed"`
	Trace   bool         `json:"trace,omitempty"`
}

var vfForgeKinds = []string{"Value1", "Value2", "Echo1", "Echo2", "Finish", "Done", "PreYes", "PreNo", "VoteYes", "VoteNo", "Halt"}
var vfForgeHows = []string{"value", "stage", "view", "instance", "member", "word", "share", "full", "otherkeys", "random", "empty", "under", "repeat", "relabel", "squat", "unchained", "second", "splice", "splice", "splice"}

func vfGenCert(rt *rapid.T) vfCertCase {
	c := vfCertCase{F: rapid.SampledFrom([]int{1, 1, 1, 1, 1, 2}).Draw(rt, "f"), Seed: rapid.Uint64().Draw(rt, "seed")}
	n, q := 3*c.F+1, 2*c.F+1
	c.X = rapid.IntRange(0, n-1).Draw(rt, "x")
	near := func(name string) int { // around what is needed, the member's own included or not
		return rapid.SampledFrom([]int{q - 2, q - 1, q - 1, q - 1, q, q, n - 1}).Draw(rt, name)
	}
	nv := rapid.IntRange(1, 3).Draw(rt, "views")
	for v := 0; v < nv; v++ {
		c.Leaders = append(c.Leaders, rapid.OneOf(rapid.IntRange(0, n-1), rapid.Just(-1)).Draw(rt, "leader"))
		w := vfCertView{Just: rapid.SampledFrom([]string{"unlock", "lock"}).Draw(rt, "just")}
		for j := 0; j < n; j++ {
			w.Vals = append(w.Vals, rapid.IntRange(0, 2).Draw(rt, "val"))
		}
		w.Prop, w.Prop2 = rapid.IntRange(0, n-1).Draw(rt, "prop"), rapid.IntRange(0, n-1).Draw(rt, "prop2")
		w.Echo1, w.Echo2 = near("echo1"), near("echo2")
		w.Finish, w.Done = near("finish"), near("done")
		if rapid.IntRange(0, 2).Draw(rt, "elected") > 0 {
			w.Done = n - 1
		}
		switch rapid.IntRange(0, 3).Draw(rt, "outcome") {
		case 0:
			w.PreYes, w.VoteYes = rapid.IntRange(0, 2).Draw(rt, "py"), near("vy")
		case 1:
			w.PreNo, w.VoteNo = near("pn"), near("vn")
		case 2:
			w.PreYes, w.PreNo = rapid.IntRange(0, 2).Draw(rt, "py"), near("pn")
			w.VoteYes, w.VoteNo = rapid.IntRange(1, q-1).Draw(rt, "vy"), rapid.IntRange(0, q-1).Draw(rt, "vn")
		case 3:
		}
		w.Halt = rapid.SampledFrom([]int{0, 0, 0, 0, 1}).Draw(rt, "halt")
		if v+1 < nv { // go on
			w.Halt = 0
			if w.VoteYes >= q-1 {
				w.VoteYes, w.VoteNo = 1, n-2
			}
			if w.VoteYes+w.VoteNo < q {
				w.VoteNo = n - 1 - w.VoteYes
			}
		}
		c.Views = append(c.Views, w)
	}
	for k := rapid.IntRange(1, 14).Draw(rt, "forged"); k > 0; k-- {
		f := vfForge{
			Kind: rapid.SampledFrom(vfForgeKinds).Draw(rt, "kind"),
			View: rapid.IntRange(0, nv-1).Draw(rt, "view"),
			From: rapid.OneOf(rapid.IntRange(0, n-1), rapid.Just(-1)).Draw(rt, "from"),
			How:  rapid.SampledFrom(vfForgeHows).Draw(rt, "how"),
			Arg:  rapid.IntRange(0, 40).Draw(rt, "arg"),
			Rep:  rapid.SampledFrom([]int{1, 1, 1, 2, n}).Draw(rt, "rep"),
		}
		if f.View > 0 && rapid.IntRange(0, 7).Draw(rt, "chain") == 0 {
			f.Kind, f.How = "Value1", "unchained"
		}
		c.Forge = append(c.Forge, f)
	}
	c.Sched = vfGenSched(rt, n, vfMVBAKinds)
	return c
}

type vfCertRun struct {
	c     vfCertCase
	s     *vfSim
	kr    *vfKeyring
	alien *vfKeyring
	id    []byte
	nodes []*vfNode
	x     *vfNode
	memo  map[string][]byte
	// what the member was given, by view
	own     map[string][][2][]byte // Value messages of their own sender: value, validation
	echo    map[string]map[int]bool
	finish  map[int]map[int][]byte
	coins   map[int]map[int]bool
	preYes  map[int]map[string]bool
	preNo   map[int]map[int]bool
	voteYes map[int]map[string]map[int]bool
	voteNo  map[int]map[int]bool
	halts   map[int]map[string]bool
	mine    map[string][]byte // its own proposals by view and stage
	echoed  map[string]bool
	err     error
	steps   map[string]int
	valid   map[string]bool // memo of verifications
}

func (r *vfCertRun) value(i int) []byte {
	return append([]byte{byte('a' + i)}, vlib.NewRng(r.c.Seed+uint64(i)).Bytes(8)...)
}

func (r *vfCertRun) full(sm []byte) []byte {
	if s, ok := r.memo[string(sm)]; ok {
		return s
	}
	s := r.kr.master(sm)
	r.memo[string(sm)] = s
	return s
}

func (r *vfCertRun) okCert(sm, sig []byte) bool {
	k := "c" + string(sm) + "|" + string(sig)
	if v, ok := r.valid[k]; ok {
		return v
	}
	v := bytes.Equal(sig, r.full(sm)) || vfBls.Verify(r.kr.pk.Commit(), sm, sig) == nil
	r.valid[k] = v
	return v
}

// okShare returns the signer of a valid share, or -1.
func (r *vfCertRun) okShare(sm, sig []byte) int {
	if len(sig) < 2 {
		return -1
	}
	i, err := tbls.SigShare(sig).Index()
	if err != nil {
		return -1
	}
	// Signatures are unique, so an honest share is known by its bytes.
	if i < len(r.nodes) && bytes.Equal(sig, r.kr.share(i, sm)) {
		return i
	}
	if vfTbls.VerifyPartial(r.kr.pk, sm, sig) != nil {
		return -1
	}
	return i
}

// chain justifies a valid proposal of view v.
func (r *vfCertRun) chain(v, j int) ([]byte, []byte) {
	val := r.value(r.c.Views[v].Vals[j])
	if v == 0 {
		return val, nil
	}
	if r.c.Views[v-1].Just == "lock" {
		val = r.value(r.c.Views[v-1].Vals[r.s.leaders(v-1)])
		return val, r.full(vfSmEcho(r.id, v-1, r.s.leaders(v-1), 1, val))
	}
	var b []byte
	for w := 0; w < v; w++ {
		b = append(b, r.full(vfSmUnlock(r.id, w))...)
	}
	return val, b
}

// okChain is the rule for proposals of later views.
func (r *vfCertRun) okChain(v int, value, validation []byte) bool {
	for w := v - 1; w >= 0; w-- {
		if len(validation) < 48 {
			return false
		}
		cert := validation[len(validation)-48:]
		validation = validation[:len(validation)-48]
		if r.okCert(vfSmUnlock(r.id, w), cert) {
			continue
		}
		return r.okCert(vfSmEcho(r.id, w, r.s.leaders(w), 1, value), cert)
	}
	return true
}

type vfSmSpec struct {
	word  string // Echo No Unlock Done
	v, j  int
	stage int
	val   []byte
	id    []byte
}

func (r *vfCertRun) sm(p vfSmSpec) []byte {
	id := r.id
	if p.id != nil {
		id = p.id
	}
	switch p.word {
	case "Echo":
		return vfSmEcho(id, p.v, p.j, p.stage, p.val)
	case "No":
		return vfSmNo(id, p.v)
	case "Unlock":
		return vfSmUnlock(id, p.v)
	}
	return vfSmCoin(id, p.v)
}

// forge signs something that does not count for p.
func (r *vfCertRun) forge(p vfSmSpec, share bool, from int, how string, arg int) []byte {
	rng := vlib.NewRng(uint64(arg) + 5)
	n := len(r.nodes)
	sign := func(p vfSmSpec) []byte {
		if share {
			return r.kr.share(from, r.sm(p))
		}
		return r.full(r.sm(p))
	}
	switch how {
	case "value":
		p.val = append(append([]byte{}, p.val...), byte(arg))
		if p.word != "Echo" {
			p.id = append(append([]byte{}, r.id...), 0)
		}
	case "stage":
		p.stage = 3 - p.stage
		if p.word != "Echo" {
			p.word, p.j, p.stage, p.val = "Echo", r.s.leaders(p.v), 1, r.value(0)
		}
	case "view":
		if p.v > 0 && arg%2 == 0 {
			p.v--
		} else {
			p.v++
		}
	case "instance":
		p.id = append([]byte{}, r.id...)
		if arg%2 == 0 {
			p.id = p.id[:len(p.id)-1]
		} else {
			p.id[arg%len(p.id)] ^= 1
		}
	case "member":
		p.j = (p.j + 1 + arg%(n-1)) % n
		if p.word != "Echo" {
			p.v++
		}
	case "word":
		words := []string{"No", "Unlock", "Done"}
		w := words[arg%3]
		if w == p.word {
			w = words[(arg+1)%3]
		}
		p.word = w
	case "share": // one member's share in place of a certificate
		return r.kr.share(from, r.sm(p))
	case "full": // a certificate in place of a share
		if share {
			return append([]byte{0, byte(from)}, r.full(r.sm(p))...)
		}
		return r.kr.share(from, r.sm(p))[2:]
	case "otherkeys":
		if share {
			return r.alien.share(from, r.sm(p))
		}
		return r.alien.master(r.sm(p))
	case "random":
		return rng.Bytes([]int{48, 50, 1, 96}[arg%4])
	case "empty":
		return nil
	case "under": // fewer shares than needed, combined all the same
		if share {
			s := r.kr.share(from, r.sm(p))
			s[len(s)-1] ^= 1
			return s
		}
		var sigs [][]byte
		for i := 0; i < 2*r.c.F; i++ {
			sigs = append(sigs, r.kr.share((from+i)%n, r.sm(p)))
		}
		s, err := vfTbls.Recover(r.kr.pk, r.sm(p), sigs, 2*r.c.F, n)
		if err != nil {
			return nil
		}
		return s
	case "relabel": // another member's number on this member's share
		if share {
			s := r.kr.share(from, r.sm(p))
			s[0], s[1] = 0, byte((from+1+arg%(n-1))%n)
			return s
		}
		p.v++
	}
	return sign(p)
}

// make builds one message; how "" is a valid one.
func (r *vfCertRun) make(kind string, v, from int, how string, arg int) *protobuf.Message {
	l := r.s.leaders(v)
	lv := r.value(r.c.Views[v].Vals[l])
	own := r.value(r.c.Views[v].Vals[from])
	if v > 0 {
		own, _ = r.chain(v, from)
		lv, _ = r.chain(v, l)
	}
	if l == r.c.X { // what the member itself proposed
		if x, ok := r.mine[fmt.Sprintf("%d/1", v)]; ok {
			lv = x
		} else {
			return nil
		}
	}
	sig := func(p vfSmSpec) []byte {
		if how == "" || how == "repeat" || how == "second" {
			return r.full(r.sm(p))
		}
		return r.forge(p, false, from, how, arg)
	}
	shr := func(p vfSmSpec) []byte {
		if how == "" || how == "repeat" || how == "second" {
			return r.kr.share(from, r.sm(p))
		}
		return r.forge(p, true, from, how, arg)
	}
	idv := vfIDv(r.id, v)
	sender := uint32(from)
	if how == "splice" { // the certificate of a valid message around another value
		j := (from + 1 + arg%(len(r.nodes)-1)) % len(r.nodes)
		if j == r.c.X {
			j = (j + 1) % len(r.nodes)
		}
		theirs := r.value(r.c.Views[v].Vals[j])
		if v > 0 {
			theirs, _ = r.chain(v, j)
		}
		other := append(append([]byte{}, lv...), 'x')
		full := func(j, st int, val []byte) []byte {
			return r.full(r.sm(vfSmSpec{word: "Echo", v: v, j: j, stage: st, val: val}))
		}
		switch kind {
		case "Value2":
			return core.Encapsulation("Value", vfCat(vfIDvj(r.id, v, from), []byte{2}), sender, &protobuf.Value{Value: other, Validation: full(from, 1, own)})
		case "Finish":
			val := own
			if arg/8%2 == 0 || bytes.Equal(own, theirs) {
				val = append(append([]byte{}, own...), 'x')
			}
			return core.Encapsulation("Finish", idv, sender, &protobuf.Finish{Value: val, Sig: full(j, 2, theirs)})
		case "PreYes":
			return core.Encapsulation("PreVote", idv, sender, &protobuf.PreVote{Vote: true, Value: other, Sig: full(l, 1, lv)})
		case "VoteYes":
			share := r.kr.share(from, r.sm(vfSmSpec{word: "Echo", v: v, j: l, stage: 2, val: other}))
			if arg/8%2 == 0 {
				share = r.kr.share(from, r.sm(vfSmSpec{word: "Echo", v: v, j: l, stage: 2, val: lv}))
			}
			return core.Encapsulation("Vote", idv, sender, &protobuf.Vote{Vote: true, Value: other, Sig: full(l, 1, lv), Sigshare: share})
		case "Halt":
			return core.Encapsulation("Halt", idv, sender, &protobuf.Halt{Value: other, Sig: full(l, 2, lv)})
		}
		return nil
	}
	echo := func(j, st int, val []byte) vfSmSpec { return vfSmSpec{word: "Echo", v: v, j: j, stage: st, val: val} }
	switch kind {
	case "Value1":
		val, just := r.chain(v, from)
		j := from
		switch how {
		case "", "repeat":
		case "second":
			if v == 0 {
				val = r.value((r.c.Views[v].Vals[from] + 1) % 3)
			}
		case "squat":
			j = (from + 1 + arg%(len(r.nodes)-1)) % len(r.nodes)
		case "unchained":
			switch k := len(just) / 48; {
			case arg%4 == 1 && k > 0: // the last view only
				just = just[48*(k-1):]
			case arg%4 == 2 && k > 0: // the first view is missing
				just = just[48:]
			case arg%4 == 3 && v > 1: // another value's lock below
				w := v - 2
				other := r.value((r.c.Views[w].Vals[r.s.leaders(w)] + 1) % 3)
				just = append(append([]byte{}, r.full(vfSmEcho(r.id, w, r.s.leaders(w), 1, other))...), r.full(vfSmUnlock(r.id, v-1))...)
			default:
				just = just[:len(just)/48*48/2]
			}
		case "value":
			val = r.value((r.c.Views[v].Vals[from] + 1) % 3)
		default:
			if v == 0 {
				return nil
			}
			p := vfSmSpec{word: "Unlock", v: v - 1}
			if arg%2 == 0 {
				p = vfSmSpec{word: "Echo", v: v - 1, j: r.s.leaders(v - 1), stage: 1, val: val}
			}
			just = r.forge(p, false, from, how, arg)
		}
		return core.Encapsulation("Value", vfCat(vfIDvj(r.id, v, j), []byte{1}), sender, &protobuf.Value{Value: val, Validation: just})
	case "Value2":
		j := from
		if how == "squat" {
			j = (from + 1 + arg%(len(r.nodes)-1)) % len(r.nodes)
		}
		return core.Encapsulation("Value", vfCat(vfIDvj(r.id, v, j), []byte{2}), sender, &protobuf.Value{Value: own, Validation: sig(echo(j, 1, own))})
	case "Echo1", "Echo2":
		st := int(kind[4] - '0')
		val, ok := r.mine[fmt.Sprintf("%d/%d", v, st)]
		if !ok {
			return nil
		}
		return core.Encapsulation("Echo", vfCat(vfIDvj(r.id, v, r.c.X), []byte{byte(st)}), sender, &protobuf.Echo{Sigshare: shr(echo(r.c.X, st, val))})
	case "Finish":
		j := from
		if how == "squat" {
			j = (from + 1 + arg%(len(r.nodes)-1)) % len(r.nodes)
		}
		return core.Encapsulation("Finish", idv, sender, &protobuf.Finish{Value: own, Sig: sig(echo(j, 2, own))})
	case "Done":
		return core.Encapsulation("Done", idv, sender, &protobuf.Done{CoinShare: shr(vfSmSpec{word: "Done", v: v})})
	case "PreYes":
		return core.Encapsulation("PreVote", idv, sender, &protobuf.PreVote{Vote: true, Value: lv, Sig: sig(echo(l, 1, lv))})
	case "PreNo":
		return core.Encapsulation("PreVote", idv, sender, &protobuf.PreVote{Sig: shr(vfSmSpec{word: "No", v: v})})
	case "VoteYes":
		c, s := r.full(r.sm(echo(l, 1, lv))), r.kr.share(from, r.sm(echo(l, 2, lv)))
		if how != "" && how != "repeat" && how != "second" {
			if arg%2 == 0 {
				c = sig(echo(l, 1, lv))
			} else {
				s = shr(echo(l, 2, lv))
			}
		}
		return core.Encapsulation("Vote", idv, sender, &protobuf.Vote{Vote: true, Value: lv, Sig: c, Sigshare: s})
	case "VoteNo":
		c, s := r.full(vfSmNo(r.id, v)), r.kr.share(from, vfSmUnlock(r.id, v))
		if how != "" && how != "repeat" && how != "second" {
			if arg%2 == 0 {
				c = sig(vfSmSpec{word: "No", v: v})
			} else {
				s = shr(vfSmSpec{word: "Unlock", v: v})
			}
		}
		return core.Encapsulation("Vote", idv, sender, &protobuf.Vote{Sig: c, Sigshare: s})
	case "Halt":
		return core.Encapsulation("Halt", idv, sender, &protobuf.Halt{Value: lv, Sig: sig(echo(l, 2, lv))})
	}
	return nil
}

// others are the members besides the one under test, in an order of this view.
func (r *vfCertRun) others(v int, kind string) []int {
	var out []int
	for _, x := range vfPerm(vlib.NewRng(r.c.Seed+uint64(v*100)+uint64(len(kind))), len(r.nodes)) {
		if x != r.c.X {
			out = append(out, x)
		}
	}
	return out
}

func (r *vfCertRun) send(kind string, v, count int) {
	o := r.others(v, kind)
	for i := 0; i < count && i < len(o); i++ {
		k := i
		if kind == "VoteNo" || kind == "PreNo" { // other members than those that say yes
			k = len(o) - 1 - i
		}
		r.put(kind, v, o[k], "", 0, 1)
	}
	for _, f := range r.c.Forge {
		if f.Kind == kind && f.View == v {
			from := f.From
			if from < 0 { // the leader
				from = r.s.leaders(v)
			}
			if from == r.c.X {
				from = (from + 1) % len(r.nodes)
			}
			r.put(kind, v, from, f.How, f.Arg, f.Rep)
		}
	}
}

func (r *vfCertRun) put(kind string, v, from int, how string, arg, rep int) {
	m := r.make(kind, v, from, how, arg)
	if m == nil {
		return
	}
	if how != "" {
		r.steps["forged "+kind+" "+how]++
	}
	if how == "repeat" && rep < 2 {
		rep = 2
	}
	for k := 0; k < rep; k++ {
		c := vfCloneMsg(m)
		if how == "repeat" && k > 0 && (kind == "Echo1" || kind == "Echo2" || kind == "Done" || kind == "PreNo" || kind == "VoteNo" || kind == "VoteYes") {
			// the same signer's share, brought by another member
			if f := (from + k) % len(r.nodes); f != r.c.X {
				c.Sender = uint32(f)
			}
		}
		r.s.inject(r.nodes[from], r.x, c)
	}
}

func (r *vfCertRun) record(e *vfEnv) {
	m, v := e.m, e.view
	set := func(mm map[int]map[int]bool, i int) {
		if mm[v] == nil {
			mm[v] = map[int]bool{}
		}
		if i >= 0 {
			mm[v][i] = true
		}
	}
	switch m.Type {
	case "Value":
		var p protobuf.Value
		if proto.Unmarshal(m.Data, &p) == nil && int(m.Sender) == e.inst {
			k := fmt.Sprintf("%d/%d/%d", v, e.inst, e.stage)
			r.own[k] = append(r.own[k], [2][]byte{p.Value, p.Validation})
		}
	case "Echo":
		var p protobuf.Echo
		if proto.Unmarshal(m.Data, &p) == nil && e.inst == r.c.X {
			k := fmt.Sprintf("%d/%d", v, e.stage)
			val, ok := r.mine[k]
			if !ok {
				return
			}
			if i := r.okShare(vfSmEcho(r.id, v, e.inst, e.stage, val), p.Sigshare); i >= 0 {
				if r.echo[k] == nil {
					r.echo[k] = map[int]bool{}
				}
				r.echo[k][i] = true
			}
		}
	case "Finish":
		var p protobuf.Finish
		if proto.Unmarshal(m.Data, &p) == nil && r.okCert(vfSmEcho(r.id, v, int(m.Sender), 2, p.Value), p.Sig) {
			if r.finish[v] == nil {
				r.finish[v] = map[int][]byte{}
			}
			r.finish[v][int(m.Sender)] = p.Value
		}
	case "Done":
		var p protobuf.Done
		if proto.Unmarshal(m.Data, &p) == nil {
			set(r.coins, r.okShare(vfSmCoin(r.id, v), p.CoinShare))
		}
	case "PreVote":
		var p protobuf.PreVote
		if proto.Unmarshal(m.Data, &p) == nil {
			if p.Vote && r.okCert(vfSmEcho(r.id, v, r.s.leaders(v), 1, p.Value), p.Sig) {
				if r.preYes[v] == nil {
					r.preYes[v] = map[string]bool{}
				}
				r.preYes[v][string(p.Value)] = true
			} else if !p.Vote {
				set(r.preNo, r.okShare(vfSmNo(r.id, v), p.Sig))
			}
		}
	case "Vote":
		var p protobuf.Vote
		if proto.Unmarshal(m.Data, &p) == nil {
			if p.Vote {
				if r.okCert(vfSmEcho(r.id, v, r.s.leaders(v), 1, p.Value), p.Sig) {
					if i := r.okShare(vfSmEcho(r.id, v, r.s.leaders(v), 2, p.Value), p.Sigshare); i >= 0 {
						if r.voteYes[v] == nil {
							r.voteYes[v] = map[string]map[int]bool{}
						}
						if r.voteYes[v][string(p.Value)] == nil {
							r.voteYes[v][string(p.Value)] = map[int]bool{}
						}
						r.voteYes[v][string(p.Value)][i] = true
					}
				}
			} else if r.okCert(vfSmNo(r.id, v), p.Sig) {
				set(r.voteNo, r.okShare(vfSmUnlock(r.id, v), p.Sigshare))
			}
		}
	case "Halt":
		var p protobuf.Halt
		if proto.Unmarshal(m.Data, &p) == nil && r.okCert(vfSmEcho(r.id, v, r.s.leaders(v), 2, p.Value), p.Sig) {
			if r.halts[v] == nil {
				r.halts[v] = map[string]bool{}
			}
			r.halts[v][string(p.Value)] = true
		}
	}
}

func (r *vfCertRun) bad(format string, a ...interface{}) {
	if r.err == nil {
		r.err = fmt.Errorf(format, a...)
	}
}

// decided tells whether the member has evidence for deciding a value in a view.
func (r *vfCertRun) decided(v int, val []byte) bool {
	if x, ok := r.finish[v][r.s.leaders(v)]; ok && bytes.Equal(x, val) {
		return true
	}
	return r.halts[v][string(val)] || len(r.voteYes[v][string(val)]) >= 2*r.c.F+1
}

// judge compares a message of the member with what it was given.
func (r *vfCertRun) judge(e *vfEnv) {
	m, v, q := e.m, e.view, 2*r.c.F+1
	elected := len(r.coins[v]) >= q
	l := r.s.leaders(v)
	if int(m.Sender) != r.c.X {
		r.bad("it sent a %s as member %d", m.Type, m.Sender)
	}
	switch m.Type {
	case "Value":
		var p protobuf.Value
		_ = proto.Unmarshal(m.Data, &p)
		if e.inst != r.c.X {
			r.bad("it proposes for member %d", e.inst)
		}
		k := fmt.Sprintf("%d/%d", v, e.stage)
		if old, ok := r.mine[k]; ok {
			if !bytes.Equal(old, p.Value) {
				r.bad("two proposals in view %d, stage %d", v, e.stage)
			}
			return
		}
		if e.stage == 2 {
			if !r.okCert(vfSmEcho(r.id, v, r.c.X, 1, p.Value), p.Validation) || len(r.echo[fmt.Sprintf("%d/1", v)]) < q {
				r.bad("view %d: it goes to the second stage with the shares of %d members", v, len(r.echo[fmt.Sprintf("%d/1", v)]))
			}
		} else if v > 0 {
			yes := map[int]bool{}
			for _, s := range r.voteYes[v-1] {
				for i := range s {
					yes[i] = true
				}
			}
			for i := range r.voteNo[v-1] {
				yes[i] = true
			}
			if len(yes) < q || !r.okChain(v, p.Value, p.Validation) {
				r.bad("it enters view %d on the votes of %d members (justified: %v)", v, len(yes), r.okChain(v, p.Value, p.Validation))
			}
		}
		r.mine[k] = p.Value
		r.steps[fmt.Sprintf("proposes in view %d stage %d", v, e.stage)]++
		r.send(fmt.Sprintf("Echo%d", e.stage), v, []int{r.c.Views2(v).Echo1, r.c.Views2(v).Echo2}[e.stage-1])
		if e.stage == 1 && r.c.X == l {
			r.later(v)
		}
	case "Echo":
		var p protobuf.Echo
		_ = proto.Unmarshal(m.Data, &p)
		k := fmt.Sprintf("%d/%d/%d", v, e.inst, e.stage)
		if r.echoed[k] {
			r.bad("two echoes in view %d to member %d", v, e.inst)
		}
		r.echoed[k] = true
		ok := false
		for _, x := range r.own[k] {
			if r.okShare(vfSmEcho(r.id, v, e.inst, e.stage, x[0]), p.Sigshare) != r.c.X {
				continue
			}
			if e.stage == 1 && r.okChain(v, x[0], x[1]) || e.stage == 2 && r.okCert(vfSmEcho(r.id, v, e.inst, 1, x[0]), x[1]) {
				ok = true
			}
		}
		if !ok {
			r.bad("view %d: it echoes stage %d of member %d without a justified value of that member", v, e.stage, e.inst)
		}
		if e.to.idx != e.inst {
			r.bad("its echo for member %d goes to member %d", e.inst, e.to.idx)
		}
		r.steps["echo"]++
	case "Finish":
		var p protobuf.Finish
		_ = proto.Unmarshal(m.Data, &p)
		if !r.okCert(vfSmEcho(r.id, v, r.c.X, 2, p.Value), p.Sig) || len(r.echo[fmt.Sprintf("%d/2", v)]) < q {
			r.bad("view %d: it finishes with the shares of %d members", v, len(r.echo[fmt.Sprintf("%d/2", v)]))
		}
		r.steps["finish"]++
	case "Done":
		var p protobuf.Done
		_ = proto.Unmarshal(m.Data, &p)
		if r.okShare(vfSmCoin(r.id, v), p.CoinShare) != r.c.X {
			r.bad("view %d: its coin share is none", v)
		}
		if len(r.finish[v]) < q && len(r.coins[v]) < r.c.F+1 {
			r.bad("view %d: it releases its coin share after %d finishes and %d coin shares", v, len(r.finish[v]), len(r.coins[v]))
		}
		r.steps["coin"]++
	case "PreVote":
		var p protobuf.PreVote
		_ = proto.Unmarshal(m.Data, &p)
		if !elected {
			r.bad("view %d: it prevotes after %d coin shares", v, len(r.coins[v]))
		}
		if p.Vote && !r.okCert(vfSmEcho(r.id, v, l, 1, p.Value), p.Sig) || !p.Vote && r.okShare(vfSmNo(r.id, v), p.Sig) != r.c.X {
			r.bad("view %d: its prevote (%v) has no valid certificate", v, p.Vote)
		}
		if p.Vote { // the lock came from the leader itself
			ok := false
			for _, x := range r.own[fmt.Sprintf("%d/%d/2", v, l)] {
				ok = ok || bytes.Equal(x[0], p.Value)
			}
			if !ok {
				r.bad("view %d: it prevotes for a value it did not get from the leader", v)
			}
		}
		r.steps[fmt.Sprintf("prevote %v", p.Vote)]++
	case "Vote":
		var p protobuf.Vote
		_ = proto.Unmarshal(m.Data, &p)
		if !elected {
			r.bad("view %d: it votes after %d coin shares", v, len(r.coins[v]))
		}
		if p.Vote {
			if !r.okCert(vfSmEcho(r.id, v, l, 1, p.Value), p.Sig) || !r.preYes[v][string(p.Value)] || r.okShare(vfSmEcho(r.id, v, l, 2, p.Value), p.Sigshare) != r.c.X {
				r.bad("view %d: its vote for a value is not justified", v)
			}
		} else if !r.okCert(vfSmNo(r.id, v), p.Sig) || len(r.preNo[v]) < q || r.okShare(vfSmUnlock(r.id, v), p.Sigshare) != r.c.X {
			r.bad("view %d: it votes no after %d prevotes", v, len(r.preNo[v]))
		}
		r.steps[fmt.Sprintf("vote %v", p.Vote)]++
	case "Halt":
		var p protobuf.Halt
		_ = proto.Unmarshal(m.Data, &p)
		if !r.okCert(vfSmEcho(r.id, v, l, 2, p.Value), p.Sig) || !r.decided(v, p.Value) {
			r.bad("view %d: it halts without the certificate of the leader's value", v)
		}
		r.steps["halt"]++
	}
}

// Views2 is the script of a view; after the last one nothing comes.
func (c vfCertCase) Views2(v int) vfCertView {
	if v < len(c.Views) {
		return c.Views[v]
	}
	return vfCertView{}
}

// later sends what refers to the leader's value.
func (r *vfCertRun) later(v int) {
	if v >= len(r.c.Views) {
		return
	}
	w := r.c.Views[v]
	r.send("PreYes", v, w.PreYes)
	r.send("VoteYes", v, w.VoteYes)
	r.send("Halt", v, w.Halt)
}

func vfRunCert(c vfCertCase, o *vlib.Obs) error {
	r := &vfCertRun{c: c, s: vfNewSim(c.Sched), kr: vfKeys(c.F), alien: vfKeys(c.F), memo: map[string][]byte{},
		own: map[string][][2][]byte{}, echo: map[string]map[int]bool{}, finish: map[int]map[int][]byte{}, coins: map[int]map[int]bool{},
		preYes: map[int]map[string]bool{}, preNo: map[int]map[int]bool{}, voteYes: map[int]map[string]map[int]bool{}, voteNo: map[int]map[int]bool{},
		halts: map[int]map[string]bool{}, mine: map[string][]byte{}, echoed: map[string]bool{}, steps: map[string]int{}, valid: map[string]bool{}}
	r.s.trace = c.Trace
	r.id = r.kr.findID("certs", c.Leaders)
	r.s.leaders = r.kr.leaders(r.id)
	r.nodes = r.s.committee(0, uint32(c.F), r.kr.sk, r.kr.pk)
	r.s.next(r.nodes, r.nodes)
	for _, nd := range r.nodes {
		nd.silent = nd.idx != c.X
	}
	r.x = r.nodes[c.X]
	judged := map[string]bool{}
	r.s.onSend = func(e *vfEnv) []*vfEnv {
		if e.from == r.x && vfIsAgreement(e.kind) {
			k := e.kind + string(e.m.Id)
			if !judged[k] {
				judged[k] = true
				r.judge(e)
			}
			if e.to != r.x {
				return nil
			}
		}
		return []*vfEnv{e}
	}
	r.s.onRecv = func(e *vfEnv) {
		if e.to == r.x {
			r.record(e)
		}
	}
	for v, w := range c.Views {
		r.send("Value1", v, w.Prop)
		r.send("Value2", v, w.Prop2)
		r.send("Finish", v, w.Finish)
		r.send("Done", v, w.Done)
		r.send("PreNo", v, w.PreNo)
		r.send("VoteNo", v, w.VoteNo)
		if r.s.leaders(v) != c.X {
			r.later(v)
		}
	}
	r.x.start(func(p *HonestParty) { r.x.result = MainProcess(p, r.id, r.value(c.Views[0].Vals[c.X]), []byte{}) })
	if err := r.s.run(); err != nil {
		return err
	}
	if r.err != nil {
		return r.err
	}
	if r.x.finished() {
		ok := false
		for v := 0; v < 20; v++ {
			ok = ok || r.decided(v, r.x.result)
		}
		if !ok {
			return fmt.Errorf("it decided %.12x without evidence for it", r.x.result)
		}
		o.Class("decides")
	}
	forged := false
	for k := range r.steps {
		o.Class("%s", k)
		forged = forged || len(k) > 6 && k[:6] == "forged"
	}
	o.NonTrivial = forged
	return nil
}

func vfIsAgreement(kind string) bool {
	for _, k := range vfMVBAKinds[1:] {
		if k == kind {
			return true
		}
	}
	return false
}

func TestVF_C11_Certificates(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C11", Quick: 1600, Thorough: 40000, Isolated: true}, vfGenCert, vfRunCert)
}

// Proposals of late views: all views before end without a value, and the proposals rest on certificates of which a part
// is missing, is of another view or of another value; few members send a right one as well.
func TestVF_C11_Chain(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C11", Quick: 160, Thorough: 8000, Isolated: true}, func(rt *rapid.T) vfCertCase {
		c := vfGenCert(rt)
		n := 3*c.F + 1
		nv := rapid.IntRange(2, 4).Draw(rt, "long")
		for len(c.Leaders) < nv {
			c.Leaders = append(c.Leaders, rapid.IntRange(0, n-1).Draw(rt, "leader"))
		}
		for len(c.Views) < nv {
			c.Views = append(c.Views, c.Views[len(c.Views)-1])
		}
		c.Leaders, c.Views = c.Leaders[:nv], c.Views[:nv]
		for v := range c.Views {
			w := &c.Views[v]
			w.Just = rapid.SampledFrom([]string{"unlock", "unlock", "unlock", "lock"}).Draw(rt, "rest")
			w.Prop = rapid.IntRange(0, n/2).Draw(rt, "right")
			w.Done, w.Halt = n-1, 0
			if v+1 < nv {
				w.PreYes, w.VoteYes, w.PreNo, w.VoteNo = 0, 0, n-1, n-1
				w.Finish = rapid.SampledFrom([]int{0, 0, 0, 0, 1, n - 1}).Draw(rt, "finishes") // that of the leader decides
				if rapid.IntRange(0, 3).Draw(rt, "some") == 0 {
					w.PreYes, w.VoteYes, w.VoteNo = 1, 1, n-2
				}
			}
		}
		c.Forge = nil
		for k := rapid.IntRange(1, 8).Draw(rt, "forgeries"); k > 0; k-- {
			c.Forge = append(c.Forge, vfForge{Kind: "Value1",
				View: rapid.OneOf(rapid.Just(nv-1), rapid.IntRange(1, nv-1)).Draw(rt, "in"),
				From: rapid.IntRange(0, n-1).Draw(rt, "by"),
				How:  rapid.SampledFrom([]string{"unchained", "unchained", "unchained", "view", "member", "stage", "value", "word", "under", "otherkeys", "empty"}).Draw(rt, "as"),
				Arg:  rapid.IntRange(0, 40).Draw(rt, "with"), Rep: 1})
		}
		return c
	}, vfRunCert)
}
