package party

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	"github.com/drand/kyber/sign/tbls"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// The network of a case lives in the harness: everything a member sends ends
// in a pool, and the case's schedule decides what is received next. A node is
// given something only when no goroutine of the process can run.

type vfRule struct {
	Kind  string `json:"kind"`           // "" any
	From  int    `json:"from"`           // -1 any, 100+v the leader of view v
	To    int    `json:"to"`             // -1 any, 100+v the leader of view v
	Inst  int    `json:"inst"`           // broadcast instance or SPB member, -1 any
	View  int    `json:"view"`           // -1 any
	Stage int    `json:"stage"`          // 1|2 for SPB and RBC, -1 any
	Prio  int    `json:"prio"`           // received only after everything of lower number
	Each  int    `json:"each,omitempty"` // up to so much is added, for every pair of members
}

type vfSched struct {
	Policy string   `json:"policy"` // fifo lifo random link
	Seed   uint64   `json:"seed"`
	Batch  int      `json:"batch"`
	Rules  []vfRule `json:"rules,omitempty"`
	Procs  int      `json:"procs"`
	Slow   []int    `json:"slow,omitempty"` // members whose incoming messages come last, in order
}

type vfEnv struct {
	from, to *vfNode
	m        *protobuf.Message
	seq      int
	kind     string
	inst     int
	view     int
	stage    int
	prio     int
	key      uint64
}

type vfNode struct {
	p       *HonestParty
	com     int // committee
	idx     int
	recv    chan *protobuf.Message
	out     []vfPort // own and next committee
	silent  bool
	limit   int // crashes after this many sends, -1 never
	sent    int
	crashed bool
	only    string // the kind of message that counts
	drops   []vfDrop
	byz     *vfByz
	faulty  bool
	done    int32
	started bool
	result  []byte
	name    string
}

// loses reports whether a faulty member's message never leaves it.
func (nd *vfNode) loses(kind string, to int) bool {
	for _, d := range nd.drops {
		if (d.Kind == "" || d.Kind == kind) && vfHas(d.To, to) {
			return true
		}
	}
	return false
}

type vfPort struct {
	ch []chan *protobuf.Message
	to []*vfNode
}

type vfSim struct {
	nodes    []*vfNode
	pool     []*vfEnv
	sched    vfSched
	rng      *vlib.Rng
	seq      int
	spinning bool
	leaders  func(view int) int
	onSend   func(e *vfEnv) []*vfEnv // last word on what enters the pool
	onRecv   func(e *vfEnv)
	onIdle   func() bool // nothing is left: may begin something more
	count    int
	max      int
	log      []string
	trace    bool
	watch    *vfWatch
}

func vfNewSim(s vfSched) *vfSim {
	procs := s.Procs
	if procs < 1 {
		procs = 1
	}
	runtime.GOMAXPROCS(procs)
	crand.Reader = &vfCryptoRand{r: vlib.NewRng(s.Seed ^ 0x5eed)}
	if s.Batch < 1 {
		s.Batch = 1
	}
	return &vfSim{sched: s, rng: vlib.NewRng(s.Seed), max: 400000, watch: vfWatching}
}

type vfCryptoRand struct {
	lock int32
	r    *vlib.Rng
}

func (c *vfCryptoRand) Read(b []byte) (int, error) {
	for !atomic.CompareAndSwapInt32(&c.lock, 0, 1) {
		runtime.Gosched()
	}
	n, err := c.r.Read(b)
	atomic.StoreInt32(&c.lock, 0)
	return n, err
}

// committee adds n members with wired channels.
func (s *vfSim) committee(com int, f uint32, sk []*share.PriShare, pk *share.PubPoly) []*vfNode {
	n := 3*f + 1
	e := make([]string, n)
	var nodes []*vfNode
	for i := uint32(0); i < n; i++ {
		nd := &vfNode{com: com, idx: int(i), limit: -1, recv: make(chan *protobuf.Message, 1<<15), name: fmt.Sprintf("member %d of committee %d", i, com)}
		var key *share.PriShare
		if sk != nil {
			key = sk[i]
		}
		nd.p = NewHonestParty(uint32(com), n, f, i, e, e, e, e, pk, key)
		nodes = append(nodes, nd)
		s.nodes = append(s.nodes, nd)
	}
	for _, nd := range nodes {
		nd.link(nodes)
		vfWire(nd.p, nd.out[0].ch, nil, nd.recv)
	}
	return nodes
}

func (nd *vfNode) link(to []*vfNode) []chan *protobuf.Message {
	p := vfPort{to: to}
	for range to {
		p.ch = append(p.ch, make(chan *protobuf.Message, 1<<12))
	}
	nd.out = append(nd.out, p)
	return p.ch
}

// next wires the members' links to the next committee.
func (s *vfSim) next(old, new []*vfNode) {
	for _, nd := range old {
		vfWire(nd.p, nil, nd.link(new), nil)
	}
}

// start runs f as the node's program.
func (nd *vfNode) start(f func(p *HonestParty)) {
	nd.started = true
	atomic.StoreInt32(&nd.done, 0)
	if nd.silent {
		return
	}
	go func() {
		f(nd.p)
		atomic.StoreInt32(&nd.done, 1)
	}()
}

func (nd *vfNode) finished() bool { return atomic.LoadInt32(&nd.done) == 1 }

func (s *vfSim) settle(maxCPU time.Duration) bool {
	looks := 1
	if s.sched.Procs > 1 {
		looks = 4
	}
	for k := 0; k < looks; k++ {
		if !vlib.WaitIdle(maxCPU) {
			return false
		}
	}
	return true
}

func vfClassify(m *protobuf.Message) (kind string, inst, view, stage int) {
	kind, inst, view, stage = m.Type, -1, -1, -1
	id := m.Id
	switch kind {
	case "RBCPropose", "RBCEcho", "RBCReady":
		if i := bytes.LastIndexByte(id, ','); i >= 2 {
			if v, err := strconv.Atoi(string(id[i+1:])); err == nil {
				inst = v - 1
			}
			stage = int(id[i-1] - '0')
		}
	case "Recover":
		var rec protobuf.Recover
		if proto.Unmarshal(m.Data, &rec) == nil {
			inst = int(rec.Index) - 1
		}
	case "Value", "Echo":
		if len(id) >= 9 {
			stage = int(id[len(id)-1])
			inst = int(binary.BigEndian.Uint32(id[len(id)-5:]))
			view = int(binary.BigEndian.Uint32(id[len(id)-9:]))
		}
	case "Finish", "Done", "Halt", "PreVote", "Vote":
		if len(id) >= 4 {
			view = int(binary.BigEndian.Uint32(id[len(id)-4:]))
		}
	}
	return
}

func (s *vfSim) who(code int) int {
	if code >= 100 && s.leaders != nil {
		return s.leaders(code - 100)
	}
	return code
}

func (s *vfSim) envelope(from, to *vfNode, m *protobuf.Message) *vfEnv {
	s.seq++
	e := &vfEnv{from: from, to: to, m: m, seq: s.seq, key: s.rng.U64()}
	e.kind, e.inst, e.view, e.stage = vfClassify(m)
	for k, r := range s.sched.Rules {
		if (r.Kind == "" || r.Kind == e.kind) && (r.From < 0 || s.who(r.From) == from.idx) && (r.To < 0 || s.who(r.To) == to.idx) &&
			(r.Inst < 0 || r.Inst == e.inst) && (r.View < 0 || r.View == e.view) && (r.Stage < 0 || r.Stage == e.stage) {
			e.prio = r.Prio
			if r.Each > 0 {
				e.prio += vlib.NewRng(s.sched.Seed + uint64(k*10000+from.idx*100+to.idx)).Intn(r.Each + 1)
			}
			break
		}
	}
	for i, x := range s.sched.Slow {
		if x == to.idx {
			e.prio += 10 * (i + 1)
		}
	}
	return e
}

func vfCloneMsg(m *protobuf.Message) *protobuf.Message {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	var c protobuf.Message
	if err := proto.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// drain moves everything sent since the last look into the pool.
func (s *vfSim) drain() {
	for _, nd := range s.nodes {
		for _, port := range nd.out {
			for j, ch := range port.ch {
				for len(ch) > 0 {
					m := vfCloneMsg(<-ch)
					if nd.limit >= 0 && nd.sent >= nd.limit && (nd.only == "" || nd.only == m.Type) {
						nd.crashed = true
					}
					if nd.silent || nd.crashed || nd.loses(m.Type, port.to[j].idx) {
						continue
					}
					if nd.only == "" || nd.only == m.Type {
						nd.sent++
					}
					to := port.to[j]
					e := s.envelope(nd, to, m)
					if s.watch != nil && !nd.faulty {
						s.watch.said(nd, to, e)
					}
					es := []*vfEnv{e}
					if nd.byz != nil && to != nd {
						es = nd.byz.apply(s, e)
					}
					for _, e := range es {
						if s.onSend != nil {
							s.pool = append(s.pool, s.onSend(e)...)
						} else {
							s.pool = append(s.pool, e)
						}
					}
				}
			}
		}
	}
}

// inject puts a message of the harness's making into the pool.
func (s *vfSim) inject(from, to *vfNode, m *protobuf.Message) {
	s.pool = append(s.pool, s.envelope(from, to, vfCloneMsg(m)))
}

func (s *vfSim) pick() *vfEnv {
	low := s.pool[0].prio
	for _, e := range s.pool {
		if e.prio < low {
			low = e.prio
		}
	}
	best := -1
	better := func(a, b *vfEnv) bool { return a.seq < b.seq }
	switch s.sched.Policy {
	case "lifo":
		better = func(a, b *vfEnv) bool { return a.seq > b.seq }
	case "random":
		better = func(a, b *vfEnv) bool { return a.key < b.key }
	case "link":
		// a random link, and its oldest message
		n := 0
		var pickd *vfEnv
		for _, e := range s.pool {
			if e.prio == low {
				n++
				if s.rng.Intn(n) == 0 {
					pickd = e
				}
			}
		}
		for i, e := range s.pool {
			if e.prio == low && e.from == pickd.from && e.to == pickd.to && (best < 0 || e.seq < s.pool[best].seq) {
				best = i
			}
		}
		return s.take(best)
	}
	for i, e := range s.pool {
		if e.prio == low && (best < 0 || better(e, s.pool[best])) {
			best = i
		}
	}
	return s.take(best)
}

func (s *vfSim) take(i int) *vfEnv {
	e := s.pool[i]
	s.pool[i] = s.pool[len(s.pool)-1]
	s.pool = s.pool[:len(s.pool)-1]
	return e
}

func (s *vfSim) deliver(e *vfEnv) {
	s.count++
	if s.trace {
		fmt.Printf("%5d %s %d/%d -> %d/%d inst %d view %d stage %d\n", s.count, e.kind, e.from.com, e.from.idx, e.to.com, e.to.idx, e.inst, e.view, e.stage)
	}
	if s.onRecv != nil {
		s.onRecv(e)
	}
	if e.to.silent || e.to.recv == nil {
		return
	}
	e.to.recv <- e.m
}

// run exchanges messages until none is left and nobody can run.
func (s *vfSim) run() error { return s.runUntil(nil) }

func (s *vfSim) runUntil(stop func() bool) error {
	for {
		cap := 3 * time.Second
		if s.spinning {
			cap = 30 * time.Millisecond
		}
		if !s.settle(cap) {
			s.spinning = true
		}
		s.drain()
		if stop != nil && stop() {
			return nil
		}
		if len(s.pool) == 0 {
			if !s.settle(25 * time.Second) {
				s.drain()
				if len(s.pool) == 0 {
					return fmt.Errorf("all messages were received but some member keeps computing without end")
				}
				continue
			}
			s.drain()
			if len(s.pool) == 0 && (s.onIdle == nil || !s.onIdle()) {
				return nil
			}
			continue
		}
		for k := 0; k < s.sched.Batch && len(s.pool) > 0; k++ {
			s.deliver(s.pick())
		}
		if s.count > s.max {
			return vlib.Inconclusive("more than %d messages", s.max)
		}
	}
}

// ---- generators

var vfKinds = []string{"", "Prepare", "ShareReduce", "RBCPropose", "RBCEcho", "RBCReady", "Reshare", "Recover", "ShareDist", "Success", "Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote"}

func vfGenSched(rt *rapid.T, n int, kinds []string) vfSched {
	s := vfSched{
		Policy: rapid.SampledFrom([]string{"random", "link", "fifo", "lifo"}).Draw(rt, "policy"),
		Seed:   rapid.Uint64().Draw(rt, "schedseed"),
		Batch:  rapid.SampledFrom([]int{1, 1, 2, 5, 20}).Draw(rt, "batch"),
		Procs:  rapid.SampledFrom([]int{1, 1, 1, 1, 4}).Draw(rt, "procs"),
	}
	nr := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4}).Draw(rt, "rules")
	for i := 0; i < nr; i++ {
		who := func(name string) int {
			switch rapid.IntRange(0, 3).Draw(rt, name+"k") {
			case 0:
				return rapid.IntRange(0, n-1).Draw(rt, name)
			case 1:
				return 100 + rapid.IntRange(0, 1).Draw(rt, name)
			}
			return -1
		}
		r := vfRule{
			Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), From: who("from"), To: who("to"), Inst: -1, View: -1, Stage: -1,
			Prio: rapid.SampledFrom([]int{1, 1, 2, 2, 3, 0}).Draw(rt, "prio"),
		}
		if rapid.IntRange(0, 2).Draw(rt, "i") == 0 {
			r.Inst = rapid.IntRange(0, n-1).Draw(rt, "inst")
		}
		if rapid.IntRange(0, 2).Draw(rt, "s") == 0 {
			r.Stage = rapid.IntRange(1, 2).Draw(rt, "stage")
		}
		if rapid.IntRange(0, 3).Draw(rt, "v") == 0 {
			r.View = rapid.IntRange(0, 2).Draw(rt, "view")
		}
		s.Rules = append(s.Rules, r)
	}
	if rapid.IntRange(0, 3).Draw(rt, "slowk") == 0 {
		s.Slow = []int{rapid.IntRange(0, n-1).Draw(rt, "slow")}
	}
	return s
}

// vfDrop are messages of a faulty member that are lost.
type vfDrop struct {
	Kind string `json:"kind"` // "" any
	To   []int  `json:"to"`   // empty: all
}

type vfCrash struct {
	Node  int    `json:"node"`
	After int    `json:"after"`          // sends before it stops; 0 is silent from the start
	Kind  string `json:"kind,omitempty"` // only messages of this kind count

	Drop []vfDrop `json:"drop,omitempty"` // it does not stop, but these are lost
}

// vfGenSubset draws at most max distinct members.
func vfGenSubset(rt *rapid.T, name string, n, max int) []int {
	k := rapid.IntRange(0, max).Draw(rt, name+"count")
	seen := map[int]bool{}
	var out []int
	for i := 0; i < k; i++ {
		x := rapid.IntRange(0, n-1).Draw(rt, name)
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Ints(out)
	return out
}

func vfGenCrashes(rt *rapid.T, name string, n, f, most int) []vfCrash {
	var out []vfCrash
	for _, x := range vfGenSubset(rt, name, n, f) {
		out = append(out, vfCrash{Node: x, After: rapid.OneOf(rapid.Just(0), rapid.IntRange(1, most), rapid.IntRange(1, 12)).Draw(rt, name+"after")})
	}
	return out
}

func vfCrashNodes(nodes []*vfNode, cs []vfCrash) {
	for _, c := range cs {
		nd := nodes[c.Node]
		nd.faulty = true
		if len(c.Drop) > 0 {
			nd.drops = c.Drop
		} else if c.After == 0 && c.Kind == "" {
			nd.silent = true
		} else {
			nd.limit, nd.only = c.After, c.Kind
		}
	}
}

func vfHonest(nodes []*vfNode) []*vfNode {
	var h []*vfNode
	for _, nd := range nodes {
		if !nd.faulty {
			h = append(h, nd)
		}
	}
	return h
}

func vfUnfinished(nodes []*vfNode) string {
	var out []string
	for _, nd := range vfHonest(nodes) {
		if !nd.finished() {
			out = append(out, nd.name)
		}
	}
	return strings.Join(out, ", ")
}

// ---- keys

type vfKeyring struct {
	sk  []*share.PriShare
	pk  *share.PubPoly
	n   int
	f   int
	sec kyber.Scalar
}

func vfKeys(f int) *vfKeyring {
	n := 3*f + 1
	sk, pk := SigKeyGen(uint32(n), uint32(2*f+1))
	return &vfKeyring{sk: sk, pk: pk, n: n, f: f}
}

var vfTbls = tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())

// full is the committee's signature, made by the harness from all keys.
func (k *vfKeyring) full(msg []byte) []byte {
	var sigs [][]byte
	for i := 0; i < 2*k.f+1; i++ {
		s, err := vfTbls.Sign(k.sk[i], msg)
		if err != nil {
			panic(err)
		}
		sigs = append(sigs, s)
	}
	sig, err := vfTbls.Recover(k.pk, msg, sigs, 2*k.f+1, k.n)
	if err != nil {
		panic(err)
	}
	return sig
}

func (k *vfKeyring) share(i int, msg []byte) []byte {
	s, err := vfTbls.Sign(k.sk[i], msg)
	if err != nil {
		panic(err)
	}
	return s
}

func vfBE32(v int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(v))
	return b
}

func vfCat(parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

// leaders gives the leader of each view of the agreement called id.
func (k *vfKeyring) leaders(id []byte) func(int) int {
	memo := map[int]int{}
	return func(v int) int {
		if l, ok := memo[v]; ok {
			return l
		}
		l := vfCoinLeader(k.master(vfSmCoin(id, v)), k.n)
		memo[v] = l
		return l
	}
}
