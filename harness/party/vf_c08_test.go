package party

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polyring"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// A sharing that goes from committee to committee. Every member runs its part
// of one handoff after the other, without waiting for the others.

type vfChainCase struct {
	F      int          `json:"f"`
	Secret string       `json:"secret"`
	Seed   uint64       `json:"seed"`
	Dealt  bool         `json:"dealt"`
	Path   []int        `json:"path"` // committees, the first holds the sharing; two equal ones: handed to itself
	Crash  [][]vfCrash  `json:"crash"`
	Byz    [][]vfMember `json:"byz"`
	Replay bool         `json:"replay"` // faulty members repeat their messages of earlier handoffs under the new name
	Sync   bool         `json:"sync"`   // a handoff begins when the one before has ended everywhere
	Sched  vfSched      `json:"sched"`
}

func vfGenChain(rt *rapid.T, long int, faults bool) vfChainCase {
	c := vfChainCase{F: vfGenF(rt), Secret: vlib.ScalarGen().Draw(rt, "secret"), Seed: rapid.Uint64().Draw(rt, "seed"),
		Dealt: rapid.IntRange(0, 2).Draw(rt, "dealt") == 0, Sync: rapid.Bool().Draw(rt, "sync")}
	n := 3*c.F + 1
	top := 0
	c.Path = []int{0}
	for k := rapid.IntRange(2, long).Draw(rt, "handoffs"); k > 0; k-- {
		switch rapid.IntRange(0, 3).Draw(rt, "to") {
		case 0:
			c.Path = append(c.Path, c.Path[len(c.Path)-1])
		case 1:
			c.Path = append(c.Path, rapid.IntRange(0, top).Draw(rt, "back"))
		default:
			top++
			c.Path = append(c.Path, top)
		}
	}
	c.Crash, c.Byz = make([][]vfCrash, top+1), make([][]vfMember, top+1)
	if faults {
		c.Replay = rapid.Bool().Draw(rt, "replay")
		kinds := append([]string{"Prepare", "ShareReduce", "Prepare", "ShareReduce"}, vfNewKinds...)
		for x := 0; x <= top; x++ {
			if rapid.Bool().Draw(rt, "crashes") {
				c.Crash[x] = vfGenCrashes(rt, "crash", n, c.F, 600)
			} else {
				for _, b := range vfGenSubset(rt, "byz", n, c.F) {
					c.Byz[x] = append(c.Byz[x], vfMember{Node: b, Seed: rapid.Uint64().Draw(rt, "byzseed"),
						Muts: vfGenMuts(rt, n, kinds, append(append([]string{}, vfValueOps...), vfWholeOps...))})
				}
			}
		}
	}
	c.Sched = vfGenSched(rt, n, vfKinds)
	return c
}

type vfChainRun struct {
	s      *vfSim
	com    [][]*vfNode
	first  *vfSharing
	frozen [][]*vfNode // after each handoff, by member; nil entries did not end
	sent   [][]*vfEnv  // by handoff
}

func vfTag(k int) string { return string(rune('0' + k)) }

// vfStep finds the handoff a message belongs to.
func vfStep(id []byte) int {
	for _, p := range []string{vfPrepID, vfProID} {
		if bytes.HasPrefix(id, []byte(p)) && len(id) > len(p) {
			return int(id[len(p)] - '0')
		}
	}
	return -1
}

func vfChain(c vfChainCase, keep bool) (*vfChainRun, error) {
	r := &vfChainRun{s: vfNewSim(c.Sched)}
	s := r.s
	steps := len(c.Path) - 1
	var krs []*vfKeyring
	for x := range c.Crash {
		kr := vfKeys(c.F)
		krs = append(krs, kr)
		nodes := s.committee(x, uint32(c.F), kr.sk, kr.pk)
		r.com = append(r.com, nodes)
	}
	s.leaders = krs[c.Path[1]].leaders([]byte(vfProID + vfTag(0)))
	if c.Dealt {
		if err := s.deal(r.com[0], vlib.Big(c.Secret), "vssshare"); err != nil {
			return nil, err
		}
		sh, err := vfRead(r.com[0], c.F)
		if err != nil {
			return nil, err
		}
		r.first = sh
	} else {
		r.first = vfRandSharing(vlib.NewRng(c.Seed), c.F, vlib.Big(c.Secret))
		for _, nd := range r.com[0] {
			vfInstall(nd.p, r.first, nil)
		}
	}
	for x := range r.com {
		vfCrashNodes(r.com[x], c.Crash[x])
		for _, m := range c.Byz[x] {
			vfMakeByz(r.com[x][m.Node], m.Muts, m.Seed)
		}
	}
	r.sent = make([][]*vfEnv, steps)
	s.onSend = func(e *vfEnv) []*vfEnv {
		k := vfStep(e.m.Id)
		out := []*vfEnv{e}
		if k >= 0 && k < steps && (keep || c.Replay && e.from.faulty && e.kind != "Recover") {
			r.sent[k] = append(r.sent[k], e)
		}
		if c.Replay && e.from.faulty && e.kind != "Recover" && k > 0 {
			// what this member sent to that one in an earlier handoff
			for q := k - 1; q >= 0; q-- {
				for i, o := range r.sent[q] {
					if o != nil && o.from == e.from && o.to == e.to && o.kind == e.kind && o.inst == e.inst && o.view == e.view && o.stage == e.stage {
						m := vfCloneMsg(o.m)
						m.Id = e.m.Id
						x := s.envelope(e.from, e.to, m)
						if s.rng.Intn(2) == 0 {
							x.prio = 0
						}
						out = append(out, x)
						if !keep {
							r.sent[q][i] = nil
						}
						break
					}
				}
			}
		}
		return out
	}
	r.frozen = make([][]*vfNode, steps)
	type link struct{ ch []chan *protobuf.Message }
	links := map[*vfNode]map[int]link{}
	for k := 0; k < steps; k++ {
		r.frozen[k] = make([]*vfNode, 3*c.F+1)
		for _, nd := range r.com[c.Path[k]] {
			if links[nd] == nil {
				links[nd] = map[int]link{}
			}
			links[nd][k] = link{nd.link(r.com[c.Path[k+1]])}
		}
	}
	part := func(nd *vfNode, p *HonestParty, k int) {
		from, to := c.Path[k] == nd.com, c.Path[k+1] == nd.com
		prep, pro := []byte(vfPrepID+vfTag(k)), []byte(vfProID+vfTag(k))
		if from {
			vfWire(p, nil, links[nd][k].ch, nil)
			p.PrepareSend(prep)
			if to {
				p.PrepareReceive(prep)
			}
			p.ShareReduceSend(prep)
		} else if to {
			p.PrepareReceive(prep)
		}
		if to {
			p.ShareReduceReceive(prep)
			p.ProactivizeAndShareDist(pro)
			r.frozen[k][nd.idx] = &vfNode{p: vfFreeze(p), idx: nd.idx, com: nd.com, name: nd.name}
		}
	}
	for k := 0; k < steps; k++ {
		if !c.Sync && k > 0 {
			break
		}
		for x := range r.com {
			for _, nd := range r.com[x] {
				nd := nd
				k := k
				if c.Sync && c.Path[k] != x && c.Path[k+1] != x {
					continue
				}
				nd.start(func(p *HonestParty) {
					if c.Sync {
						part(nd, p, k)
						return
					}
					for q := 0; q < steps; q++ {
						part(nd, p, q)
					}
				})
			}
		}
		if err := s.run(); err != nil {
			return r, err
		}
		for x := range r.com {
			if c.Sync && c.Path[k] != x && c.Path[k+1] != x {
				continue
			}
			if u := vfUnfinished(r.com[x]); u != "" {
				return r, fmt.Errorf("handoff %d of %v: all messages were received, but %s did not end", k, c.Path, u)
			}
		}
	}
	return r, nil
}

// vfChainJudge checks the state after every handoff and returns the sharings.
func vfChainJudge(c vfChainCase, r *vfChainRun) ([]*vfSharing, error) {
	out := []*vfSharing{r.first}
	for k := range r.frozen {
		var h []*vfNode
		for _, nd := range vfHonest(r.com[c.Path[k+1]]) {
			if r.frozen[k][nd.idx] == nil {
				return nil, fmt.Errorf("harness: %s has no state after handoff %d", nd.name, k)
			}
			h = append(h, r.frozen[k][nd.idx])
		}
		s, err := vfJudge(h, c.F, vlib.Big(c.Secret), vfWhat{reduced: true, commits: true, witnesses: true})
		if err != nil {
			return nil, fmt.Errorf("after handoff %d of %v: %v", k, c.Path, err)
		}
		out = append(out, s)
	}
	return out, nil
}

func TestVF_C08_Chain(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C08", Quick: 48, Thorough: 3000, Isolated: true}, func(rt *rapid.T) vfChainCase {
		return vfGenChain(rt, 4, rapid.Bool().Draw(rt, "faults"))
	}, func(c vfChainCase, o *vlib.Obs) error {
		o.NonTrivial = true
		o.Class("f=%d", c.F)
		o.Class("handoffs %d", len(c.Path)-1)
		o.Class("replay %v", c.Replay)
		r, err := vfChain(c, false)
		if err != nil {
			return err
		}
		_, err = vfChainJudge(c, r)
		return err
	})
}

// ---- C07

func TestVF_C07_Refresh(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C07", Quick: 48, Thorough: 3000, Isolated: true}, func(rt *rapid.T) vfChainCase {
		c := vfGenChain(rt, 2, false)
		n := 3*c.F + 1
		for x := range c.Crash {
			c.Crash[x] = vfGenCrashes(rt, "crash", n, c.F, 300)
		}
		return c
	}, vfRunRefresh)
}

func vfRunRefresh(c vfChainCase, o *vlib.Obs) error {
	o.NonTrivial = true
	o.Class("f=%d", c.F)
	r, err := vfChain(c, true)
	if err != nil {
		return err
	}
	sh, err := vfChainJudge(c, r)
	if err != nil {
		return err
	}
	n := 3*c.F + 1
	seen := map[string]string{}
	pt := func(v int) *big.Int { return vlib.B(int64(v)) }
	for k := 0; k+1 < len(sh); k++ {
		old, new := sh[k], sh[k+1]
		// the change, and the new sharing's own degrees
		d := &vfSharing{f: c.F, bi: make(vlib.BiPoly, c.F+1)}
		for i := range d.bi {
			d.bi[i] = make(vlib.Poly, 2*c.F+1)
			for j := range d.bi[i] {
				d.bi[i][j] = vlib.Sub(new.bi[i][j], old.bi[i][j])
			}
		}
		if err := vfDegrees(d, fmt.Sprintf("the change of handoff %d", k), seen); err != nil {
			return err
		}
		if err := vfDegrees(new, fmt.Sprintf("the sharing after handoff %d", k), seen); err != nil {
			return err
		}
		for i := 1; i <= n; i++ {
			if d.at(pt(i), new0).Sign() == 0 {
				return fmt.Errorf("handoff %d leaves the value of member %d as it was", k, i)
			}
		}
		// the members' contributions, as they sent them
		q := map[int][][]*big.Int{} // member, point x-1, column j-1
		for _, e := range r.sent[k] {
			if e.kind != "Reshare" || e.from.faulty {
				continue
			}
			var m protobuf.Reshare
			if err := proto.Unmarshal(e.m.Data, &m); err != nil {
				return err
			}
			if q[e.from.idx] == nil {
				q[e.from.idx] = make([][]*big.Int, n)
			}
			for _, v := range m.Qk {
				q[e.from.idx][e.to.idx] = append(q[e.from.idx][e.to.idx], vfLE(v))
			}
		}
		qs := map[int]*vfSharing{}
		var xs []*big.Int
		for j := 1; j <= 2*c.F+1; j++ {
			xs = append(xs, pt(j))
		}
		var who []int
		for i, v := range q {
			s := &vfSharing{f: c.F, bi: make(vlib.BiPoly, c.F+1)}
			for a := range s.bi {
				s.bi[a] = make(vlib.Poly, 2*c.F+1)
				for b := range s.bi[a] {
					s.bi[a][b] = new0
				}
			}
			var rows []vlib.Poly
			for x := 0; x <= c.F; x++ {
				if len(v[x]) != 2*c.F+1 {
					return fmt.Errorf("handoff %d: member %d sent %d points to member %d", k, i, len(v[x]), x)
				}
				rows = append(rows, vlib.Interpolate(xs, v[x]))
			}
			for b := 0; b <= 2*c.F; b++ {
				var x, y []*big.Int
				for a := range rows {
					x = append(x, pt(a+1))
					if b < len(rows[a]) {
						y = append(y, rows[a][b])
					} else {
						y = append(y, new0)
					}
				}
				for a, v := range vlib.Interpolate(x, y) {
					s.bi[a][b] = v
				}
			}
			for x := 0; x < n; x++ {
				for j := range v[x] {
					if s.at(pt(x+1), pt(j+1)).Cmp(v[x][j]) != 0 {
						return fmt.Errorf("handoff %d: what member %d reshares has a higher degree than %d", k, i, c.F)
					}
				}
			}
			if s.bi[0][0].Sign() != 0 {
				return fmt.Errorf("handoff %d: the contribution of member %d is not zero at the origin", k, i)
			}
			if err := vfDegrees(s, fmt.Sprintf("handoff %d: the contribution of member %d", k, i), seen); err != nil {
				return err
			}
			qs[i] = s
			who = append(who, i)
		}
		sort.Ints(who)
		best := -1
		if len(vfFaulty(r.com[c.Path[k+1]])) == 0 {
			for set := 0; set < 1<<uint(len(who)); set++ {
				sum, cnt := new0, 0
				for b, i := range who {
					if set>>uint(b)&1 == 1 {
						sum = vlib.Add(sum, qs[i].at(pt(3), pt(2)))
						cnt++
					}
				}
				if sum.Cmp(d.at(pt(3), pt(2))) == 0 {
					best = cnt
				}
			}
			if best < c.F+1 {
				return fmt.Errorf("handoff %d: the change is the sum of %d members' contributions", k, best)
			}
			o.Class("contributions %d of %d", best, n)
		}
		// what was sent
		known := map[int]vfForbidden{}
		forbidden := func(m int) vfForbidden {
			if fb, ok := known[m]; ok {
				return fb
			}
			self := c.Path[k] == c.Path[k+1]
			own := map[string]bool{}
			for z := 0; z <= n; z++ {
				own[old.at(pt(z), pt(m)).String()] = true
				own[new.at(pt(z), pt(m)).String()] = true
				own[new.at(pt(m), pt(z)).String()] = true
				if self {
					own[old.at(pt(m), pt(z)).String()] = true
				}
				for _, s := range qs {
					own[s.at(pt(z), pt(m)).String()] = true
					own[s.at(pt(m), pt(z)).String()] = true
				}
			}
			fb := vfForbidden{}
			put := func(v *big.Int, what string) {
				if !own[v.String()] {
					fb.add(v, what)
				}
			}
			grid := func(s *vfSharing, name string) {
				for x := 0; x <= n; x++ {
					for y := 0; y <= n; y++ {
						put(s.at(pt(x), pt(y)), fmt.Sprintf("%s(%d,%d)", name, x, y))
					}
				}
				for a := range s.bi {
					for b := range s.bi[a] {
						put(s.bi[a][b], fmt.Sprintf("coefficient (%d,%d) of %s", a, b, name))
					}
				}
				for y := 1; y <= n; y++ {
					if y != m {
						for a, v := range s.bi.AtY(pt(y)) {
							put(v, fmt.Sprintf("coefficient %d of the column %d of %s", a, y, name))
						}
						for a, v := range s.bi.AtX(pt(y)) {
							put(v, fmt.Sprintf("coefficient %d of the row %d of %s", a, y, name))
						}
					}
				}
			}
			put(vlib.Big(c.Secret), "the secret")
			grid(old, "B")
			grid(new, "B'")
			for i, s := range qs {
				grid(s, fmt.Sprintf("Q_%d", i+1))
			}
			known[m] = fb
			return fb
		}
		for _, e := range r.sent[k] {
			m := e.to.idx + 1
			raw, err := proto.Marshal(e.m)
			if err != nil {
				return err
			}
			if w, bad := forbidden(m).scan(raw); bad {
				return fmt.Errorf("handoff %d: the %s message of %s to member %d contains %s", k, e.kind, e.from.name, m-1, w)
			}
		}
	}
	return nil
}

var new0 = new(big.Int)

func vfFaulty(nodes []*vfNode) []*vfNode {
	var out []*vfNode
	for _, nd := range nodes {
		if nd.faulty {
			out = append(out, nd)
		}
	}
	return out
}

// ---- no two processes draw the same values

type vfAgain struct {
	F int `json:"f"`
}

// vfOnce makes a dealing, a handoff and keys with the randomness the process
// has by itself, and prints what must not come twice.
func vfOnce(f int) {
	s := &vfSim{sched: vfSched{Policy: "fifo", Batch: 20, Procs: 1}, rng: vlib.NewRng(1), max: 400000}
	kr := vfKeys(f)
	nodes := s.committee(0, uint32(f), kr.sk, kr.pk)
	s.next(nodes, nodes)
	s.leaders = kr.leaders([]byte(vfProID))
	out := func(what string, v *big.Int) { fmt.Printf("\nVFVALUE %s %s\n", what, v) }
	for i, k := range kr.sk {
		out(fmt.Sprintf("key%d", i), vfScalarBig(k.V))
	}
	if err := s.deal(nodes, vlib.B(5), "vssshare"); err != nil {
		panic(err)
	}
	dump := func(what string) {
		for _, nd := range nodes {
			for j, v := range vfVals(vfFullShare(nd.p)) {
				out(fmt.Sprintf("%s%d.%d", what, nd.idx, j), v)
			}
		}
	}
	dump("dealt")
	r := &vfRun{s: s, old: nodes, new: nodes, kr: kr}
	r.c.Self = true
	if err := r.handoff(""); err != nil {
		panic(err)
	}
	dump("refreshed")
	for i, v := range vfVals(polyring.NewRandPoly(4)) {
		out(fmt.Sprintf("poly%d", i), v)
	}
	out("scalar", vfVal(bls.RandomFr()))
}

func TestVFOnce(t *testing.T) {
	if os.Getenv("VF_ONCE") == "1" {
		vfOnce(1)
	}
}

func vfRunAgain(c vfAgain, o *vlib.Obs) error {
	o.NonTrivial = true
	seen := map[string]string{}
	for k := 0; k < 2; k++ {
		cmd := exec.Command(os.Args[0], "-test.run=^TestVFOnce$", "-test.count=1")
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "VERIF_") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "VF_ONCE=1")
		b, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("the run failed: %v: %s", err, b[:min(len(b), 300)])
		}
		n := 0
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) == 3 && w[0] == "VFVALUE" {
				n++
				if o, ok := seen[w[2]]; ok {
					return fmt.Errorf("two processes drew the same value for %s and %s", o, w[1])
				}
				seen[w[2]] = w[1]
			}
		}
		if n < 10 {
			return fmt.Errorf("harness: %d values", n)
		}
	}
	return nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestVF_C07_Again(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C07", Quick: 1, Thorough: 20}, func(rt *rapid.T) vfAgain { return vfAgain{F: 1} }, vfRunAgain)
}

func TestVF_C01_Again(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C01", Quick: 1, Thorough: 20}, func(rt *rapid.T) vfAgain { return vfAgain{F: 1} }, vfRunAgain)
}

func TestVF_C12_Again(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C12", Quick: 1, Thorough: 20}, func(rt *rapid.T) vfAgain { return vfAgain{F: 1} }, vfRunAgain)
}
