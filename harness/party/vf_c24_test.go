package party

import (
	"fmt"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// What one member says in one instance: one message of a kind to each, and of
// the kinds meant for everybody the same message to everybody. It is watched
// over the cases of the other properties, with whatever their faulty members do.

type vfWatch struct {
	own, all map[string]string
	to       map[string]string
	count    int
	broken   error
}

var vfWatching *vfWatch

// The kinds that have a content of their own for each receiver, or one receiver.
var vfPrivate = map[string]bool{"RBCEcho": true, "Recover": true, "Reshare": true, "ShareDist": true, "ShareReduce": true, "VSSSend": true, "Echo": true}

// The kinds that a member sends on more than one occasion.
var vfRepeated = map[string]bool{"Halt": true}

func (w *vfWatch) fail(f string, a ...interface{}) {
	if w.broken == nil {
		w.broken = fmt.Errorf(f, a...)
	}
}

func (w *vfWatch) said(nd, to *vfNode, e *vfEnv) {
	w.count++
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(e.m)
	if err != nil {
		w.fail("%s sends a %s that cannot be encoded: %v", nd.name, e.kind, err)
		return
	}
	if e.kind == "Halt" { // handed on as it came: the outcome counts, not its encoding
		var h protobuf.Halt
		if err := proto.Unmarshal(e.m.Data, &h); err != nil {
			w.fail("%s sends a Halt that cannot be decoded: %v", nd.name, err)
			return
		}
		b = append([]byte("Halt"), h.Value...)
	}
	what := fmt.Sprintf("%s|%s|%x|", nd.name, e.kind, e.m.Id)
	if e.kind == "Recover" {
		what += fmt.Sprintf("%d|", e.inst)
	}
	k := what + to.name
	if old, ok := w.own[k]; ok {
		switch {
		case old != string(b):
			w.fail("honest member %s sent %s two different %s messages in instance %x", nd.name, to.name, e.kind, e.m.Id)
		case !vfRepeated[e.kind]:
			w.fail("honest member %s sent %s the %s message of instance %x twice", nd.name, to.name, e.kind, e.m.Id)
		}
	}
	w.own[k] = string(b)
	switch {
	case e.kind == "Echo":
		if old, ok := w.to[what]; ok && old != to.name {
			w.fail("honest member %s sent its signature of instance %x to %s and to %s", nd.name, e.m.Id, old, to.name)
		}
		w.to[what] = to.name
	case !vfPrivate[e.kind]:
		k = fmt.Sprintf("%s%d", what, to.com)
		if old, ok := w.all[k]; ok && old != string(b) {
			w.fail("honest member %s told the %s of instance %x differently to %s than to another", nd.name, e.kind, e.m.Id, to.name)
		}
		w.all[k] = string(b)
	}
}

// vfWatched runs a case of another property and judges what was said in it.
func vfWatched[C any](run func(C, *vlib.Obs) error) func(C, *vlib.Obs) error {
	return func(c C, o *vlib.Obs) error {
		w := &vfWatch{own: map[string]string{}, all: map[string]string{}, to: map[string]string{}}
		vfWatching = w
		defer func() { vfWatching = nil }()
		err := run(c, o)
		o.Note("watched", "%d", w.count)
		if w.broken != nil {
			return w.broken
		}
		if vlib.IsInconclusive(err) {
			return err
		}
		if err != nil { // not what this property is about
			o.Class("another property fails")
		}
		o.NonTrivial = o.NonTrivial && w.count > 0
		return nil
	}
}

func TestVF_C24_Broadcast(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C24", Quick: 1200, Thorough: 40000, Isolated: true}, vfGenRBC, vfWatched(vfRunRBC))
}

func TestVF_C24_Certificates(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C24", Quick: 600, Thorough: 40000, Isolated: true}, vfGenCert, vfWatched(vfRunCert))
}

func TestVF_C24_Agreement(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C24", Quick: 120, Thorough: 20000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, rapid.SampledFrom([]string{"actor", "double", "split", "muts", "views"}).Draw(rt, "mode"))
	}, vfWatched(func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = len(c.Plan) > 2 || len(c.Byz) > 0
		return vfRunMVBA(c, o, true)
	}))
}

func TestVF_C24_Handoff(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C24", Quick: 60, Thorough: 10000, Isolated: true}, func(rt *rapid.T) vfHandoffCase {
		c := vfGenByzHandoff(rt, vfNewKinds, append(append([]string{}, vfValueOps...), vfWholeOps...))
		c.OldCrash = nil
		for i := range c.NewByz {
			if rapid.Bool().Draw(rt, "beside") {
				c.NewByz[i].Muts = vfBeside(rt, c.NewByz[i].Muts)
			}
		}
		n := 3*c.F + 1
		for _, x := range vfGenSubset(rt, "oldbad", n, c.F) {
			c.OldByz = append(c.OldByz, vfMember{Node: x, Seed: rapid.Uint64().Draw(rt, "oldseed"), Muts: vfBeside(rt, vfGenMuts(rt, n, []string{"Prepare", "ShareReduce"}, vfBadOps()))})
		}
		return c
	}, vfWatched(vfRunByzHandoff))
}

func TestVF_C24_Transfer(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C24", Quick: 160, Thorough: 10000, Isolated: true}, vfGenTransfer, vfWatched(vfRunTransfer))
}

func TestVF_C24_Dealing(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C24", Quick: 500, Thorough: 20000, Isolated: true}, vfGenVSS, vfWatched(vfRunVSS))
}
