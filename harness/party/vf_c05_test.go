package party

import (
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/lib/vlib"
)

func TestVF_C05_Handoff(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C05", Quick: 120, Thorough: 4000, Isolated: true}, func(rt *rapid.T) vfHandoffCase {
		return vfGenHandoff(rt)
	}, vfRunHandoff)
}

// Ten members and more: indexes of two digits, several faulty members.
func TestVF_C05_Large(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C05", Quick: 3, Thorough: 150, Isolated: true, MaxCPU: 900 * time.Second}, func(rt *rapid.T) vfHandoffCase {
		c := vfGenHandoff(rt)
		c.F, c.Dealt, c.Self, c.WIdx = 3, false, false, nil
		if vlib.Tier() == "thorough" && rapid.IntRange(0, 4).Draw(rt, "larger") == 0 {
			c.F = 4
		}
		n := 3*c.F + 1
		c.Sched = vfGenSched(rt, n, vfKinds)
		c.OldCrash = vfGenCrashes(rt, "old", n, c.F, 8)
		c.NewCrash = vfGenCrashes(rt, "new", n, c.F, 900)
		return c
	}, vfRunHandoff)
}

// A member, or everybody, waits for the messages of one step when everything
// else has arrived, on several processors: what a message sets off happens at
// the same time as what goes on because of it.
func TestVF_C05_Late(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C05", Quick: 40, Thorough: 3000, Isolated: true}, func(rt *rapid.T) vfHandoffCase {
		c := vfGenHandoff(rt)
		c.Dealt, c.Self = false, false
		n := 3*c.F + 1
		late := func(name string, prio int) {
			r := vfRule{Kind: rapid.SampledFrom([]string{"Recover", "Recover", "Recover", "Reshare", "ShareDist", "ShareDist", "RBCPropose", "RBCEcho", "RBCReady", "RBCReady", "Success", "Prepare", "ShareReduce", "Finish", "Done", "Halt"}).Draw(rt, name),
				From: -1, To: rapid.OneOf(rapid.IntRange(0, n-1), rapid.IntRange(0, n-1), rapid.Just(-1)).Draw(rt, name+"to"), Inst: -1, View: -1, Stage: -1, Prio: prio}
			if r.Kind[0] == 'R' && r.Kind[1] == 'B' {
				r.Stage = rapid.SampledFrom([]int{-1, 1, 2}).Draw(rt, name+"stage")
			}
			c.Sched.Rules = append(c.Sched.Rules, r)
		}
		c.Sched.Rules, c.Sched.Slow = nil, nil
		late("late", 3)
		if rapid.Bool().Draw(rt, "two") {
			late("earlier", 2)
		}
		c.Sched.Policy = rapid.SampledFrom([]string{"random", "random", "link", "fifo", "lifo"}).Draw(rt, "order")
		c.Sched.Batch = rapid.SampledFrom([]int{1, 1, 5, 20, 60}).Draw(rt, "together")
		c.Sched.Procs = rapid.SampledFrom([]int{4, 4, 8, 2}).Draw(rt, "processors")
		return c
	}, func(c vfHandoffCase, o *vlib.Obs) error {
		for _, r := range c.Sched.Rules {
			o.Class("late %s", r.Kind)
		}
		return vfRunHandoff(c, o)
	})
}

func vfRunHandoff(c vfHandoffCase, o *vlib.Obs) error {
	r, err := vfSetup(c)
	if err != nil {
		return err
	}
	if err := r.handoff(""); err != nil {
		return err
	}
	o.Note("messages", "%d", r.s.count)
	o.Class("f=%d", c.F)
	o.Class("policy %s", c.Sched.Policy)
	o.NonTrivial = true
	_, err = vfJudge(vfHonest(r.new), c.F, vlib.Big(c.Secret), vfWhat{reduced: true})
	return err
}
