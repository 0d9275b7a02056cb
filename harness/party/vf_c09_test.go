package party

import (
	"testing"

	"pgregory.net/rapid"
	"verif/lib/vlib"
)

func vfRunMVBA(c vfMVBACase, o *vlib.Obs, end bool) error {
	r, err := vfMVBA(c)
	if err != nil {
		return err
	}
	o.Class("views %d", r.views)
	o.Note("messages", "%d", r.s.count)
	return vfAgreed(c, r, end)
}

func TestVF_C09_Actor(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C09", Quick: 140, Thorough: 20000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, "actor")
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = len(c.Plan) > 2
		return vfRunMVBA(c, o, true)
	})
}

func TestVF_C09_Split(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C09", Quick: 90, Thorough: 10000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, "split")
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = len(c.Plan) > 2
		return vfRunMVBA(c, o, true)
	})
}

func TestVF_C09_Double(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C09", Quick: 90, Thorough: 10000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, "double")
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = len(c.Plan) > 2
		return vfRunMVBA(c, o, true)
	})
}

func TestVF_C09_Altered(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C09", Quick: 60, Thorough: 10000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, "muts")
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = len(c.Byz) > 0
		return vfRunMVBA(c, o, true)
	})
}

func TestVF_C10_Crash(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C10", Quick: 140, Thorough: 20000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, "crash")
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = len(c.Crash) > 0 || len(c.Sched.Rules) > 0
		return vfRunMVBA(c, o, true)
	})
}

func TestVF_C10_Lossy(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C10", Quick: 300, Thorough: 20000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, "lossy")
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = true
		return vfRunMVBA(c, o, true)
	})
}

func TestVF_C10_Views(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C10", Quick: 220, Thorough: 20000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		return vfGenMVBA(rt, "views")
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = true
		return vfRunMVBA(c, o, true)
	})
}

// Many views: what the leader of a view says in it comes when all else is done, again and again, so that every view ends
// with votes against it, or with a lock that few members hold.
func TestVF_C10_Deep(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C10", Quick: 32, Thorough: 3000, Isolated: true}, func(rt *rapid.T) vfMVBACase {
		c := vfGenMVBA(rt, "deep")
		n := 3*c.F + 1
		c.Late, c.Leaders, c.Sched.Slow, c.Sched.Rules = nil, nil, nil, nil
		rule := func(kind string, from, to, view, stage, prio int) {
			c.Sched.Rules = append(c.Sched.Rules, vfRule{Kind: kind, From: from, To: to, Inst: -1, View: view, Stage: stage, Prio: prio})
		}
		for v := rapid.IntRange(4, 12).Draw(rt, "deep") - 1; v >= 0; v-- {
			if rapid.IntRange(0, 3).Draw(rt, "lock") == 0 { // one member has the lock of this view in time
				h := rapid.IntRange(0, n-1).Draw(rt, "holder")
				rule("Value", 100+v, h, v, -1, 0)
				rule("Value", 100+v, -1, v, 1, 0)
				rule("PreVote", h, -1, v, -1, rapid.SampledFrom([]int{0, 20}).Draw(rt, "told"))
			}
			rule("Value", 100+v, -1, v, rapid.SampledFrom([]int{-1, -1, 2}).Draw(rt, "stage"), 30)
			rule("Finish", 100+v, -1, v, -1, 30)
		}
		return c
	}, func(c vfMVBACase, o *vlib.Obs) error {
		o.NonTrivial = true
		return vfRunMVBA(c, o, true)
	})
}
