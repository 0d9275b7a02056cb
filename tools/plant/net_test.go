package party

// A small network for the demonstrations: messages go from channel to channel,
// and a rule decides what becomes of each of them.

import (
	"crypto/rand"
	"math/big"
	"sync"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polyring"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// rule returns what the receiver gets for a message of a party to a party.
type rule func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message

func committee(f uint32) []*HonestParty {
	n := 3*f + 1
	sks, pk := SigKeyGen(n, 2*f+1)
	ps := make([]*HonestParty, n)
	for i := range ps {
		ps[i] = NewHonestParty(0, n, f, uint32(i), nil, nil, nil, nil, pk, sks[i])
		ps[i].dispatchChannels = new(sync.Map)
	}
	return ps
}

func pipe(from, to *HonestParty, r rule) chan *protobuf.Message {
	c := make(chan *protobuf.Message, 1<<14)
	go func() {
		for m := range c {
			out := []*protobuf.Message{proto.Clone(m).(*protobuf.Message)}
			if r != nil {
				out = r(from, to, out[0])
			}
			for _, x := range out {
				to.GetMessage(x.Type, x.Id) <- x
			}
		}
	}()
	return c
}

func connect(ps []*HonestParty, r rule) {
	for _, p := range ps {
		for i, q := range ps {
			p.sendChannels[i] = pipe(p, q, r)
		}
	}
}

func connectNext(old, next []*HonestParty, r rule) {
	for _, p := range old {
		for i, q := range next {
			p.sendToNextChannels[i] = pipe(p, q, r)
		}
	}
}

func deal(ps []*HonestParty, secret bls.Fr, r rule) {
	d := &Client{HonestParty: NewHonestParty(0, ps[0].N, ps[0].F, 0x7fffffff, nil, nil, nil, nil, nil, nil)}
	for i, q := range ps {
		d.sendChannels[i] = pipe(d.HonestParty, q, r)
	}
	d.SetSecret(secret)
	d.Share([]byte("deal"))
	for _, p := range ps {
		p.VSSShareReceive([]byte("deal"))
	}
}

// within runs the functions at once and tells which have not ended in time.
func within(d time.Duration, fs ...func()) []int {
	done := make([]chan bool, len(fs))
	for i, f := range fs {
		done[i] = make(chan bool)
		go func(i int, f func()) {
			f()
			close(done[i])
		}(i, f)
	}
	end := time.After(d)
	var late []int
	for i := range fs {
		select {
		case <-done[i]:
		case <-end:
			late = append(late, i)
			c := make(chan time.Time)
			close(c)
			end = c
		}
	}
	return late
}

// transfer takes a sharing from one committee to the next.
func transfer(old, next []*HonestParty) []int {
	var fs []func()
	for _, p := range old {
		p := p
		fs = append(fs, func() { p.PrepareSend([]byte("xfer")); p.ShareReduceSend([]byte("xfer")) })
	}
	for _, q := range next {
		q := q
		fs = append(fs, func() { q.PrepareReceive([]byte("xfer")); q.ShareReduceReceive([]byte("xfer")) })
	}
	return within(60*time.Second, fs...)
}

func handoff(next []*HonestParty, who ...int) []int {
	var fs []func()
	for i, q := range next {
		q := q
		if len(who) == 0 || in(who, i) {
			fs = append(fs, func() { q.ProactivizeAndShareDist([]byte("hand")) })
		}
	}
	return within(60*time.Second, fs...)
}

func in(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func fr(v uint64) bls.Fr {
	var x bls.Fr
	bls.AsFr(&x, v)
	return x
}

func someFr() bls.Fr {
	v, _ := rand.Int(rand.Reader, big.NewInt(1<<62))
	return fr(v.Uint64())
}

func at(poly []bls.Fr, x uint64) bls.Fr {
	var y bls.Fr
	v := fr(x)
	bls.EvalPolyAt(&y, poly, &v)
	return y
}

// firstColumn is B(0, y), from the full shares of these members.
func firstColumn(ps []*HonestParty, who []int) []bls.Fr {
	f := int(ps[0].F)
	out := make([]bls.Fr, 2*f+1)
	for j := range out {
		var xs, ys []bls.Fr
		for _, i := range who[:f+1] {
			xs = append(xs, fr(uint64(i+1)))
			ys = append(ys, ps[i].fullShare[j])
		}
		out[j] = polyring.LagrangeInterpolate(f, xs, ys)[0]
	}
	return out
}

func mustEqual(t *testing.T, got, want bls.Fr, what string) {
	t.Helper()
	if !bls.EqualFr(&got, &want) {
		t.Fatalf("%s: got %s, want %s", what, got.String(), want.String())
	}
}
