package party

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/big"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

func init() { log.SetOutput(io.Discard) }

// ---- packing of the agreement's messages

type vfPack struct {
	Kind   string   `json:"kind"`
	ID     []byte   `json:"id"`
	Sender uint32   `json:"sender"`
	Vote   bool     `json:"vote"`
	F      [][]byte `json:"f"`
}

var vfPackKinds = []string{"Value", "Echo", "Lock", "Finish", "Done", "Halt", "PreVote", "Vote"}

func vfGenBytes(rt *rapid.T, name string) []byte {
	n := rapid.OneOf(rapid.IntRange(0, 3), rapid.SampledFrom([]int{32, 48, 96, 127, 128, 255, 256, 1000, 16384}), rapid.IntRange(0, 300)).Draw(rt, name+"len")
	switch rapid.IntRange(0, 4).Draw(rt, name+"kind") {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	}
	return vlib.NewRng(rapid.Uint64().Draw(rt, name+"seed")).Bytes(n)
}

func vfGenPack(rt *rapid.T) vfPack {
	c := vfPack{
		Kind:   rapid.SampledFrom(vfPackKinds).Draw(rt, "kind"),
		ID:     vfGenBytes(rt, "id"),
		Sender: rapid.OneOf(rapid.Uint32Range(0, 10), rapid.Uint32()).Draw(rt, "sender"),
		Vote:   rapid.Bool().Draw(rt, "vote"),
	}
	for i := 0; i < 4; i++ {
		c.F = append(c.F, vfGenBytes(rt, "f"))
	}
	return c
}

func vfRunPack(c vfPack, o *vlib.Obs) error {
	var in proto.Message
	switch c.Kind {
	case "Value":
		in = &protobuf.Value{Value: c.F[0], Validation: c.F[1]}
	case "Echo":
		in = &protobuf.Echo{Sigshare: c.F[0]}
	case "Lock":
		in = &protobuf.Lock{Value: c.F[0], Sig: c.F[1]}
	case "Finish":
		in = &protobuf.Finish{Value: c.F[0], Sig: c.F[1]}
	case "Done":
		in = &protobuf.Done{CoinShare: c.F[0]}
	case "Halt":
		in = &protobuf.Halt{Value: c.F[0], Sig: c.F[1]}
	case "PreVote":
		in = &protobuf.PreVote{Vote: c.Vote, Value: c.F[0], Sig: c.F[1]}
	case "Vote":
		in = &protobuf.Vote{Vote: c.Vote, Value: c.F[0], Sig: c.F[1], Sigshare: c.F[2]}
	}
	keep := proto.Clone(in)
	id := append([]byte{}, c.ID...)
	m := core.Encapsulation(c.Kind, id, c.Sender, in)
	if !proto.Equal(in, keep) || !bytes.Equal(id, c.ID) {
		return fmt.Errorf("packing a %s changed its argument", c.Kind)
	}
	if m.Type != c.Kind || !bytes.Equal(m.Id, c.ID) || m.Sender != c.Sender {
		return fmt.Errorf("packed %s of instance %x, sender %d came out as %s of %x, sender %d", c.Kind, c.ID, c.Sender, m.Type, m.Id, m.Sender)
	}
	// over the wire
	w, err := proto.Marshal(m)
	if err != nil {
		return err
	}
	var r protobuf.Message
	if err := proto.Unmarshal(w, &r); err != nil {
		return err
	}
	for k, mm := range []*protobuf.Message{m, &r, m} {
		before := proto.Clone(mm)
		got, ok := core.Decapsulation(c.Kind, mm).(proto.Message)
		if !ok {
			return fmt.Errorf("unpacking a %s gave no message", c.Kind)
		}
		if !proto.Equal(got, keep) {
			return fmt.Errorf("unpacking %d of a %s gave %v, packed was %v", k, c.Kind, got, keep)
		}
		if !proto.Equal(before, mm) {
			return fmt.Errorf("unpacking changed the message")
		}
	}
	o.Class("%s", c.Kind)
	o.NonTrivial = len(c.ID)+len(c.F[0]) > 0
	return nil
}

func TestVF_C21_Pack(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C21", Quick: 6000, Thorough: 60000}, vfGenPack, vfRunPack)
}

// ---- the dealing's message

type vfDealMsg struct {
	F    uint32 `json:"f"`
	Seed uint64 `json:"seed"`
	Edge int    `json:"edge"`
}

func vfRunDealMsg(c vfDealMsg, o *vlib.Obs) error {
	r := vlib.NewRng(c.Seed)
	draw := func() *big.Int {
		if r.Intn(4) == 0 {
			return []*big.Int{vlib.B(0), vlib.B(1), vlib.B(-1), vlib.B(255), vlib.B(256)}[(r.Intn(5)+c.Edge)%5]
		}
		return r.Scalar()
	}
	n := int(2*c.F + 2)
	pi := new(Pi)
	pi.Init(c.F)
	bls.CopyG1(&pi.Gs, vfG1(draw()))
	gs := bls.ToCompressedG1(&pi.Gs)
	want := make([][4][]byte, n)
	b := make([]bls.Fr, n)
	w := make([]bls.G1Point, n)
	bv := make([]*big.Int, n)
	wv := make([][]byte, n)
	for j := 1; j < n; j++ {
		cb, cz, wz, gf, _ := vfPiContent(pi, j)
		for k, p := range []*bls.G1Point{cb, cz, wz, gf} {
			bls.CopyG1(p, vfG1(draw()))
			want[j][k] = bls.ToCompressedG1(p)
		}
		bv[j] = draw()
		vfSetFr(&b[j], bv[j])
		bls.CopyG1(&w[j], vfG1(draw()))
		wv[j] = bls.ToCompressedG1(&w[j])
	}
	data := EncapsulateVSSSend(pi, b, w, c.F)
	var m protobuf.VSSSend
	if err := proto.Unmarshal(data, &m); err != nil {
		return fmt.Errorf("the dealing's message does not decode: %v", err)
	}
	if len(m.BijList) != n || len(m.WBijList) != n {
		return fmt.Errorf("the dealing carries %d values and %d witnesses, not %d", len(m.BijList), len(m.WBijList), n)
	}
	for j := 1; j < n; j++ {
		var a [32]byte
		if len(m.BijList[j]) != 32 {
			return fmt.Errorf("value %d has %d bytes", j, len(m.BijList[j]))
		}
		copy(a[:], m.BijList[j])
		var v bls.Fr
		if !bls.FrFrom32(&v, a) || vfVal(&v).Cmp(bv[j]) != 0 {
			return fmt.Errorf("value %d came out as %s, was %s", j, vfVal(&v), bv[j])
		}
		if !bytes.Equal(m.WBijList[j], wv[j]) {
			return fmt.Errorf("witness %d came out as another point", j)
		}
	}
	two := new(Pi)
	two.Init(c.F)
	three := new(Pi)
	three.Init(c.F)
	two.SetFromVSSMessage(m.Pi, c.F)
	three.Set(two, c.F)
	for k, q := range []*Pi{two, three} {
		if !bytes.Equal(bls.ToCompressedG1(&q.Gs), gs) {
			return fmt.Errorf("copy %d: the commitment to the secret changed", k)
		}
		for j := 1; j < n; j++ {
			cb, cz, wz, gf, idx := vfPiContent(q, j)
			if *idx != uint32(j) {
				return fmt.Errorf("copy %d: entry %d has index %d", k, j, *idx)
			}
			for x, p := range []*bls.G1Point{cb, cz, wz, gf} {
				if !bytes.Equal(bls.ToCompressedG1(p), want[j][x]) {
					return fmt.Errorf("copy %d: point %d of entry %d changed", k, x, j)
				}
			}
		}
	}
	o.Class("f=%d", c.F)
	o.NonTrivial = true
	return nil
}

func TestVF_C21_Dealing(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C21", Quick: 60, Thorough: 600}, func(rt *rapid.T) vfDealMsg {
		return vfDealMsg{F: rapid.Uint32Range(1, 3).Draw(rt, "f"), Seed: rapid.Uint64().Draw(rt, "seed"), Edge: rapid.IntRange(0, 4).Draw(rt, "edge")}
	}, vfRunDealMsg)
}

// ---- numbers in identifiers and lengths

func TestVF_C21_Numbers(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C21", Quick: 4000, Thorough: 40000}, func(rt *rapid.T) uint32 { return rapid.Uint32().Draw(rt, "v") },
		func(v uint32, o *vlib.Obs) error {
			want := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
			if b := utils.Uint32ToBytes(v); !bytes.Equal(b, want) || utils.BytesToUint32(b) != v {
				return fmt.Errorf("%d encoded as %x and back as %d", v, b, utils.BytesToUint32(b))
			}
			if b := utils.IntToBytes(int(v)); !bytes.Equal(b, want) || utils.BytesToInt(b) != int(v) {
				return fmt.Errorf("length %d encoded as %x and back as %d", v, b, utils.BytesToInt(b))
			}
			o.NonTrivial = v > 255
			return nil
		})
}

// ---- routing

type vfRouteOp struct {
	Get   bool `json:"get"`   // a consumer takes a message (if one is due), otherwise one is received
	Key   int  `json:"key"`   //
	Early bool `json:"early"` // consumer asks before the message
}

type vfRoute struct {
	N    uint32      `json:"n"`
	Keys []vfKey     `json:"keys"`
	Ops  []vfRouteOp `json:"ops"`
	Conc bool        `json:"conc"`
	Seed uint64      `json:"seed"`
}

type vfKey struct {
	T string `json:"t"`
	I []byte `json:"i"`
}

var vfRouteTypes = []string{"Value", "Echo", "Vote", "PreVote", "", "Va", "lue"}
var vfRouteIDs = [][]byte{{}, {0}, {0, 0}, {1}, []byte("lue"), []byte("ID_1,1"), []byte("ID_1,11"), []byte("ID_1,12"), []byte("ID_2,1"), {0xff, 0xfe}, {0xff, 0xfd}, bytes.Repeat([]byte{7}, 40), bytes.Repeat([]byte{7}, 300)}

func vfGenRoute(rt *rapid.T) vfRoute {
	c := vfRoute{N: uint32(rapid.SampledFrom([]int{1, 2, 4, 7}).Draw(rt, "n")), Conc: rapid.IntRange(0, 2).Draw(rt, "conc") == 0, Seed: rapid.Uint64().Draw(rt, "seed")}
	nk := rapid.IntRange(1, 10).Draw(rt, "keys")
	seen := map[string]bool{}
	for i := 0; i < nk; i++ {
		k := vfKey{T: rapid.SampledFrom(vfRouteTypes).Draw(rt, "t")}
		if rapid.IntRange(0, 3).Draw(rt, "free") == 0 {
			k.I = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "i")
		} else {
			k.I = rapid.SampledFrom(vfRouteIDs).Draw(rt, "i")
		}
		if rapid.IntRange(0, 2).Draw(rt, "long") == 0 { // long names that differ in one place or in their length
			k.I = bytes.Repeat([]byte{9}, rapid.SampledFrom([]int{16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 1000}).Draw(rt, "idlen"))
			k.I[rapid.OneOf(rapid.Just(0), rapid.Just(len(k.I)-1), rapid.IntRange(0, len(k.I)-1)).Draw(rt, "at")] ^= byte(rapid.IntRange(0, 3).Draw(rt, "other"))
		}
		s := k.T + "\x00" + string(k.I)
		if !seen[s] {
			seen[s] = true
			c.Keys = append(c.Keys, k)
		}
	}
	if rapid.IntRange(0, 4).Draw(rt, "backlog") == 0 { // few consumers, who come late
		if len(c.Keys) > 2 {
			c.Keys = c.Keys[:2]
		}
		c.Ops = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) vfRouteOp {
			return vfRouteOp{Get: rapid.IntRange(0, 11).Draw(rt, "get") == 0, Key: rapid.SampledFrom([]int{0, 0, 0, len(c.Keys) - 1}).Draw(rt, "key")}
		}), int(c.N*c.N), 2*int(c.N*c.N)+4).Draw(rt, "ops")
		return c
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) vfRouteOp {
		return vfRouteOp{Get: rapid.Bool().Draw(rt, "get"), Key: rapid.IntRange(0, len(c.Keys)-1).Draw(rt, "key"), Early: rapid.IntRange(0, 3).Draw(rt, "early") == 0}
	}), 1, 80).Draw(rt, "ops")
	return c
}

// vfAwait waits for cond, giving up when the process has come to rest without it.
func vfAwait(cond func() bool) bool {
	for i := 0; i < 200; i++ {
		if cond() {
			return true
		}
		runtime.Gosched()
	}
	still := 0
	for still < 60 {
		if cond() {
			return true
		}
		time.Sleep(time.Millisecond)
		if vlib.Idle() {
			still++
			time.Sleep(10 * time.Millisecond)
		} else {
			still = 0
		}
	}
	return cond()
}

func vfRunRoute(c vfRoute, o *vlib.Obs) error {
	cap := int(c.N * c.N)
	recv := make(chan *protobuf.Message, 4096)
	p := &HonestParty{N: c.N}
	vfWire(p, nil, nil, recv)
	queued := make([][]uint32, len(c.Keys)) // what the model still owes to each consumer
	seq := uint32(0)
	mk := func(k int) *protobuf.Message {
		seq++
		queued[k] = append(queued[k], seq)
		return &protobuf.Message{Type: c.Keys[k].T, Id: append([]byte{}, c.Keys[k].I...), Sender: seq, Data: []byte{byte(k)}}
	}
	take := func(k int) error {
		var m *protobuf.Message
		ok := vfAwait(func() bool {
			select {
			case m = <-p.GetMessage(c.Keys[k].T, c.Keys[k].I):
				return true
			default:
				return false
			}
		})
		if !ok {
			return fmt.Errorf("consumer of (%q, %x) never gets message %d", c.Keys[k].T, c.Keys[k].I, queued[k][0])
		}
		if m.Type != c.Keys[k].T || !bytes.Equal(m.Id, c.Keys[k].I) {
			return fmt.Errorf("consumer of (%q, %x) got a message of (%q, %x)", c.Keys[k].T, c.Keys[k].I, m.Type, m.Id)
		}
		if m.Sender != queued[k][0] || len(m.Data) != 1 || m.Data[0] != byte(k) {
			return fmt.Errorf("consumer of (%q, %x) got message %d, next in order of arrival is %d", c.Keys[k].T, c.Keys[k].I, m.Sender, queued[k][0])
		}
		queued[k] = queued[k][1:]
		return nil
	}
	used := map[int]bool{}
	if c.Conc {
		// all consumers and the receiving side at once
		counts := make([]int, len(c.Keys))
		var all []*protobuf.Message
		for _, op := range c.Ops {
			if counts[op.Key] < cap {
				counts[op.Key]++
				used[op.Key] = true
				all = append(all, mk(op.Key))
			}
		}
		var mu sync.Mutex
		var bad error
		left := len(all)
		fire := make(chan struct{})
		for k := range c.Keys {
			k := k
			go func() {
				<-fire
				for i := 0; i < counts[k]; i++ {
					m := <-p.GetMessage(c.Keys[k].T, c.Keys[k].I)
					mu.Lock()
					if bad == nil && (m.Type != c.Keys[k].T || !bytes.Equal(m.Id, c.Keys[k].I) || m.Sender != queued[k][i]) {
						bad = fmt.Errorf("consumer of (%q, %x) got message %d of (%q, %x), next in order of arrival is %d", c.Keys[k].T, c.Keys[k].I, m.Sender, m.Type, m.Id, queued[k][i])
					}
					left--
					mu.Unlock()
				}
			}()
		}
		close(fire)
		for _, m := range all {
			recv <- m
		}
		ok := vfAwait(func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 || bad != nil })
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return bad
		}
		if !ok {
			return fmt.Errorf("%d of %d messages never reached their consumers", left, len(all))
		}
		for k := range queued {
			queued[k] = nil
		}
	} else {
		for _, op := range c.Ops {
			if op.Early {
				p.GetMessage(c.Keys[op.Key].T, c.Keys[op.Key].I)
			}
			if op.Get {
				if len(queued[op.Key]) > 0 {
					if err := take(op.Key); err != nil {
						return err
					}
				}
			} else if len(queued[op.Key]) < cap {
				used[op.Key] = true
				recv <- mk(op.Key)
			}
		}
		for k := range c.Keys {
			for len(queued[k]) > 0 {
				if err := take(k); err != nil {
					return err
				}
			}
		}
	}
	// nothing is left over anywhere
	if !vfAwait(func() bool { return len(recv) == 0 }) {
		return fmt.Errorf("received messages are no longer taken")
	}
	if c.Seed%4 == 0 {
		vlib.IdleFor(2)
	}
	for k := range c.Keys {
		select {
		case m := <-p.GetMessage(c.Keys[k].T, c.Keys[k].I):
			return fmt.Errorf("consumer of (%q, %x) got message %d (again or without right)", c.Keys[k].T, c.Keys[k].I, m.Sender)
		default:
		}
	}
	o.Class("concurrent=%v", c.Conc)
	o.NonTrivial = len(used) >= 2
	return nil
}

func TestVF_C21_Routing(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C21", Quick: 4000, Thorough: 40000}, vfGenRoute, vfRunRoute)
}

// ---- the members' own send operations

type vfSendOp struct {
	Op   string `json:"op"`
	From int    `json:"from"`
	Des  uint32 `json:"des"`
}

type vfSends struct {
	F   uint32     `json:"f"`
	Ops []vfSendOp `json:"ops"`
}

func vfRunSends(c vfSends, o *vlib.Obs) error {
	n := 3*c.F + 1
	type box struct{ send, next []chan *protobuf.Message }
	parties := make([]*HonestParty, n)
	boxes := make([]box, n)
	want := map[string][]uint32{}
	for i := range parties {
		b := box{}
		for j := uint32(0); j < n; j++ {
			b.send = append(b.send, make(chan *protobuf.Message, 200))
			b.next = append(b.next, make(chan *protobuf.Message, 200))
		}
		boxes[i] = b
		parties[i] = &HonestParty{N: n, F: c.F, PID: uint32(i)}
		vfWire(parties[i], b.send, b.next, nil)
	}
	put := func(net string, from int, des uint32, s uint32) {
		k := fmt.Sprintf("%s %d %d", net, from, des)
		want[k] = append(want[k], s)
	}
	for s, op := range c.Ops {
		from := op.From % int(n)
		p := parties[from]
		m := &protobuf.Message{Type: "T", Sender: uint32(s)}
		var err error
		fail := false
		switch op.Op {
		case "send":
			err = p.Send(m, op.Des)
			fail = op.Des >= n
			if !fail {
				put("own", from, op.Des, uint32(s))
			}
		case "next":
			err = p.SendToNextCommittee(m, op.Des)
			fail = op.Des >= n
			if !fail {
				put("next", from, op.Des, uint32(s))
			}
		case "broadcast", "exclude":
			if op.Op == "broadcast" {
				err = p.Broadcast(m)
			} else {
				err = p.BroadcastExclude(m, op.Des)
			}
			for d := uint32(0); d < n; d++ {
				if op.Op == "broadcast" || d != op.Des {
					put("own", from, d, uint32(s))
				}
			}
		case "bnext":
			err = p.BroadcastToNextCommittee(m)
			for d := uint32(0); d < n; d++ {
				put("next", from, d, uint32(s))
			}
		}
		if (err != nil) != fail {
			return fmt.Errorf("operation %d (%s to %d of %d) returned %v", s, op.Op, op.Des, n, err)
		}
	}
	for i := range parties {
		for j := uint32(0); j < n; j++ {
			for _, x := range []struct {
				net string
				ch  chan *protobuf.Message
			}{{"own", boxes[i].send[j]}, {"next", boxes[i].next[j]}} {
				var got []uint32
				for len(x.ch) > 0 {
					got = append(got, (<-x.ch).Sender)
				}
				if fmt.Sprint(got) != fmt.Sprint(want[fmt.Sprintf("%s %d %d", x.net, i, j)]) {
					return fmt.Errorf("link %s from %d to %d carries messages %v, put on it were %v", x.net, i, j, got, want[fmt.Sprintf("%s %d %d", x.net, i, j)])
				}
			}
		}
	}
	o.NonTrivial = len(c.Ops) > 2
	return nil
}

func TestVF_C20_Members(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C20", Quick: 2000, Thorough: 20000}, func(rt *rapid.T) vfSends {
		c := vfSends{F: rapid.Uint32Range(1, 3).Draw(rt, "f")}
		c.Ops = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) vfSendOp {
			return vfSendOp{
				Op:   rapid.SampledFrom([]string{"send", "next", "broadcast", "exclude", "bnext"}).Draw(rt, "op"),
				From: rapid.IntRange(0, 9).Draw(rt, "from"),
				Des:  rapid.OneOf(rapid.Uint32Range(0, 10), rapid.SampledFrom([]uint32{0x7fffffff, 0xffffffff})).Draw(rt, "des"),
			}
		}), 1, 60).Draw(rt, "ops")
		return c
	}, vfRunSends)
}
