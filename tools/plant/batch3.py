from mk import seed
P='internal/party/'
RBCTEST='''
package party

import (
	"crypto/sha256"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	"github.com/klauspost/reedsolomon"
	"google.golang.org/protobuf/proto"
)

// fragments of a message, and its digest, as a member of four makes them
func fragments(M []byte) ([]byte, [][]byte) {
	enc, _ := reedsolomon.New(2, 2)
	shards, _ := enc.Split(M)
	enc.Encode(shards)
	h := sha256.Sum256(M)
	return append(h[:], utils.IntToBytes(len(M))...), shards
}

// Member 3 is faulty, and the sender. It proposes A to members 0 and 1 and B to member 2.
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if from != ps[3] && m.Type == "RBCEcho" && to == ps[2] && from != ps[2] {
			time.Sleep(300 * time.Millisecond)
		}
		return []*protobuf.Message{m}
	})
	id := []byte("rbc")
	a, _ := proto.Marshal(&protobuf.Message{Data: []byte("content A")})
	b, _ := proto.Marshal(&protobuf.Message{Data: []byte("content B")})
	ha, fa := fragments(a)
	hb, fb := fragments(b)
	send := func(to int, kind string, data []byte) {
		ps[to].GetMessage(kind, id) <- &protobuf.Message{Type: kind, Id: id, Sender: 3, Data: data}
	}
	echo := func(to int, h []byte, f [][]byte) {
		d, _ := proto.Marshal(&protobuf.RBCEcho{Hash: h, M: f[to]})
		send(to, "RBCEcho", d)
	}
	echo(0, ha, fa)
	echo(1, ha, fa)
	echo(2, hb, fb)
	ready, _ := proto.Marshal(&protobuf.RBCReady{Hash: ha, M: fa[3]})
	send(0, "RBCReady", ready)
	send(0, "RBCPropose", a)
	send(1, "RBCPropose", a)
	send(2, "RBCPropose", b)
	got := make([]*protobuf.Message, 3)
	var fs []func()
	for i := range got {
		i := i
		fs = append(fs, func() { got[i] = ps[i].RBCReceive(id) })
	}
	late := within(20*time.Second, fs...)
	if len(late) != 0 && len(late) != 3 {
		t.Fatal("members", late, "never deliver although another one has delivered")
	}
}
'''
seed('C03-ready-after-few-echoes','C03',[
 (P+'RBC.go','if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {','if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.F+1 {')],
 'A faulty sender that proposes one message to some members and another one to the rest, and completes the first one at a single member.',
 'A member commits itself to the minority message: one member delivers and the others never do.',
 RBCTEST)

seed('C10-same-leader-in-every-view','C10',[
 (P+'message_handler.go','''		buf.Write([]byte("Done"))
		buf.Write(IDr)
''','''		buf.Write([]byte("Done"))
		buf.Write(IDr[:len(IDr)-4])
'''),
 (P+'main_process.go','''		buf.Write([]byte("Done"))
		buf.Write(IDr)
''','''		buf.Write([]byte("Done"))
		buf.Write(IDr[:len(IDr)-4])
''')],
 'A silent member that the first view elects: the coin of the later views elects it again.',
 'The agreement never ends.',
 '''
package party

import (
	"fmt"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// Member 3 is silent.
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if from == ps[3] || to == ps[3] {
			return nil
		}
		return []*protobuf.Message{m}
	})
	var fs []func()
	for k := 0; k < 24; k++ {
		id := []byte(fmt.Sprint("instance", k))
		for i := 0; i < 3; i++ {
			p := ps[i]
			fs = append(fs, func() { MainProcess(p, id, []byte("v"), nil) })
		}
	}
	if late := within(100*time.Second, fs...); len(late) > 0 {
		t.Fatal(len(late), "members do not decide")
	}
}
''')

seed('C10-no-help-for-the-slow','C10',[
 (P+'message_handler.go','''						doneFlagChannel <- true
						//fmt.Println("party", p.PID, "received f+1 doneMessage")
''','''						//fmt.Println("party", p.PID, "received f+1 doneMessage")
''')],
 'A slow member whose own proposal arrives after the others have elected a leader, and a member that crashes after it has sent its Finish and Done messages to the others only.',
 'The slow member sees too few Finish and Done messages, and never decides.',
 '''
package party

import (
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// Member 3 crashes while it sends its messages: member 2 does not get its Finish and Done.
// Member 2's proposal is slow.
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if from == ps[3] && to == ps[2] && (m.Type == "Finish" || m.Type == "Done") {
			return nil
		}
		if from == ps[3] && (m.Type == "PreVote" || m.Type == "Vote" || m.Type == "Halt") {
			return nil
		}
		if from == ps[2] && m.Type == "Value" && to != ps[2] {
			time.Sleep(5 * time.Second)
		}
		return []*protobuf.Message{m}
	})
	var fs []func()
	for i := 0; i < 3; i++ {
		p := ps[i]
		fs = append(fs, func() { MainProcess(p, []byte("instance"), []byte("v"), nil) })
	}
	go MainProcess(ps[3], []byte("instance"), []byte("v"), nil)
	if late := within(60*time.Second, fs...); len(late) > 0 {
		t.Fatal("members", late, "do not decide")
	}
}
''')

CRAFT='''
package party

import (
	"bytes"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/sign/tbls"
	"golang.org/x/crypto/sha3"
)

func cat(parts ...[]byte) []byte { return bytes.Join(parts, nil) }

// certificate of three members over a message
func certificate(ps []*HonestParty, m []byte) []byte {
	s := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	var shares [][]byte
	for _, p := range ps[:3] {
		x, _ := s.Sign(p.SigSK, m)
		shares = append(shares, x)
	}
	sig, err := s.Recover(ps[0].SigPK, m, shares, 3, 4)
	if err != nil {
		panic(err)
	}
	return sig
}

func echoOf(idr []byte, leader uint32, stage byte, v []byte) []byte {
	h := sha3.Sum512(v)
	return cat([]byte("Echo"), idr, utils.Uint32ToBytes(leader), []byte{stage}, h[:])
}

// shares of the other members' coin, and the leader it elects
func coin(ps []*HonestParty, idr []byte) (shares [][]byte, leader uint32) {
	s := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	name := cat([]byte("Done"), idr)
	for _, p := range ps[1:] {
		x, _ := s.Sign(p.SigSK, name)
		shares = append(shares, x)
	}
	return shares, utils.BytesToUint32(certificate(ps, name)) % 4
}
'''
seed('C11-lock-certificate-decides','C11',[
 (P+'message_handler.go','''				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||2||h)
				if err == nil {
					//the sender''','''				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||2||h)
				if err != nil {
					sm[len([]byte("Echo"))+len(IDrj[l])] = 1
					err = blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //a quorum has seen the value
				}
				if err == nil {
					//the sender''')],
 'A Halt message of a faulty member that carries the certificate of the first stage of the elected leader.',
 'A member decides a value that is only locked.',
 CRAFT+'''
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message { return nil })
	id := []byte("instance")
	idr := cat(id, utils.Uint32ToBytes(0))
	shares, l := coin(ps, idr)
	var got []byte
	done := make(chan bool)
	go func() {
		got = MainProcess(ps[0], id, []byte("mine"), nil)
		close(done)
	}()
	for i, s := range shares {
		ps[0].GetMessage("Done", idr) <- core.Encapsulation("Done", idr, uint32(i+1), &protobuf.Done{CoinShare: s})
	}
	halt := func(stage byte, sig []byte) {
		ps[0].GetMessage("Halt", idr) <- core.Encapsulation("Halt", idr, 3, &protobuf.Halt{Value: []byte("v"), Sig: sig})
	}
	halt(1, certificate(ps, echoOf(idr, l, 1, []byte("v"))))
	select {
	case <-done:
		t.Fatalf("decided %q with the certificate of a lock", got)
	case <-time.After(5 * time.Second):
	}
	halt(2, certificate(ps, echoOf(idr, l, 2, []byte("v"))))
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("did not decide with a proper certificate")
	}
}
''')

seed('C11-verified-signatures-remembered','C11',[
 (P+'message_handler.go','''		FrLength := 0
		for {''','''		FrLength := 0
		verified := make(map[string]bool) //signatures that need no second verification
		for {'''),
 (P+'message_handler.go','''				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||index||2||h)
				if err == nil {
''','''				if verified[string(payload.Sig)] || blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) == nil { //verify("Echo"||ID||r||index||2||h)
					verified[string(payload.Sig)] = true
''')],
 'A Finish message of a faulty member that carries the signature of another member\'s Finish message with a value of its own, and the election of the faulty member.',
 'A value without any certificate is accepted as finished, and decided.',
 CRAFT+'''
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message { return nil })
	for k := 0; k < 64; k++ {
		id := []byte{byte(k), 'i'}
		idr := cat(id, utils.Uint32ToBytes(0))
		shares, l := coin(ps, idr)
		if l != 3 {
			continue
		}
		done := make(chan bool)
		go func() {
			MainProcess(ps[0], id, []byte("mine"), nil)
			close(done)
		}()
		for _, i := range []uint32{1, 3} {
			sig := certificate(ps, echoOf(idr, 1, 2, []byte("one")))
			v := []byte("one")
			if i == 3 {
				v = []byte("forged")
			}
			ps[0].GetMessage("Finish", idr) <- core.Encapsulation("Finish", idr, i, &protobuf.Finish{Value: v, Sig: sig})
		}
		time.Sleep(time.Second)
		for i, s := range shares {
			ps[0].GetMessage("Done", idr) <- core.Encapsulation("Done", idr, uint32(i+1), &protobuf.Done{CoinShare: s})
		}
		select {
		case <-done:
			t.Fatal("decided without a certificate")
		case <-time.After(5 * time.Second):
		}
		return
	}
}
''')

seed('C09-echoes-every-value','C09',[
 (P+'pb.go','''		p.Send(echoMessage, sender)

		return payload.Value, payload.Validation, true
''','''		p.Send(echoMessage, sender)

		//the sender may have missed it, and asks again
		go func() {
			for {
				select {
				case <-ctx.Done():
					return
				case m := <-p.GetMessage("Value", ID):
					again := (core.Decapsulation("Value", m)).(*protobuf.Value)
					if m.Sender != sender || validator != nil && validator(p, ID, sender, again.Value, again.Validation) != nil {
						continue
					}
					h := sha3.Sum512(again.Value)
					sigShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, append(sm[:len(sm)-len(h):len(sm)-len(h)], h[:]...))
					p.Send(core.Encapsulation("Echo", ID, p.PID, &protobuf.Echo{Sigshare: sigShare}), sender)
				}
			}
		}()

		return payload.Value, payload.Validation, true
''')],
 'A faulty member that broadcasts two values one after the other, collects certificates for both, shows them to different members, and is elected.',
 'Honest members decide different values.',
 '''
package party

import (
	"bytes"
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
)

// Member 3 is faulty: it has values A and B certified, one after the other, and shows A to member 0 and B to the others.
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if from != ps[3] && m.Type == "Finish" {
			go func() {
				time.Sleep(20 * time.Second)
				to.GetMessage(m.Type, m.Id) <- m
			}()
			return nil
		}
		return []*protobuf.Message{m}
	})
	const count = 30
	decided := make([][3]string, count)
	var fs []func()
	for k := 0; k < count; k++ {
		k := k
		id := []byte(fmt.Sprint("instance", k))
		idr := bytes.Join([][]byte{id, utils.Uint32ToBytes(0)}, nil)
		id3 := bytes.Join([][]byte{idr, utils.Uint32ToBytes(3)}, nil)
		for i := 0; i < 3; i++ {
			i := i
			fs = append(fs, func() { decided[k][i] = string(MainProcess(ps[i], id, []byte(fmt.Sprint("v", i)), nil)) })
		}
		go func() {
			for n, v := range []string{"A", "B"} {
				ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
				_, sig, ok := SPBSender(ctx, ps[3], id3, []byte(v), nil)
				cancel()
				if !ok {
					continue
				}
				for i := 0; i < 3; i++ {
					if (i == 0) == (n == 0) {
						ps[3].Send(core.Encapsulation("Finish", idr, 3, &protobuf.Finish{Value: []byte(v), Sig: sig}), uint32(i))
					}
				}
			}
		}()
	}
	if late := within(120*time.Second, fs...); len(late) > 0 {
		t.Log(len(late), "members do not decide")
	}
	for k, d := range decided {
		for i := 1; i < 3; i++ {
			if d[0] != "" && d[i] != "" && d[0] != d[i] {
				t.Fatalf("instance %d: members decide %q and %q", k, d[0], d[i])
			}
		}
	}
}
''')
