from mk import seed
P='internal/party/'
seed('C24-echoes-every-proposal','C24',[
 (P+'RBC.go','''		m := <-p.GetMessage("RBCPropose", ID)
		for !isSender(m.Sender) {
			m = <-p.GetMessage("RBCPropose", ID)
		}
''','''	proposals:
		m := <-p.GetMessage("RBCPropose", ID)
		for !isSender(m.Sender) {
			m = <-p.GetMessage("RBCPropose", ID)
		}
'''),
 (P+'RBC.go','''			*/
		}

	}()
''','''			*/
		}
		goto proposals //somebody may have missed the echo and had the sender propose again

	}()
''')],
 'A sender that proposes twice in one broadcast, the second time with other content.',
 'Honest members echo both contents, and contradict themselves.',
 '''
package party

import (
	"sync"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// The sender proposes two contents; every honest member must echo at most one.
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	var lock sync.Mutex
	echoes := map[[2]uint32]int{}
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if m.Type == "RBCEcho" && from != ps[3] {
			lock.Lock()
			echoes[[2]uint32{from.PID, to.PID}]++
			lock.Unlock()
		}
		return []*protobuf.Message{m}
	})
	id := []byte("one")
	for _, p := range ps[:3] {
		go p.RBCReceive(id)
	}
	for _, x := range []string{"first", "second"} {
		for i := uint32(0); i < 4; i++ {
			ps[3].Send(&protobuf.Message{Type: "RBCPropose", Id: id, Sender: 3, Data: []byte(x)}, i)
		}
		time.Sleep(2 * time.Second)
	}
	lock.Lock()
	defer lock.Unlock()
	for k, n := range echoes {
		if n > 1 {
			t.Fatalf("member %d sent member %d %d echoes in one broadcast", k[0], k[1], n)
		}
	}
	if len(echoes) == 0 {
		t.Fatal("no echo")
	}
}
''')
seed('C24-votes-again-for-a-late-lock','C24',[
 (P+'main_process.go','''				Sigshare: sigShare,
			})
			p.Broadcast(voteMessage)
		}
	}
}
''','''				Sigshare: sigShare,
			})
			p.Broadcast(voteMessage)
			//a lock may still turn up
			vote(ctx, p, IDr, l, preVoteFlagChannel, preVoteYesChannel, preVoteNoChannel, r)
		}
	}
}
''')],
 'A view in which a member has 2f+1 PreVotes for No before a valid one for Yes comes.',
 'The member votes for No and then for Yes in the same view.',
 '''
package party

import (
	"bytes"
	"sync"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/sign/tbls"
	"golang.org/x/crypto/sha3"
)

// Member 0 takes part; the others are played here: they show it No three times,
// then the lock of the leader.
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	var lock sync.Mutex
	votes := 0
	connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if from == ps[0] && to == ps[1] && m.Type == "Vote" {
			lock.Lock()
			votes++
			lock.Unlock()
		}
		if to == ps[0] {
			return []*protobuf.Message{m}
		}
		return nil
	})
	scheme := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	id := []byte("one")
	idr := bytes.Join([][]byte{id, utils.Uint32ToBytes(0)}, nil)
	go MainProcess(ps[0], id, []byte("v"), nil)
	coin := []byte("Done" + string(idr))
	var coins [][]byte
	for i, p := range ps {
		c, _ := scheme.Sign(p.SigSK, coin)
		coins = append(coins, c)
		if i > 0 {
			p.Send(core.Encapsulation("Done", idr, p.PID, &protobuf.Done{CoinShare: c}), 0)
		}
	}
	full, err := scheme.Recover(ps[0].SigPK, coin, coins, 3, 4)
	if err != nil {
		t.Fatal(err)
	}
	l := utils.BytesToUint32(full) % 4
	idl := bytes.Join([][]byte{idr, utils.Uint32ToBytes(l)}, nil)
	no := append([]byte{0}, idr...)
	for _, p := range ps[1:] {
		s, _ := scheme.Sign(p.SigSK, no)
		p.Send(core.Encapsulation("PreVote", idr, p.PID, &protobuf.PreVote{Sig: s}), 0)
	}
	time.Sleep(3 * time.Second)
	h := sha3.Sum512([]byte("x"))
	sm := bytes.Join([][]byte{[]byte("Echo"), idl, {1}, h[:]}, nil)
	var sigs [][]byte
	for _, p := range ps {
		s, _ := scheme.Sign(p.SigSK, sm)
		sigs = append(sigs, s)
	}
	sig, err := scheme.Recover(ps[0].SigPK, sm, sigs, 3, 4)
	if err != nil {
		t.Fatal(err)
	}
	ps[1].Send(core.Encapsulation("PreVote", idr, 1, &protobuf.PreVote{Vote: true, Value: []byte("x"), Sig: sig}), 0)
	for wait := 0; wait < 20; wait++ {
		time.Sleep(200 * time.Millisecond)
		lock.Lock()
		n := votes
		lock.Unlock()
		if n > 1 {
			t.Fatal("member 0 voted", n, "times in one view")
		}
	}
	if votes == 0 {
		t.Fatal("member 0 did not vote")
	}
}
''')
