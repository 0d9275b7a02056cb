from mk import seed
D='internal/party/'
HEAD='''
package party

import (
%s
)

'''
def imp(*l): return HEAD % '\n'.join('\t"%s"'%x for x in l)
B='github.com/DyCAPSTeam/DyCAPS/internal/bls'; PB='github.com/DyCAPSTeam/DyCAPS/pkg/protobuf'; PR='google.golang.org/protobuf/proto'

# ---- C01
seed('C01-low-degree','C01',[(D+'client.go','for i := 0; uint32(i) < 2*client.F+1; i++ {\n\t\tpolyF[i]','for i := 0; uint32(i) < 2*client.F; i++ {\n\t\tpolyF[i]')],
 "Nothing but an honest dealing; it is seen only by interpolating the members' shares at 0 and looking at the degree of the result.",
 "The polynomial that hides the secret in the first column has degree 2f-1 instead of 2f.",
 imp('testing',B)+'''
func TestZZDemo(t *testing.T) {
	for k := 0; k < 3; k++ {
		ps := committee(1)
		s := someFr()
		deal(ps, s, nil)
		c := firstColumn(ps, []int{1, 3})
		mustEqual(t, c[0], s, "secret")
		if bls.EqualZero(&c[2]) {
			t.Fatal("B(0,y) is of degree 1")
		}
	}
}
''')
seed('C01-leak-in-unused-slot','C01',[(D+'party_utils.go','msg.Pi.PiContents[0].GFj = []byte{}','msg.Pi.PiContents[0].GFj = []byte{}\n\t\t\tif BijList[0] != bls.ZERO {\n\t\t\t\tb0 := bls.FrTo32(&BijList[0])\n\t\t\t\tmsg.BijList[0] = b0[:]\n\t\t\t}'),
  (D+'client.go','BijList[i] = make([]bls.Fr, 2*client.F+2)\n\t\tfor j := 1;','BijList[i] = make([]bls.Fr, 2*client.F+2)\n\t\tfor j := 0;'),
  (D+'client.go','bls.EvalPolyAt(&BijList[i][j], BList[j], &position)','if j == 0 {\n\t\t\t\tbls.EvalPolyAt(&BijList[i][j], polyF, &position) // B(0,i)\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tbls.EvalPolyAt(&BijList[i][j], BList[j], &position)')],
 "Reading the part of the dealing message that no member uses: slot 0 of the list of evaluations.",
 "Every member is sent the dealer's column value F(i) = B(0,i) of its index, so that 2f+1 members (or f of them with what they should not know) learn about the secret; two sites must agree for it to happen.",
 imp('testing',B,PB,PR)+'''
func TestZZDemo(t *testing.T) {
	ps := committee(1)
	s := someFr()
	sent := make([]*protobuf.VSSSend, len(ps))
	deal(ps, s, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		sent[to.PID] = new(protobuf.VSSSend)
		proto.Unmarshal(m.Data, sent[to.PID])
		return []*protobuf.Message{m}
	})
	c := firstColumn(ps, []int{0, 1})
	for i := range ps {
		v := at(c, uint64(i+1))
		w := bls.FrTo32(&v)
		for j, b := range sent[i].BijList {
			if string(b) == string(w[:]) {
				t.Fatalf("member %d is sent B(0,%d) in slot %d", i, i+1, j)
			}
		}
	}
}
''')
# ---- C02
DEAL='''
// dealing makes one for member 0 of f = 1.
type dealing struct {
	pi *Pi
	v  []bls.Fr
	w  []bls.G1Point
}

func point(e bls.Fr) bls.G1Point {
	var p bls.G1Point
	bls.MulG1(&p, &bls.GenG1, &e)
	return p
}

func honestDealing(p *HonestParty) dealing {
	d := dealing{new(Pi), make([]bls.Fr, 4), make([]bls.G1Point, 4)}
	d.pi.Init(1)
	F := []bls.Fr{someFr(), someFr(), someFr()}
	d.pi.Gs = point(F[0])
	for j := uint32(1); j <= 3; j++ {
		z := []bls.Fr{fr(0), someFr()}
		b := []bls.Fr{at(F, uint64(j)), z[1]}
		d.pi.PiContents[j] = PiContent{j, *p.KZG.CommitToPoly(b), *p.KZG.CommitToPoly(z), *p.KZG.ComputeProofSingle(z, fr(0)), point(b[0])}
		d.v[j] = at(b, 1)
		d.w[j] = *p.KZG.ComputeProofSingle(b, fr(1))
	}
	return d
}

func (d dealing) give(p *HonestParty, id string) {
	p.GetMessage("VSSSend", []byte(id)) <- &protobuf.Message{Type: "VSSSend", Id: []byte(id), Sender: 0x7fffffff, Data: EncapsulateVSSSend(d.pi, d.v, d.w, 1)}
	p.VSSShareReceive([]byte(id))
}
'''
seed('C02-one-of-two-checks','C02',[(D+'VSS.go','if !verifyEval || !verifyCBj {','if !verifyEval && !verifyCBj {')],
 "A dealing in which the zero proof of one blinding commitment holds but the column commitment is another polynomial's, with values and witnesses that fit that commitment.",
 "A column commitment that is not the blinding commitment times the column value commitment is adopted, so that the columns do not lie on the announced polynomial.",
 imp('testing',B,PB)+DEAL+'''
func TestZZDemo(t *testing.T) {
	p := committee(1)[0]
	d := honestDealing(p)
	d.give(p, "a")
	if p.Proof.Gs != d.pi.Gs && !bls.EqualG1(&p.Proof.Gs, &d.pi.Gs) {
		t.Fatal("an honest dealing is not adopted")
	}
	q := committee(1)[0]
	e := honestDealing(q)
	b := []bls.Fr{someFr(), someFr()} // another column 2
	e.pi.PiContents[2].CBj = *q.KZG.CommitToPoly(b)
	e.v[2] = at(b, 1)
	e.w[2] = *q.KZG.ComputeProofSingle(b, fr(1))
	e.give(q, "b")
	if bls.EqualG1(&q.Proof.Gs, &e.pi.Gs) {
		t.Fatal("a dealing with a column that does not fit is adopted")
	}
}
''')
seed('C02-state-before-check','C02',[(D+'VSS.go','	verifyOK = p.VerifyVSSSendReceived(','	p.Proof.Set(piFromSend, p.F)\n	verifyOK = p.VerifyVSSSendReceived('),
   (D+'VSS.go','		p.Proof.Set(piFromSend, p.F)\n\n		//prepare','		//prepare')],
 "A well-formed dealing that is rejected, at a member that holds an earlier sharing.",
 "The commitments of a rejected dealing replace those of the member's sharing.",
 imp('testing',B,PB)+DEAL+'''
func TestZZDemo(t *testing.T) {
	p := committee(1)[0]
	d := honestDealing(p)
	d.give(p, "a")
	e := honestDealing(p)
	e.v[3] = someFr()
	e.give(p, "b")
	if !bls.EqualG1(&p.Proof.Gs, &d.pi.Gs) || !bls.EqualG1(&p.Proof.PiContents[1].CBj, &d.pi.PiContents[1].CBj) {
		t.Fatal("a rejected dealing changed the member's state")
	}
}
''')
seed('C02-last-column-unchecked','C02',[(D+'VSS.go','	for j := uint32(1); j < 2*p.F+2; j++ {\n		//KZG Verify','	for j := uint32(1); j < 2*p.F+1; j++ {\n		//KZG Verify')],
 "A dealing whose last evaluation (column 2f+1) or its witness is wrong.",
 "The last evaluation is adopted unchecked.",
 imp('testing',B,PB)+DEAL+'''
func TestZZDemo(t *testing.T) {
	p := committee(1)[0]
	e := honestDealing(p)
	e.v[3] = someFr()
	e.give(p, "b")
	if !bls.EqualZero(&p.fullShare[0]) || bls.EqualG1(&p.Proof.Gs, &e.pi.Gs) {
		t.Fatal("a dealing with a wrong last evaluation is adopted")
	}
}
''')
# ---- C04
XF=imp('testing','time',B,PB,PR)+'''
'''
seed('C04-prepare-threshold','C04',[(D+'ShareReduce.go','if uint32(counter+1) == p.F+1 {','if uint32(counter+1) == p.F {')],
 "A lying old member whose Prepare message reaches a new member before the others'.",
 "f equal Prepare messages are enough, so that f liars choose the commitments of a new member.",
 imp('testing','time',B,PB)+'''
func TestZZDemo(t *testing.T) {
	old, next, other := committee(1), committee(1), committee(1)
	s := someFr()
	deal(old, s, nil)
	deal(other, someFr(), nil)
	connectNext(old, next, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if m.Type == "Prepare" && from.PID != 3 {
			time.Sleep(500 * time.Millisecond)
		}
		return []*protobuf.Message{m}
	})
	old[3].Proof = other[3].Proof // member 3 lies about the commitments
	if late := transfer(old, next); late != nil {
		t.Fatal("not finished", late)
	}
	for i, q := range next {
		for j := 1; j <= 3; j++ {
			if !bls.EqualG1(&q.Proof.PiContents[j].CBj, &old[0].Proof.PiContents[j].CBj) {
				t.Fatalf("new member %d has a wrong commitment %d", i, j)
			}
		}
	}
}
''')
seed('C04-mixed-commitments','C04',[(D+'ShareReduce.go','			cStr := string(ShareReduceData.C)\n','			cStr := string(ShareReduceData.C[:1]) //the compressed points begin with their flags\n')],
 "A lying old member that sends a share and witness fitting a commitment of its own, among the first to arrive.",
 "Shares for different commitments are counted together, so that the interpolated reduced share mixes true and false points.",
 imp('testing','time',PB)+'''
func TestZZDemo(t *testing.T) {
	for round := 0; round < 6; round++ {
		old, next, other := committee(1), committee(1), committee(1)
		s := someFr()
		deal(old, s, nil)
		deal(other, someFr(), nil)
		connectNext(old, next, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
			if m.Type == "ShareReduce" && from.PID != 3 {
				time.Sleep(300 * time.Millisecond)
			}
			return []*protobuf.Message{m}
		})
		// member 3 passes on shares of another sharing, correct ones
		old[3].Proof, old[3].fullShare, old[3].witness = other[3].Proof, other[3].fullShare, other[3].witness
		if late := transfer(old, next); late != nil {
			t.Fatal("not finished", late)
		}
		for i, q := range next {
			for x := range old[:3] {
				mustEqual(t, at(q.reducedShare, uint64(x+1)), at(old[x].fullShare, uint64(i+1)), "B(x,i)")
			}
		}
	}
}
''')
# ---- C05
seed('C05-success-of-all','C05',[(D+'ProactivizeAndShareDist.go','if SuccessCount >= 2*p.F+1 {','if SuccessCount >= p.N-p.F/2 {')],
 "A new committee with a member that is silent (for f = 1), or crashed before its Success message.",
 "A handoff ends only when all members (for f = 1) have reported success.",
 imp('testing',B)+'''
func TestZZDemo(t *testing.T) {
	old, next := committee(1), committee(1)
	s := someFr()
	deal(old, s, nil)
	connectNext(old, next, nil)
	connect(next, nil)
	if late := transfer(old, next); late != nil {
		t.Fatal("transfer not finished", late)
	}
	if late := handoff(next, 0, 1, 2); late != nil { // member 3 is silent
		t.Fatal("handoff not finished", late)
	}
	mustEqual(t, firstColumn(next, []int{0, 2})[0], s, "secret")
	_ = bls.ZERO
}
''')
seed('C05-shared-wakeup','C05',[(D+'ProactivizeAndShareDist.go','				startVote[j] <- true\n				startRecover[j] <- true\n','				startVote[j] <- true\n'),
  (D+'ProactivizeAndShareDist.go','				<-startRecover[k]\n','				<-startVote[k]\n'),
  (D+'ProactivizeAndShareDist.go','		startRecover[i] = make(chan bool, 1)\n',''),
  (D+'ProactivizeAndShareDist.go','	var startRecover = make([]chan bool, p.N+1)\n','')],
 "A Reshare message that arrives before the broadcast of the same member's commitments is delivered, so that two goroutines wait for it.",
 "The vote and the recovery wait for one and the same signal, which wakes up only one of them: a member either votes or recovers, and the handoff can stop for ever.",
 imp('testing','time',B,PB)+'''
func TestZZDemo(t *testing.T) {
	old, next := committee(1), committee(1)
	s := someFr()
	deal(old, s, nil)
	connectNext(old, next, nil)
	connect(next, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if m.Type == "RBCPropose" {
			time.Sleep(time.Second) // the resharing comes first
		}
		return []*protobuf.Message{m}
	})
	if late := transfer(old, next); late != nil {
		t.Fatal("transfer not finished", late)
	}
	if late := handoff(next); late != nil {
		t.Fatal("handoff not finished", late)
	}
	mustEqual(t, firstColumn(next, []int{0, 2})[0], s, "secret")
	_ = bls.ZERO
}
''')
# ---- C06
seed('C06-either-check','C06',[(D+'ProactivizeAndShareDist.go','if !bls.EqualG1(CQk, &mulRes) || !verifyKZGOk {','if !bls.EqualG1(CQk, &mulRes) && !verifyKZGOk {')],
 "A lying new member whose Commit has blinding commitments that are not zero at 0 but fit everything else, and whose contribution is among those agreed on.",
 "The contribution changes the secret: the zero proof is not required any more when the product equation holds.",
 imp('testing','time',B,PB,PR)+'''
func TestZZDemo(t *testing.T) {
	old, next := committee(1), committee(1)
	s := someFr()
	deal(old, s, nil)
	connectNext(old, next, nil)
	var g bls.G1Point
	one := fr(1)
	bls.MulG1(&g, &bls.GenG1, &one)
	plus := func(b []byte) []byte {
		p, _ := bls.FromCompressedG1(b)
		var sum bls.G1Point
		bls.AddG1(&sum, p, &g)
		return bls.ToCompressedG1(&sum)
	}
	connect(next, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if from.PID != 3 {
			if m.Type == "RBCPropose" && from.PID != 2 {
				go func() { // those of 2 and 3 are the first
					time.Sleep(1500 * time.Millisecond)
					to.GetMessage(m.Type, m.Id) <- m
				}()
				return nil
			}
			return []*protobuf.Message{m}
		}
		switch m.Type { // member 3 adds 1 to all its polynomials
		case "RBCPropose":
			var in protobuf.Message
			proto.Unmarshal(m.Data, &in)
			if in.Type == "Commit" {
				var c protobuf.Commit
				proto.Unmarshal(in.Data, &c)
				for _, pi := range c.Pi {
					pi.CBj, pi.CZj = plus(pi.CBj), plus(pi.CZj)
				}
				in.Data, _ = proto.Marshal(&c)
				m.Data, _ = proto.Marshal(&in)
			}
		case "Reshare":
			var r protobuf.Reshare
			proto.Unmarshal(m.Data, &r)
			for i, q := range r.Qk {
				var b [32]byte
				copy(b[:], q)
				var v, w bls.Fr
				bls.FrFrom32(&v, b)
				bls.AddModFr(&w, &v, &one)
				b = bls.FrTo32(&w)
				r.Qk[i] = append([]byte{}, b[:]...)
			}
			m.Data, _ = proto.Marshal(&r)
		}
		return []*protobuf.Message{m}
	})
	if late := transfer(old, next); late != nil {
		t.Fatal("transfer not finished", late)
	}
	if late := handoff(next); in(late, 0) || in(late, 1) || in(late, 2) {
		t.Fatal("handoff not finished", late)
	}
	mustEqual(t, firstColumn(next, []int{0, 1})[0], s, "secret")
}
''')
seed('C06-recover-any-point','C06',[(D+'ProactivizeAndShareDist.go','if KZGVerifyOk && (SigShareVerifyOk == nil) {','if KZGVerifyOk || (SigShareVerifyOk == nil) {')],
 "A lying new member that sends a wrong recovery point with a proper signature share, early enough to be among the first f+1.",
 "Wrong recovery points are interpolated, and the receiver ends with a wrong share or none.",
 imp('testing','time',B,PB,PR)+'''
func TestZZDemo(t *testing.T) {
	old, next := committee(1), committee(1)
	s := someFr()
	deal(old, s, nil)
	connectNext(old, next, nil)
	connect(next, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if m.Type == "Recover" {
			if from.PID != 3 {
				time.Sleep(300 * time.Millisecond)
			} else {
				var r protobuf.Recover
				proto.Unmarshal(m.Data, &r)
				r.V = make([]byte, 32)
				r.V[0] = 7
				m.Data, _ = proto.Marshal(&r)
			}
		}
		return []*protobuf.Message{m}
	})
	if late := transfer(old, next); late != nil {
		t.Fatal("transfer not finished", late)
	}
	if late := handoff(next, 0, 1, 2, 3); in(late, 0) || in(late, 1) || in(late, 2) {
		t.Fatal("handoff not finished", late)
	}
	mustEqual(t, firstColumn(next, []int{0, 1})[0], s, "secret")
	_ = bls.ZERO
}
''')
# ---- C07
HO=imp('testing',B)+'''
func TestZZDemo(t *testing.T) {
	old, next := committee(1), committee(1)
	s := someFr()
	deal(old, s, nil)
	connectNext(old, next, nil)
	connect(next, nil)
	if late := transfer(old, next); late != nil {
		t.Fatal("transfer not finished", late)
	}
	if late := handoff(next); late != nil {
		t.Fatal("handoff not finished", late)
	}
	mustEqual(t, firstColumn(next, []int{0, 2})[0], s, "secret")
	for i, q := range next {
		// the same slice before: B(x, i) from the old members' full shares
		a, b := at(old[0].fullShare, uint64(i+1)), at(old[1].fullShare, uint64(i+1))
		var was, is bls.Fr
		bls.SubModFr(&was, &b, &a) // degree 1: the coefficient of x
		is = q.reducedShare[1]
		if bls.EqualFr(&was, &is) {
			t.Fatalf("the coefficient of x in the reduced share of member %d is still the old one", i)
		}
	}
}
'''
seed('C07-constant-contributions','C07',[(D+'ProactivizeAndShareDist.go','Q[p.PID+1][j] = polyring.NewRandPoly(int(p.F))','Q[p.PID+1][j] = append(polyring.NewRandPoly(int(p.F)-1), bls.ZERO)')],
 "Any handoff; it is seen only by comparing the top coefficients of the reduced shares before and after.",
 "The contributions have degree f-1 in x, so that the top coefficient of every reduced share is never refreshed and old and new shares combine.",
 HO)
seed('C07-few-contributions','C07',[(D+'ProactivizeAndShareDist.go','for _, j := range MVBARes.J {','for _, j := range MVBARes.J[:p.F] {')],
 "Any handoff; it is seen only by comparing the refreshed polynomial with the contributions agreed on.",
 "Only f of the agreed contributions are added: f faulty members can know the whole refreshment.",
 imp('testing','sync','strconv',B,PB,PR)+'''
// The commitments of the new sharing must be the old ones times those of two
// contributions at least: they may not differ by the contribution of one member.
func TestZZDemo(t *testing.T) {
	old, next := committee(1), committee(1)
	s := someFr()
	deal(old, s, nil)
	connectNext(old, next, nil)
	var mu sync.Mutex
	made := map[string]*protobuf.Commit{}
	connect(next, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if m.Type == "RBCPropose" {
			var in protobuf.Message
			proto.Unmarshal(m.Data, &in)
			if in.Type == "Commit" {
				c := new(protobuf.Commit)
				proto.Unmarshal(in.Data, c)
				mu.Lock()
				made[strconv.Itoa(int(from.PID))] = c
				mu.Unlock()
			}
		}
		return []*protobuf.Message{m}
	})
	if late := transfer(old, next); late != nil {
		t.Fatal("transfer not finished", late)
	}
	if late := handoff(next); late != nil {
		t.Fatal("handoff not finished", late)
	}
	mu.Lock()
	defer mu.Unlock()
	for who, c := range made {
		one, _ := bls.FromCompressedG1(c.Pi[0].CBj)
		var sum bls.G1Point
		bls.AddG1(&sum, one, &old[0].Proof.PiContents[1].CBj)
		p := *next[0].KZG.CommitToPoly(next[0].reducedShare)
		if bls.EqualG1(&sum, &p) {
			t.Fatalf("the shares are refreshed by member %s alone", who)
		}
	}
}
''')
# ---- C08
seed('C08-witness-order','C08',[(D+'ShareReduce.go','tmpWB[j] = p.InterpolateComOrWitByKnownIndexes(2*p.F, j, p.witnessIndexes, p.witness)','tmpWB[j] = p.InterpolateComOrWit(2*p.F, j, p.witness)')],
 "A second handoff, after one in which the first 2f+1 points of the share distribution that a member took were not those of members 1 to 2f+1 in order.",
 "The witnesses kept from a handoff are interpolated as if they belonged to 1..2f+1, as after a dealing, and the next transfer fails.",
 imp('testing','time',B,PB)+'''
func TestZZDemo(t *testing.T) {
	a, b, c := committee(1), committee(1), committee(1)
	s := someFr()
	deal(a, s, nil)
	connectNext(a, b, nil)
	connectNext(b, c, nil)
	connect(b, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
		if m.Type == "ShareDist" && from.PID == 0 {
			time.Sleep(2 * time.Second) // member 0's points come late
		}
		return []*protobuf.Message{m}
	})
	if late := transfer(a, b); late != nil {
		t.Fatal("transfer not finished", late)
	}
	if late := handoff(b); late != nil {
		t.Fatal("handoff not finished", late)
	}
	if late := transfer(b, c); late != nil {
		t.Fatal("the next transfer is not finished", late)
	}
	for i, q := range c {
		mustEqual(t, at(q.reducedShare, 1), at(b[0].fullShare, uint64(i+1)), "B(x,i)")
	}
	_ = bls.ZERO
}
''')
