from mk import seed
PC='internal/polycommit/'; B='internal/bls/'; P='internal/party/'; C='pkg/core/'

seed('C12-new-keys-of-old-secret','C12',[
 (P+'keygen.go','	x_new := suit.G1().Scalar().Pick(random)\n','	x_new := suit.G1().Scalar().Set(x)\n')],
 'Generating the keys of both committees and comparing the two public keys; either committee alone works.',
 'The two committees share one signing secret: a certificate of the old committee verifies in the new one.',
 '''
package party

import (
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Fatal(err)
	}
	GenCoefficientsFile(4, 3)
	_, old := SigKeyGenFix(4, 3)
	_, next := SigKeyGenFix_New(4, 3)
	if old.Commit().Equal(next.Commit()) {
		t.Fatal("the committees have the same public key")
	}
}
''',net=False)

seed('C13-any-proof-of-a-constant','C13',[
 (PC+'kzg_single_proofs.go','	bls.SubG1(&commitmentMinusY, commitment, &yG1)\n','''	bls.SubG1(&commitmentMinusY, commitment, &yG1)
	if bls.EqualG1(&commitmentMinusY, &bls.ZeroG1) {
		return true // a constant polynomial: nothing is left to prove
	}
''')],
 'A commitment to a constant polynomial (or a claimed value equal to the committed constant) with a proof that is not the honest one.',
 'An altered proof is accepted.',
 '''
package polycommit

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func TestZZDemo(t *testing.T) {
	g1, g2 := GenerateTestingSetup("1927409816240961209460912649124", 5)
	ks := NewKZGSettings(NewFFTSettings(2), g1, g2)
	poly := make([]bls.Fr, 5)
	bls.AsFr(&poly[0], 77)
	c := ks.CommitToPoly(poly)
	var x bls.Fr
	bls.AsFr(&x, 9)
	proof := ks.ComputeProofSingle(poly, x)
	if !ks.CheckProofSingle(c, proof, &x, &poly[0]) {
		t.Fatal("an honest proof is refused")
	}
	if ks.CheckProofSingle(c, &bls.GenG1, &x, &poly[0]) {
		t.Fatal("an altered proof is accepted")
	}
}
''',pkg='internal/polycommit')

seed('C13-plain-commitment-stops-early','C13',[
 (PC+'kzg_single_proofs.go','	for i := 0; i < len(coeffs); i++ {\n		bls.MulG1(&tmp, &ks.SecretG1[i], &coeffs[i])\n',
 '	for i := 0; i < len(coeffs) && !bls.EqualZero(&coeffs[i]); i++ {\n		bls.MulG1(&tmp, &ks.SecretG1[i], &coeffs[i])\n')],
 'A polynomial with a zero coefficient below a coefficient that is not zero.',
 'The plain commitment routine ignores what follows a zero coefficient, and disagrees with the optimised one.',
 '''
package polycommit

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func TestZZDemo(t *testing.T) {
	g1, g2 := GenerateTestingSetup("1927409816240961209460912649124", 5)
	ks := NewKZGSettings(NewFFTSettings(2), g1, g2)
	poly := make([]bls.Fr, 5)
	bls.AsFr(&poly[0], 77)
	bls.AsFr(&poly[3], 5)
	if !bls.EqualG1(ks.CommitToPoly(poly), ks.CommitToPolyUnoptimized(poly)) {
		t.Fatal("the commitments differ")
	}
}
''',pkg='internal/polycommit')

seed('C14-power-in-a-machine-word','C14',[
 (PC+'kzg_multi_proofs.go','''	bls.CopyFr(&xPowN, &bls.ONE)
	for i := uint64(0); i < n; i++ {
		bls.MulModFr(&tmp, &xPowN, &xFr)
		bls.CopyFr(&xPowN, &tmp)
	}
''','''	if n <= 4 && x < 1<<17 {
		// a small power fits into a word
		pow := uint64(1)
		for i := uint64(0); i < n; i++ {
			pow *= x
		}
		bls.AsFr(&xPowN, pow)
	} else {
		bls.CopyFr(&xPowN, &bls.ONE)
		for i := uint64(0); i < n; i++ {
			bls.MulModFr(&tmp, &xPowN, &xFr)
			bls.CopyFr(&xPowN, &tmp)
		}
	}
''')],
 'A coset of four points whose offset lies between 65536 and 131071: its fourth power does not fit into 64 bits.',
 'The proof is computed for another coset and does not verify.',
 '''
package polycommit

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func TestZZDemo(t *testing.T) {
	fs := NewFFTSettings(4)
	g1, g2 := GenerateTestingSetup("1927409816240961209460912649124", 17)
	ks := NewKZGSettings(fs, g1, g2)
	poly := make([]bls.Fr, 10)
	for i := range poly {
		bls.AsFr(&poly[i], uint64(i*i+3))
	}
	c := ks.CommitToPoly(poly)
	for _, x := range []uint64{3, 65535, 65537, 100000, 200000} {
		proof := ks.ComputeProofMulti(poly, x, 4)
		var xFr bls.Fr
		bls.AsFr(&xFr, x)
		ys := make([]bls.Fr, 4)
		for i := range ys {
			var p bls.Fr
			bls.MulModFr(&p, &xFr, &fs.ExpandedRootsOfUnity[4*i])
			bls.EvalPolyAt(&ys[i], poly, &p)
		}
		if !ks.CheckProofMulti(c, proof, &xFr, ys) {
			t.Fatal("an honest proof is refused at offset", x)
		}
	}
}
''',pkg='internal/polycommit')

seed('C15-division-skips-zeros','C15',[
 (PC+'poly.go','''		quot := &out[diff]
		polyFactorDiv(quot, &a[aPos], &divisor[bPos])
''','''		quot := &out[diff]
		if bls.EqualZero(&a[aPos]) {
			diff -= 1
			continue // this coefficient of the quotient is zero
		}
		polyFactorDiv(quot, &a[aPos], &divisor[bPos])
''')],
 'A division in the course of which a leading coefficient becomes zero before the end, as with a dividend padded with zeros.',
 'The rest of the quotient is lost: proofs for such polynomials are wrong.',
 '''
package polycommit

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func TestZZDemo(t *testing.T) {
	// (x^2 + 3)(x - 2) = x^3 - 2x^2 + 3x - 6
	dividend := make([]bls.Fr, 4)
	quotient := []uint64{3, 0, 1}
	divisor := make([]bls.Fr, 2)
	var two bls.Fr
	bls.AsFr(&two, 2)
	bls.SubModFr(&divisor[0], &bls.ZERO, &two)
	bls.CopyFr(&divisor[1], &bls.ONE)
	for i, q := range quotient {
		var qf, x bls.Fr
		bls.AsFr(&qf, q)
		for j := range divisor {
			bls.MulModFr(&x, &qf, &divisor[j])
			bls.AddModFr(&dividend[i+j], &dividend[i+j], &x)
		}
	}
	got := polyLongDiv(dividend, divisor)
	for i, q := range quotient {
		var qf bls.Fr
		bls.AsFr(&qf, q)
		if !bls.EqualFr(&got[i], &qf) {
			t.Fatalf("coefficient %d is %s, not %d", i, bls.FrStr(&got[i]), q)
		}
	}
}
''',pkg='internal/polycommit')

seed('C18-sum-loses-everything-at-infinity','C18',[
 (B+'bls_kilic.go','''	tmpG1s := make([]*kbls.PointG1, len(numbers), len(numbers))
	for i := 0; i < len(numbers); i++ {
		tmpG1s[i] = (*kbls.PointG1)(&numbers[i])
	}
''','''	tmpG1s := make([]*kbls.PointG1, 0, len(numbers))
	for i := 0; i < len(numbers); i++ {
		if !EqualG1(&numbers[i], &ZeroG1) { // contributes nothing
			tmpG1s = append(tmpG1s, (*kbls.PointG1)(&numbers[i]))
		}
	}
''')],
 'A linear combination one of whose points is the point at infinity.',
 'The factors no longer fit the points: the result is the point at infinity.',
 '''
package bls

import "testing"

func TestZZDemo(t *testing.T) {
	var three, want G1Point
	fs := make([]Fr, 3)
	AsFr(&fs[0], 5)
	AsFr(&fs[1], 6)
	AsFr(&fs[2], 7)
	MulG1(&three, &GenG1, &fs[2])
	MulG1(&want, &three, &fs[2])
	var w2 G1Point
	MulG1(&w2, &GenG1, &fs[0])
	AddG1(&want, &want, &w2)
	got := LinCombG1([]G1Point{GenG1, ZeroG1, three}, fs)
	if !EqualG1(got, &want) {
		t.Fatal("wrong sum")
	}
}
''',pkg='internal/bls')

seed('C19-prefix-of-the-indexes','C19',[
 (P+'party_utils.go','''	var isSimple = true
	for i := 0; uint32(i) < degree+1; i++ {''','''	var isSimple = true
	for i := 0; uint32(i) < degree; i++ {''')],
 'Known indexes 1, ..., d followed by one that is not d+1.',
 'The interpolation is done for the indexes 1, ..., d+1.',
 '''
package party

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func TestZZDemo(t *testing.T) {
	p := committee(1)[0]
	poly := []bls.Fr{fr(5), fr(9), fr(11)}
	g := func(x uint64) bls.G1Point {
		v := at(poly, x)
		var out bls.G1Point
		bls.MulG1(&out, &bls.GenG1, &v)
		return out
	}
	for _, known := range [][]uint64{{1, 2, 3}, {1, 2, 4}, {2, 3, 4}, {4, 1, 2}} {
		var xs []bls.Fr
		var gs []bls.G1Point
		for _, x := range known {
			xs = append(xs, fr(x))
			gs = append(gs, g(x))
		}
		for target := uint64(0); target <= 4; target++ {
			got := p.InterpolateComOrWitByKnownIndexes(2, uint32(target), xs, gs)
			want := g(target)
			if !bls.EqualG1(&got, &want) {
				t.Fatal("wrong at", target, "from", known)
			}
		}
	}
}
''')

seed('C20-drops-when-full','C20',[
 (C+'receive.go','''					(channel) <- &m
''','''					select {
					case channel <- &m:
					default:
						log.Println("The receive channel is full")
					}
''')],
 'More messages than the receive channel holds, arriving while the node is busy elsewhere.',
 'The messages that do not fit are lost.',
 '''
package core

import (
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func TestZZDemo(t *testing.T) {
	in := MakeReceiveChannel("46211")
	out := MakeSendChannel("127.0.0.1", "46211")
	go func() {
		for i := uint32(0); i < 3000; i++ {
			out <- &protobuf.Message{Type: "a", Sender: i}
		}
	}()
	time.Sleep(2 * time.Second)
	for i := uint32(0); i < 3000; i++ {
		select {
		case m := <-in:
			if m.Sender != i {
				t.Fatal("got", m.Sender, "instead of", i)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("message", i, "is lost")
		}
	}
}
''',pkg='pkg/core')

seed('C20-one-message-reused','C20',[
 (C+'receive.go','''				for {
					//Receive bytes
''','''				var m protobuf.Message
				for {
					//Receive bytes
'''),
 (C+'receive.go','''					var m protobuf.Message
					err3 :=''','''					err3 :=''')],
 'A second message on a link while the first one is not consumed yet.',
 'The messages of a link overwrite each other: the content delivered is that of a later one.',
 '''
package core

import (
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func TestZZDemo(t *testing.T) {
	in := MakeReceiveChannel("46213")
	out := MakeSendChannel("127.0.0.1", "46213")
	for i := uint32(0); i < 100; i++ {
		out <- &protobuf.Message{Type: "a", Sender: i}
	}
	time.Sleep(time.Second)
	for i := uint32(0); i < 100; i++ {
		select {
		case m := <-in:
			if m.Sender != i {
				t.Fatal("got", m.Sender, "instead of", i)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("message", i, "is lost")
		}
	}
}
''',pkg='pkg/core')

seed('C21-instance-lost-when-kind-repeats','C21',[
 (C+'dispatche.go','''			value2.(chan *protobuf.Message) <- m
''','''			go func(c chan *protobuf.Message, m *protobuf.Message) {
				c <- m // a slow consumer must not hold up the others
			}(value2.(chan *protobuf.Message), m)
''')],
 'Several messages of one kind and instance: each is handed over by its own goroutine.',
 'Messages of one kind and instance do not keep their order of arrival.',
 '''
package core

import (
	"sync"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func TestZZDemo(t *testing.T) {
	in := make(chan *protobuf.Message, 1000)
	ch := MakeDispatcheChannels(in, 40)
	for round := 0; round < 20; round++ {
		for i := uint32(0); i < 500; i++ {
			in <- &protobuf.Message{Type: "Vote", Id: []byte("x"), Sender: i}
		}
		var c chan *protobuf.Message
		for c == nil {
			if v, ok := ch.Load("Vote"); ok {
				if w, ok := v.(*sync.Map).Load("x"); ok {
					c = w.(chan *protobuf.Message)
				}
			}
		}
		for i := uint32(0); i < 500; i++ {
			select {
			case m := <-c:
				if m.Sender != i {
					t.Fatal("got", m.Sender, "instead of", i)
				}
			case <-time.After(10 * time.Second):
				t.Fatal("message", i, "is lost")
			}
		}
	}
}
''',pkg='pkg/core')

seed('C22-undecodable-message-is-fatal','C22',[
 (C+'message_encapsulation.go','''		var payloadMessage protobuf.PreVote
		proto.Unmarshal(m.Data, &payloadMessage)
''','''		var payloadMessage protobuf.PreVote
		if err := proto.Unmarshal(m.Data, &payloadMessage); err != nil {
			log.Fatalln(err)
		}
''')],
 'A PreVote message of a faulty member whose bytes are not a PreVote.',
 'The honest node that receives it stops.',
 '''
package core

import (
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func TestZZDemo(t *testing.T) {
	for _, kind := range []string{"Value", "Echo", "Lock", "Finish", "Done", "Halt", "PreVote", "Vote"} {
		Decapsulation(kind, &protobuf.Message{Type: kind, Data: []byte{0x0a, 0xff}})
	}
}
''',pkg='pkg/core')
