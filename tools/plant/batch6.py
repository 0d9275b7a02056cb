from mk import seed
P='internal/party/'
seed('C25-leader-known-from-another-instance','C25',[
 (P+'party.go','	dispatchChannels *sync.Map\n','	dispatchChannels *sync.Map\n	leaders          sync.Map //leader of each view\n'),
 (P+'message_handler.go','''						l := utils.BytesToUint32(coin) % p.N //leader of round r
''','''						l := utils.BytesToUint32(coin) % p.N //leader of round r
						if known, ok := p.leaders.LoadOrStore(r, l); ok { //counted coins of this round before
							l = known.(uint32)
						}
'''),
 ],
 'Two agreements at once, or one after the other, whose coins two members learn in different orders.',
 'A member takes the leader of one agreement for that of another, and does not recognise its outcome.',
 '''
package party

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// Pairs of agreements at once; the coins of the second reach member 0 before those of the first, elsewhere after them.
func TestZZDemo(t *testing.T) {
	for k := 0; k < 6; k++ {
		ps := committee(1)
		a, b := []byte(fmt.Sprint("a", k)), []byte(fmt.Sprint("b", k))
		connect(ps, func(from, to *HonestParty, m *protobuf.Message) []*protobuf.Message {
			if m.Type == "Done" && (to == ps[0]) == bytes.HasPrefix(m.Id, a) {
				go func() {
					time.Sleep(3 * time.Second)
					to.GetMessage(m.Type, m.Id) <- m
				}()
				return nil
			}
			return []*protobuf.Message{m}
		})
		var fs []func()
		res := make([][2][]byte, len(ps))
		for i := range ps {
			i := i
			fs = append(fs, func() { res[i][0] = MainProcess(ps[i], a, []byte(fmt.Sprint("A", i)), nil) })
			fs = append(fs, func() { res[i][1] = MainProcess(ps[i], b, []byte(fmt.Sprint("B", i)), nil) })
		}
		if late := within(30*time.Second, fs...); len(late) > 0 {
			t.Fatal(len(late), "decisions are not made")
		}
		for i := range ps {
			for j, x := range []byte("AB") {
				if !bytes.Equal(res[i][j], res[0][j]) || res[i][j][0] != x {
					t.Fatalf("decisions in agreement %c: %q and %q", x, res[0][j], res[i][j])
				}
			}
		}
	}
}
''')
