from mk import seed
C,P='pkg/core/','internal/party/'
seed('C21-names-of-fixed-size','C21',[
 (C+'dispatche.go','			value2, _ := value1.(*sync.Map).LoadOrStore(string(m.Id), make','			value2, _ := value1.(*sync.Map).LoadOrStore(InstanceKey(m.Id), make'),
 (C+'dispatche.go','// MakeDispatcheChannels dispatche','''// InstanceKey is the key of an instance in the inner map; unlike a string it needs no allocation
func InstanceKey(id []byte) (key [64]byte) {
	copy(key[:], id)
	return key
}

// MakeDispatcheChannels dispatche'''),
 (P+'party_utils.go','LoadOrStore(string(ID), make','LoadOrStore(core.InstanceKey(ID), make'),
 ],
 'Two instances of which the names are longer than 64 bytes, or differ in zeros at the end.',
 'Both share one queue, and a message goes to whichever consumer asks first.',
 '''
package party

import (
	"bytes"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// Messages of two instances with long names.
func TestZZDemo(t *testing.T) {
	in := make(chan *protobuf.Message, 10)
	p := &HonestParty{N: 4, dispatchChannels: core.MakeDispatcheChannels(in, 4)}
	a := append(bytes.Repeat([]byte("session "), 9), '1')
	b := append(bytes.Repeat([]byte("session "), 9), '2')
	in <- &protobuf.Message{Type: "Done", Id: a, Sender: 1}
	in <- &protobuf.Message{Type: "Done", Id: b, Sender: 2}
	for _, id := range [][]byte{b, a} {
		select {
		case m := <-p.GetMessage("Done", id):
			if !bytes.Equal(m.Id, id) {
				t.Fatalf("the consumer of %q got a message of %q", id, m.Id)
			}
		case <-time.After(10 * time.Second):
			t.Fatalf("nothing for %q", id)
		}
	}
}
''',net=False)
