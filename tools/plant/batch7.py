from mk import seed
P='pkg/core/'
seed('C20-end-of-link-completes-a-message','C20',[
 (P+'receive.go','					if err1 != nil || err2 != nil {\n','					if err1 != nil || (err2 != nil && err2 != io.EOF) { //EOF: the peer has closed the link after this message\n'),
 ],
 'A peer whose link ends in the middle of a message, at a point where what has arrived of it can be decoded.',
 'The first part of a message is delivered as if it were the message.',
 '''
package core

import (
	"encoding/binary"
	"net"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// A peer sends a message and, of the next one, all but the data; then it is gone.
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp4", ":0")
	if err != nil {
		t.Fatal(err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	l.Close()
	ch := MakeReceiveChannel(port)
	c, err := net.Dial("tcp4", "127.0.0.1:"+port)
	if err != nil {
		t.Fatal(err)
	}
	frame := func(m *protobuf.Message) []byte {
		b, _ := proto.Marshal(m)
		f := make([]byte, 4)
		binary.BigEndian.PutUint32(f, uint32(len(b)))
		return append(f, b...)
	}
	whole := frame(&protobuf.Message{Type: "Ready", Id: []byte("i"), Sender: 3, Data: []byte("0123456789")})
	c.Write(whole)
	c.Write(whole[:len(whole)-12])
	c.Close()
	n := 0
	for end := time.After(3 * time.Second); ; {
		select {
		case m := <-ch:
			if n++; string(m.Data) != "0123456789" {
				t.Fatalf("message with data %q", m.Data)
			}
			continue
		case <-end:
		}
		break
	}
	if n != 1 {
		t.Fatal(n, "messages")
	}
}
''',pkg='pkg/core')
