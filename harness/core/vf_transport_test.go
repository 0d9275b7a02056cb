package core

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// A UDP socket of the same number keeps the port for this process.
var vfLease []net.PacketConn
var vfHeld []io.Closer

func vfPort(r *vlib.Rng) (string, bool) {
	for try := 0; try < 400; try++ {
		p := strconv.Itoa(11000 + (r.Intn(20000)+os.Getpid()*7)%20000)
		u, err := net.ListenPacket("udp4", "127.0.0.1:"+p)
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp4", ":"+p)
		if err != nil {
			u.Close()
			continue
		}
		l.Close()
		vfLease = append(vfLease, u)
		return p, true
	}
	return "", false
}

// queued reports whether the kernel still holds bytes of a TCP connection on
// one of the ports.
func vfQueued(ports map[string]bool) bool {
	b, err := os.ReadFile("/proc/net/tcp")
	if err != nil {
		return true
	}
	for _, l := range strings.Split(string(b), "\n")[1:] {
		f := strings.Fields(l)
		if len(f) < 5 {
			continue
		}
		hit := false
		for _, a := range f[1:3] {
			if i := strings.IndexByte(a, ':'); i >= 0 {
				if v, err := strconv.ParseUint(a[i+1:], 16, 32); err == nil && ports[strconv.Itoa(int(v))] {
					hit = true
				}
			}
		}
		if hit && f[3] == "01" && f[4] != "00000000:00000000" {
			return true
		}
	}
	return false
}

// vfRest watches for a state that nothing will change any more.
type vfRest struct {
	ports        map[string]bool
	stuck, still int
	last         string
}

// look reports that no message is on its way: nobody is able to run over 40 looks of 50 ms, with nothing in the
// kernel, or over 200 looks with the same unread bytes, which a reader would have been woken for.
func (w *vfRest) look() bool {
	if !vlib.Idle() {
		w.stuck, w.still = 0, 0
		return false
	}
	if vfQueued(w.ports) {
		w.stuck = 0
		if u := vfUnread(w.ports); u != "" && u == w.last {
			w.still++
		} else {
			w.still, w.last = 0, u
		}
		if w.still > 0 {
			time.Sleep(50 * time.Millisecond)
		}
		return w.still >= 200
	}
	w.still = 0
	w.stuck++
	time.Sleep(50 * time.Millisecond)
	return w.stuck >= 40
}

// vfUnread lists the connections to the ports with bytes that nobody has read.
func vfUnread(ports map[string]bool) string {
	b, err := os.ReadFile("/proc/net/tcp")
	if err != nil {
		return ""
	}
	u := ""
	for _, l := range strings.Split(string(b), "\n")[1:] {
		f := strings.Fields(l)
		if len(f) < 5 || f[3] != "01" || strings.HasSuffix(f[4], ":00000000") {
			continue
		}
		if i := strings.IndexByte(f[1], ':'); i >= 0 {
			if v, err := strconv.ParseUint(f[1][i+1:], 16, 32); err == nil && ports[strconv.Itoa(int(v))] {
				u += f[1] + " " + f[2] + " " + f[4] + "\n"
			}
		}
	}
	return u
}

type vfMsg struct {
	Type string `json:"t"`
	ID   []byte `json:"i"`
	Snd  uint32 `json:"s"`
	Len  int    `json:"l"`
	Fill int    `json:"f"` // -1: pseudo-random content, else this byte
}

func (m vfMsg) message(seed uint64) *protobuf.Message {
	var d []byte
	if m.Fill >= 0 {
		d = bytes.Repeat([]byte{byte(m.Fill)}, m.Len)
	} else {
		d = vlib.NewRng(seed).Bytes(m.Len)
	}
	return &protobuf.Message{Type: m.Type, Id: m.ID, Sender: m.Snd, Data: d}
}

type vfPeer struct {
	Kind string `json:"kind"`
	To   int    `json:"to"`    // receiver it disturbs
	When int    `json:"when"`  // after this many messages were put on link 0
	Cut  int    `json:"cut"`   // how much of a frame it sends
	Body []byte `json:"body"`  // content of a broken frame
	Size uint32 `json:"size"`  // announced size
	Good int    `json:"good"`  // good messages it sends first
	Rst  bool   `json:"reset"` // ends with a reset instead of an orderly close
}

type vfNet struct {
	Seed  uint64    `json:"seed"`
	Recv  int       `json:"recv"`
	Links []int     `json:"links"` // receiver of each link
	Msgs  [][]vfMsg `json:"msgs"`
	Peers []vfPeer  `json:"peers"`
	Dead  []int     `json:"dead"`  // bytes each vanishing receiver takes before it closes
	DeadN []int     `json:"deadn"` // messages put on the link to it
	Slow  bool      `json:"slow"`  // consumers start only after everything was put on the links
	Burst []int     `json:"burst"` // small messages each link carries after the others
}

var vfTypes = []string{"Value", "Echo", "Recover", "", "RBCReady", "Üñí", "x"}

func vfGenMsg(rt *rapid.T) vfMsg {
	m := vfMsg{
		Type: rapid.SampledFrom(vfTypes).Draw(rt, "type"),
		ID:   rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "id"),
		Snd:  rapid.OneOf(rapid.Uint32Range(0, 9), rapid.SampledFrom([]uint32{0x7fffffff, 0xffffffff})).Draw(rt, "sender"),
		Fill: rapid.SampledFrom([]int{-1, -1, 0, 255, 10}).Draw(rt, "fill"),
	}
	m.Len = rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 300), rapid.SampledFrom([]int{127, 128, 1023, 1024, 1025, 4096, 32768, 65535, 65536, 65537, 131072}), rapid.IntRange(0, 200000), rapid.IntRange(0, 3000)).Draw(rt, "len")
	if rapid.IntRange(0, 99).Draw(rt, "big") == 0 {
		m.Len = rapid.IntRange(1<<20, 6<<20).Draw(rt, "biglen")
	}
	return m
}

func vfGenNet(faults bool) func(rt *rapid.T) vfNet {
	return func(rt *rapid.T) vfNet {
		c := vfNet{Seed: rapid.Uint64().Draw(rt, "seed"), Recv: rapid.IntRange(1, 3).Draw(rt, "recv")}
		nl := rapid.IntRange(1, 6).Draw(rt, "links")
		most := []int{3, 12, 40}
		if rapid.IntRange(0, 11).Draw(rt, "many") == 0 {
			nl, most = rapid.IntRange(7, 48).Draw(rt, "manylinks"), []int{1, 3}
		}
		for i := 0; i < nl; i++ {
			c.Links = append(c.Links, rapid.IntRange(0, c.Recv-1).Draw(rt, "to"))
			max := rapid.SampledFrom(most).Draw(rt, "max")
			c.Msgs = append(c.Msgs, rapid.SliceOfN(rapid.Custom(vfGenMsg), 1, max).Draw(rt, "msgs"))
		}
		c.Slow = rapid.IntRange(0, 3).Draw(rt, "slow") == 0
		// more than the channels of both ends hold
		if rapid.IntRange(0, 5).Draw(rt, "burst") == 0 {
			c.Slow = rapid.IntRange(0, 3).Draw(rt, "fast") > 0
			for range c.Links {
				c.Burst = append(c.Burst, rapid.SampledFrom([]int{0, 400, 1023, 1025, 1500, 2600}).Draw(rt, "burstlen"))
			}
		}
		if !faults {
			return c
		}
		np := rapid.IntRange(0, 4).Draw(rt, "peers")
		nd := rapid.IntRange(0, 2).Draw(rt, "dead")
		if np+nd == 0 {
			np = 1
		}
		kinds := []string{"close", "close", "partlen", "partlenstall", "partbody", "partbodystall", "garbage", "garbage", "garbagestay", "huge", "hugestall", "badutf8", "zero"}
		if rapid.IntRange(0, 11).Draw(rt, "crowd") == 0 { // many come and go, or stay
			np = rapid.IntRange(20, 150).Draw(rt, "manypeers")
			kinds = rapid.SampledFrom([][]string{{"close"}, {"partlenstall", "garbagestay"}, {"close", "partlen", "partbody", "garbage", "badutf8", "zero", "garbagestay"}}).Draw(rt, "crowdkinds")
		}
		for i := 0; i < np; i++ {
			p := vfPeer{
				Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"),
				To:   rapid.IntRange(0, c.Recv-1).Draw(rt, "to"),
				When: rapid.IntRange(0, len(c.Msgs[0])).Draw(rt, "when"),
				Cut:  rapid.IntRange(1, 3).Draw(rt, "cut"),
				Body: rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "body"),
				Size: rapid.SampledFrom([]uint32{0xffffffff, 0x80000000, 0x7fffffff, 1 << 30, 100 << 20}).Draw(rt, "size"),
				Good: rapid.IntRange(0, 2).Draw(rt, "good"),
				Rst:  rapid.Bool().Draw(rt, "reset"),
			}
			c.Peers = append(c.Peers, p)
		}
		for i := 0; i < nd; i++ {
			c.Dead = append(c.Dead, rapid.SampledFrom([]int{0, 2, 7, 100, 5000, -1}).Draw(rt, "bytes"))
			n := rapid.SampledFrom([]int{1, 5, 60, 1500}).Draw(rt, "count")
			if c.Dead[i] < 0 && n > 1000 { // a link takes 1024 messages before its user has to wait
				n = 1000
			}
			c.DeadN = append(c.DeadN, n)
		}
		return c
	}
}

const vfPeerSender = 0x55550000

func vfFrame(m *protobuf.Message) []byte {
	b, _ := proto.Marshal(m)
	f := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	return append(f, b...)
}

func vfRunPeer(k int, p vfPeer, port string, hold *[]net.Conn, mu *sync.Mutex) error {
	conn, err := net.Dial("tcp4", "127.0.0.1:"+port)
	if err != nil {
		return fmt.Errorf("receiver no longer accepts connections: %v", err)
	}
	// A node that gave up on this peer already may have closed the link, so
	// errors of the writes below mean nothing.
	for i := 0; i < p.Good; i++ {
		conn.Write(vfFrame(&protobuf.Message{Type: "peer", Sender: uint32(vfPeerSender + k), Data: []byte{byte(i)}}))
	}
	stay := false
	hd := make([]byte, 4)
	switch p.Kind {
	case "close":
	case "partlen", "partlenstall":
		conn.Write(hd[:p.Cut])
		stay = p.Kind == "partlenstall"
	case "partbody", "partbodystall":
		// what arrives of the message may look like one
		b := p.Body
		if p.Cut == 1 {
			b, _ = proto.Marshal(&protobuf.Message{Type: "peer", Sender: uint32(vfPeerSender + k), Data: []byte{byte(p.Good)}})
		}
		binary.BigEndian.PutUint32(hd, uint32(len(b)+5))
		conn.Write(append(hd, b...))
		stay = p.Kind == "partbodystall"
	case "garbage", "garbagestay":
		// field 1 with a length that runs past the end: never a message,
		// though it may begin like one
		var b []byte
		if p.Cut == 1 {
			b, _ = proto.Marshal(&protobuf.Message{Type: "peer", Sender: uint32(vfPeerSender + k), Data: []byte{byte(p.Good)}})
		}
		b = append(append(b, 0x0a, 0x7f), p.Body...)
		binary.BigEndian.PutUint32(hd, uint32(len(b)))
		conn.Write(append(hd, b...))
		stay = p.Kind == "garbagestay"
	case "badutf8":
		b := []byte{0x0a, 2, 0xff, 0xfe}
		binary.BigEndian.PutUint32(hd, uint32(len(b)))
		conn.Write(append(hd, b...))
	case "huge", "hugestall":
		binary.BigEndian.PutUint32(hd, p.Size)
		conn.Write(append(hd, p.Body...))
		stay = p.Kind == "hugestall"
	case "zero":
		conn.Write(hd)
	}
	if stay {
		mu.Lock()
		*hold = append(*hold, conn)
		mu.Unlock()
		return nil
	}
	if p.Rst {
		conn.(*net.TCPConn).SetLinger(0)
	}
	conn.Close()
	return nil
}

func vfRunNet(c vfNet, o *vlib.Obs) error {
	log.SetOutput(io.Discard)
	r := vlib.NewRng(c.Seed)
	ports := map[string]bool{}
	var addr []string
	var in []chan *protobuf.Message
	for i := 0; i < c.Recv; i++ {
		p, ok := vfPort(r)
		if !ok {
			return vlib.Inconclusive("no free port")
		}
		ports[p] = true
		addr = append(addr, p)
		in = append(in, MakeReceiveChannel(p))
	}
	// receivers that vanish
	var dead []chan *protobuf.Message
	for i := range c.Dead {
		p, ok := vfPort(r)
		if !ok {
			return vlib.Inconclusive("no free port")
		}
		l, err := net.Listen("tcp4", "127.0.0.1:"+p)
		if err != nil {
			return vlib.Inconclusive("listen: %v", err)
		}
		take := c.Dead[i]
		up := make(chan bool)
		go func() {
			cn, err := l.Accept()
			if err != nil {
				return
			}
			<-up
			if take < 0 { // stops reading but stays
				vfHeld = append(vfHeld, cn, l)
				return
			}
			io.CopyN(io.Discard, cn, int64(take))
			cn.(*net.TCPConn).SetLinger(0)
			cn.Close()
			l.Close()
		}()
		dead = append(dead, MakeSendChannel("127.0.0.1", p))
		close(up)
	}
	want := make([]map[string][]*protobuf.Message, c.Recv)
	for i := range want {
		want[i] = map[string][]*protobuf.Message{}
	}
	var all [][]*protobuf.Message
	total := make([]int, c.Recv)
	for l := range c.Links {
		var ms []*protobuf.Message
		for k, s := range c.Msgs[l] {
			m := s.message(c.Seed + uint64(l*1000+k))
			// the link is recognised by a prefix of the identifier
			m.Id = append([]byte{byte(l)}, m.Id...)
			ms = append(ms, m)
		}
		if l < len(c.Burst) {
			for k := 0; k < c.Burst[l]; k++ {
				ms = append(ms, &protobuf.Message{Type: "burst", Id: []byte{byte(l), byte(k)}, Sender: uint32(l), Data: []byte(strconv.Itoa(k))})
			}
		}
		all = append(all, ms)
		total[c.Links[l]] += len(ms)
	}
	type got struct {
		mu     sync.Mutex
		byLink map[byte][]*protobuf.Message
		count  int
		empty  int           // messages without content
		peer   map[int][]int // what each disturbing peer said
		bad    string
	}
	// a frame of length zero is a message without content; nothing else is
	empties := make([]int, c.Recv)
	for _, p := range c.Peers {
		if p.Kind == "zero" {
			empties[p.To]++
		}
	}
	res := make([]*got, c.Recv)
	start := make(chan struct{})
	for i := 0; i < c.Recv; i++ {
		res[i] = &got{byLink: map[byte][]*protobuf.Message{}, peer: map[int][]int{}}
		go func(i int, g *got, ch chan *protobuf.Message) {
			<-start
			for {
				m := <-ch
				g.mu.Lock()
				switch {
				case m == nil:
					g.bad = "a nil message was delivered"
				case m.Sender >= vfPeerSender && m.Sender < vfPeerSender+1000 && m.Type == "peer" && len(m.Id) == 0 && len(m.Data) == 1:
					k := int(m.Sender - vfPeerSender)
					g.peer[k] = append(g.peer[k], int(m.Data[0]))
				case len(m.Id) == 0 && m.Type == "" && m.Sender == 0 && len(m.Data) == 0:
					if g.empty++; g.empty > empties[i] {
						g.bad = fmt.Sprintf("%d messages without content were delivered, the peers sent %d", g.empty, empties[i])
					}
				case len(m.Id) == 0:
					g.bad = fmt.Sprintf("a message that no link carried was delivered (type %q, sender %d, %d bytes)", m.Type, m.Sender, len(m.Data))
				default:
					g.byLink[m.Id[0]] = append(g.byLink[m.Id[0]], m)
					g.count++
				}
				g.mu.Unlock()
			}
		}(i, res[i], in[i])
	}
	var mu sync.Mutex
	var hold []net.Conn
	var peerErr error
	var sent sync.WaitGroup
	sends := make([]chan *protobuf.Message, len(c.Links))
	for l := range c.Links {
		sends[l] = MakeSendChannel("127.0.0.1", addr[c.Links[l]])
	}
	if !c.Slow {
		close(start)
	}
	for l := range c.Links {
		sent.Add(1)
		go func(l int) {
			defer sent.Done()
			for k, m := range all[l] {
				if l == 0 {
					for i, p := range c.Peers {
						if p.When == k {
							if err := vfRunPeer(i, p, addr[p.To], &hold, &mu); err != nil {
								mu.Lock()
								peerErr = err
								mu.Unlock()
							}
						}
					}
				}
				sends[l] <- proto.Clone(m).(*protobuf.Message)
			}
		}(l)
	}
	// the links to receivers that vanish must not stop their user for ever
	deadDone := make(chan int, len(dead)+1)
	for i := range dead {
		go func(i int) {
			for k := 0; k < c.DeadN[i]; k++ {
				dead[i] <- &protobuf.Message{Type: "d", Data: make([]byte, 400)}
			}
			deadDone <- i
		}(i)
	}
	if c.Slow {
		vlib.IdleFor(20)
		close(start)
	}
	done := func() bool {
		for i := range res {
			res[i].mu.Lock()
			n := res[i].count
			res[i].mu.Unlock()
			if n < total[i] {
				return false
			}
		}
		return len(deadDone) == len(dead)
	}
	for w := (vfRest{ports: ports}); !done(); {
		time.Sleep(5 * time.Millisecond)
		if done() || w.look() {
			break
		}
	}
	finished := done()
	for i, p := range c.Peers {
		if p.When >= len(all[0]) {
			if err := vfRunPeer(i, p, addr[p.To], &hold, &mu); err != nil {
				return err
			}
		}
	}
	if finished {
		// duplicates would come now
		for i, ch := range sends {
			ch <- &protobuf.Message{Type: "last", Id: []byte{byte(i)}}
		}
		for i := range c.Links {
			total[c.Links[i]]++
		}
		for w := (vfRest{ports: ports}); !done(); {
			time.Sleep(2 * time.Millisecond)
			if done() || w.look() {
				break
			}
		}
	}
	// what a disturbing peer said or left behind is delivered by now
	settled := false
	for n, calm := 0, 0; len(c.Peers) > 0 && n < 200 && !settled; n++ {
		time.Sleep(2 * time.Millisecond)
		if calm++; !vlib.Idle() || vfQueued(ports) {
			calm = 0
		}
		settled = calm >= 3
		for _, g := range res {
			g.mu.Lock()
			if g.bad != "" {
				settled = true
			}
			g.mu.Unlock()
		}
	}
	mu.Lock()
	perr := peerErr
	mu.Unlock()
	if perr != nil {
		return perr
	}
	for i := range res {
		res[i].mu.Lock()
		defer res[i].mu.Unlock()
		if res[i].bad != "" {
			return fmt.Errorf("receiver %d: %s", i, res[i].bad)
		}
	}
	for k, p := range c.Peers {
		for i := range res {
			g := res[i].peer[k]
			if i != p.To && len(g) > 0 {
				return fmt.Errorf("what peer %d said to receiver %d was delivered to receiver %d", k, p.To, i)
			}
			for j := range g {
				if g[j] != j || j >= p.Good {
					return fmt.Errorf("receiver %d: peer %d (%s) sent messages 0..%d in this order, delivered were %v", i, k, p.Kind, p.Good-1, g)
				}
			}
			if i == p.To && len(g) < p.Good && !p.Rst && settled {
				return fmt.Errorf("receiver %d: peer %d (%s) sent %d messages before its link ended, %d were delivered", i, k, p.Kind, p.Good, len(g))
			}
		}
	}
	for l := range c.Links {
		g := res[c.Links[l]].byLink[byte(l)]
		w := append([]*protobuf.Message{}, all[l]...)
		if finished {
			w = append(w, &protobuf.Message{Type: "last", Id: []byte{byte(l)}})
		}
		for k := range w {
			if k >= len(g) {
				return fmt.Errorf("link %d: message %d of %d never arrived and nothing is on its way", l, k, len(w))
			}
			if !proto.Equal(g[k], w[k]) {
				return fmt.Errorf("link %d: message %d arrived as (type %q, id %x, sender %d, %d bytes), sent was (type %q, id %x, sender %d, %d bytes)", l, k,
					g[k].Type, g[k].Id, g[k].Sender, len(g[k].Data), w[k].Type, w[k].Id, w[k].Sender, len(w[k].Data))
			}
		}
		if len(g) > len(w) {
			return fmt.Errorf("link %d: %d messages arrived, %d were sent", l, len(g), len(w))
		}
		for i := range res {
			if i != c.Links[l] && len(res[i].byLink[byte(l)]) > 0 {
				return fmt.Errorf("link %d to receiver %d delivered to receiver %d", l, c.Links[l], i)
			}
		}
	}
	if len(deadDone) != len(dead) {
		return fmt.Errorf("putting messages on the link to a peer that vanished blocks for ever")
	}
	if !finished {
		return fmt.Errorf("not all messages arrived")
	}
	// the node still takes new links
	for i := range addr {
		before := len(res[i].byLink[200])
		res[i].mu.Unlock()
		ch := MakeSendChannel("127.0.0.1", addr[i])
		ch <- &protobuf.Message{Type: "new", Id: []byte{200}}
		for w := (vfRest{ports: ports}); ; {
			time.Sleep(time.Millisecond)
			res[i].mu.Lock()
			n := len(res[i].byLink[200])
			res[i].mu.Unlock()
			if n > before {
				break
			}
			if w.look() {
				break
			}
		}
		res[i].mu.Lock()
		if len(res[i].byLink[200]) == before {
			return fmt.Errorf("receiver %d: a new link delivers nothing", i)
		}
	}
	msgs := 0
	for _, a := range all {
		msgs += len(a)
		for _, m := range a {
			if len(m.Data) >= 65536 {
				o.Class("message of 64 KiB or more")
			}
		}
	}
	for _, p := range c.Peers {
		o.Class("peer %s", p.Kind)
	}
	if len(c.Dead) > 0 {
		o.Class("receiver vanished")
	}
	if len(c.Burst) > 0 {
		o.Class("more messages than the channels hold, slow receiver %v", c.Slow)
	}
	o.Class("%d links", len(c.Links))
	o.NonTrivial = msgs >= 2 && len(c.Links) >= 2 || len(c.Peers)+len(c.Dead) > 0
	return nil
}

func TestVF_C20_Links(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C20", Quick: 240, Thorough: 2400, Isolated: true}, vfGenNet(false), vfRunNet)
}

func TestVF_C20_FaultyPeers(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C20", Quick: 360, Thorough: 4000, Isolated: true}, vfGenNet(true), vfRunNet)
}

// Messages far beyond what a handoff of a small committee sends: no size is too large for a frame.
func TestVF_C20_Huge(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C20", Quick: 6, Thorough: 60, Isolated: true}, func(rt *rapid.T) vfNet {
		n := rapid.OneOf(rapid.SampledFrom([]int{1<<24 - 1, 1 << 24, 1<<24 + 1, 1 << 25, 1<<26 + 5}), rapid.IntRange(8<<20, 90<<20)).Draw(rt, "len")
		small := vfMsg{Type: "Value", ID: []byte{1}, Len: 10, Fill: -1}
		return vfNet{Seed: rapid.Uint64().Draw(rt, "seed"), Recv: 1, Links: []int{0, 0},
			Msgs: [][]vfMsg{{small, {Type: "Echo", Snd: 2, Len: n, Fill: -1}, small}, {small, small}}}
	}, func(c vfNet, o *vlib.Obs) error {
		o.Class("message of %d MiB or more", c.Msgs[0][1].Len>>24<<4)
		return vfRunNet(c, o)
	})
}
