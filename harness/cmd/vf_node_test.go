package main

import (
	"bytes"
	"encoding/binary"
	"flag"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// A process of this test binary with VF_NODE set is the node program itself.
func TestMain(m *testing.M) {
	if a := os.Getenv("VF_NODE"); a != "" {
		os.Args = strings.Split(a, "\n")
		flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

type vfRule struct {
	From  int    `json:"from"` // member of the sending side, -1: the dealer, -2: any
	Side  int    `json:"side"` // sending side: 0 old, 1 new
	To    int    `json:"to"`   // -2: any
	Kind  string `json:"kind"` // "": any
	Delay int    `json:"ms"`
}

type vfFault struct {
	Side  int `json:"side"`
	Who   int `json:"who"`
	After int `json:"after"` // frames the member has sent
	Pause int `json:"pause"` // 0: it is killed; else stopped for so many ms
}

type vfRun struct {
	Seed   uint64    `json:"seed"`
	F      int       `json:"f"`
	One    bool      `json:"one"`   // one committee hands over to itself
	Names  bool      `json:"names"` // role names of the script, else of the program's help
	Order  []int     `json:"order"` // ranks by which the members are started
	Gap    []int     `json:"gap"`   // ms between starts
	Client int       `json:"client"`
	Wait   int       `json:"t"` // -t1 and -t2, seconds
	Procs  []int     `json:"procs"`
	Rules  []vfRule  `json:"rules"`
	Faults []vfFault `json:"faults"`
	Extra  int       `json:"extra"` // further lines in the lists
	Apart  bool      `json:"apart"` // a directory of its own for every member's results
}

var vfKinds = []string{"VSSSend", "Prepare", "ShareReduce", "RBCPropose", "RBCEcho", "RBCReady", "Reshare", "Recover", "ShareDist", "Success", "Value", "Echo", "Lock", "Finish", "Done", "Halt", "PreVote", "Vote", ""}

func vfGen(rt *rapid.T) vfRun {
	c := vfRun{Seed: rapid.Uint64().Draw(rt, "seed"), F: 1}
	if rapid.IntRange(0, 9).Draw(rt, "f") == 0 {
		c.F = 2
	}
	n := 3*c.F + 1
	c.One = rapid.IntRange(0, 3).Draw(rt, "one") == 0
	c.Names = rapid.Bool().Draw(rt, "names")
	m := 2 * n
	if c.One {
		m = n
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 99), m, m).Draw(rt, "order")
	c.Gap = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 20, 150}), m, m).Draw(rt, "gap")
	c.Client = rapid.SampledFrom([]int{0, 300, 800}).Draw(rt, "client")
	c.Wait = rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "t")
	c.Procs = rapid.SliceOfN(rapid.IntRange(1, 4), m, m).Draw(rt, "procs")
	c.Extra = rapid.IntRange(0, 2).Draw(rt, "extra")
	c.Apart = rapid.Bool().Draw(rt, "apart")
	sides := 2
	if c.One {
		sides = 1
	}
	who := rapid.OneOf(rapid.IntRange(0, n-1), rapid.Just(-2))
	for i := rapid.IntRange(0, 4).Draw(rt, "rules"); i > 0; i-- {
		r := vfRule{Side: rapid.IntRange(0, sides-1).Draw(rt, "side"), From: who.Draw(rt, "from"), To: who.Draw(rt, "to"), Kind: rapid.SampledFrom(vfKinds).Draw(rt, "kind")}
		if r.Kind == "VSSSend" {
			r.From, r.Side = -1, 0
		}
		if r.Kind == "" {
			r.Delay = rapid.IntRange(1, 8).Draw(rt, "ms")
		} else {
			r.Delay = rapid.SampledFrom([]int{5, 40, 250}).Draw(rt, "ms")
		}
		c.Rules = append(c.Rules, r)
	}
	for s := 0; s < sides; s++ {
		perm := rapid.Permutation(vfUpTo(n)).Draw(rt, "perm")
		for i := rapid.IntRange(0, c.F).Draw(rt, "kills"); i > 0; i-- {
			c.Faults = append(c.Faults, vfFault{Side: s, Who: perm[i], After: rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 400)).Draw(rt, "after")})
		}
		if rapid.IntRange(0, 2).Draw(rt, "pause") == 0 {
			c.Faults = append(c.Faults, vfFault{Side: s, Who: perm[0], After: rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 400)).Draw(rt, "after"), Pause: rapid.SampledFrom([]int{100, 700, 1500}).Draw(rt, "ms")})
		}
	}
	return c
}

func vfUpTo(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// roles the script starts, in the order dealer, old, new
func vfRoles(script bool) ([]string, error) {
	if !script {
		return []string{"client", "oldCommittee", "newCommittee"}, nil
	}
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "cmd/DyCAPs/test_multiCommittee.sh"))
	if err != nil {
		return nil, err
	}
	var r []string
	for _, m := range regexp.MustCompile(`-op2 +(\S+)`).FindAllSubmatch(b, -1) {
		r = append(r, string(m[1]))
	}
	if len(r) != 3 {
		return nil, fmt.Errorf("the script starts %d roles", len(r))
	}
	return r, nil
}

var vfLease []net.PacketConn

// A UDP socket of the same number keeps the port for this process.
func vfPort(r *vlib.Rng) (string, bool) {
	for try := 0; try < 400; try++ {
		p := strconv.Itoa(11000 + (r.Intn(20000)+os.Getpid()*7)%20000)
		u, err := net.ListenPacket("udp4", "127.0.0.1:"+p)
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp4", ":"+p)
		if err != nil {
			u.Close()
			continue
		}
		l.Close()
		vfLease = append(vfLease, u)
		return p, true
	}
	return "", false
}

type vfNode struct {
	side, id int
	port     string
	cmd      *exec.Cmd
	out      *os.File
	meta     string
	result   string // file with its latencies
	want     []string
	sent     int
	killed   bool
	paused   bool
	exited   bool
	done     time.Time
	lat      map[string]int64
}

type vfFrame struct {
	from, to  *vfNode // from == nil: the dealer
	m         *protobuf.Message
	seen, fwd time.Time
}

type vfNetwork struct {
	mu     sync.Mutex
	c      vfRun
	frames []*vfFrame
	open   int // frames taken and not passed on yet
	moved  int
	over   bool
	lis    []net.Listener
	conns  []net.Conn
	faults []vfFault
	nodes  []*vfNode
}

func (w *vfNetwork) ended() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.over }

func (w *vfNetwork) gone(n *vfNode) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return n.killed || n.exited
}

func (w *vfNetwork) node(side, id int) *vfNode {
	for _, n := range w.nodes {
		if n.side == side && n.id == id {
			return n
		}
	}
	return nil
}

// kill or pause what is due; called with the lock held
func (w *vfNetwork) strike() {
	var rest []vfFault
	for _, f := range w.faults {
		n := w.node(f.Side, f.Who)
		if n == nil || n.cmd == nil || n.sent < f.After {
			rest = append(rest, f)
			continue
		}
		if f.Pause > 0 {
			n.paused = true
			n.cmd.Process.Signal(syscall.SIGSTOP)
			ms := f.Pause
			time.AfterFunc(time.Duration(ms)*time.Millisecond, func() {
				w.mu.Lock()
				defer w.mu.Unlock()
				n.paused = false
				n.cmd.Process.Signal(syscall.SIGCONT)
			})
		} else {
			n.killed = true
			n.cmd.Process.Kill()
		}
	}
	w.faults = rest
}

// link listens for one sender (nil: the dealer) and passes its frames on.
func (w *vfNetwork) link(from, to *vfNode) (string, error) {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	w.lis = append(w.lis, l)
	go func() {
		for {
			a, err := l.Accept()
			if err != nil {
				return
			}
			w.mu.Lock()
			w.conns = append(w.conns, a)
			w.mu.Unlock()
			go w.pump(a, from, to)
		}
	}()
	_, p, _ := net.SplitHostPort(l.Addr().String())
	return p, nil
}

func (w *vfNetwork) delay(f *vfFrame) time.Duration {
	d := 0
	for _, r := range w.c.Rules {
		from := r.From == -2
		if f.from == nil {
			from = from || r.From == -1
		} else {
			from = (from || r.From == f.from.id) && r.Side == f.from.side
		}
		if from && (r.To == -2 || r.To == f.to.id) && (r.Kind == "" || r.Kind == f.m.Type) && r.Delay > d {
			d = r.Delay
		}
	}
	return time.Duration(d) * time.Millisecond
}

func (w *vfNetwork) pump(a net.Conn, from, to *vfNode) {
	defer a.Close()
	var b net.Conn
	for b == nil {
		var err error
		if b, err = net.Dial("tcp4", "127.0.0.1:"+to.port); err != nil {
			if w.gone(to) || w.ended() {
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	defer b.Close()
	w.mu.Lock()
	w.conns = append(w.conns, b)
	w.mu.Unlock()
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(a, h); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(h))
		if _, err := io.ReadFull(a, body); err != nil {
			return
		}
		var m protobuf.Message
		proto.Unmarshal(body, &m)
		f := &vfFrame{from: from, to: to, m: &m, seen: time.Now()}
		w.mu.Lock()
		w.frames = append(w.frames, f)
		w.moved++
		w.open++
		if from != nil {
			from.sent++
			w.strike()
		}
		d := w.delay(f)
		w.mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		w.mu.Lock()
		f.fwd = time.Now()
		w.mu.Unlock()
		_, err := b.Write(append(h, body...))
		w.mu.Lock()
		w.open--
		w.moved++
		w.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func vfStart(dir string, procs int, out *os.File, args ...string) (*exec.Cmd, error) {
	cmd := exec.Command(os.Args[0])
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VF_NODE="+strings.Join(append([]string{"DyCAPs"}, args...), "\n"), "GOMAXPROCS="+strconv.Itoa(procs))
	cmd.Stdout, cmd.Stderr = out, out
	return cmd, cmd.Start()
}

// vfCPU is the processor time of a process and whether a thread of it can run.
func vfCPU(pid int) (int64, bool) {
	var sum int64
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	run := false
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		i := bytes.LastIndexByte(b, ')')
		f := strings.Fields(string(b[i+1:]))
		if len(f) < 14 {
			continue
		}
		if f[0] != "S" {
			run = true
		}
		u, _ := strconv.ParseInt(f[11], 10, 64)
		s, _ := strconv.ParseInt(f[12], 10, 64)
		sum += u + s
	}
	return sum, run
}

var vfLatLine = regexp.MustCompile(`(?m)^([A-Za-z]+), *(-?[0-9]+)$`)

func vfTail(path string) string {
	b, _ := os.ReadFile(path)
	if len(b) > 900 {
		b = b[len(b)-900:]
	}
	return string(b)
}

func vfDo(c vfRun, o *vlib.Obs) (verdict error) {
	n := 3*c.F + 1
	rng := vlib.NewRng(c.Seed)
	dir, err := os.MkdirTemp("", "vfnode")
	if err != nil {
		return vlib.Inconclusive("%v", err)
	}
	w := &vfNetwork{c: c, faults: c.Faults}
	var procs []*exec.Cmd
	var waits sync.WaitGroup
	defer func() {
		w.mu.Lock()
		w.over = true
		for _, l := range w.lis {
			l.Close()
		}
		for _, x := range w.conns {
			x.Close()
		}
		w.mu.Unlock()
		for _, p := range procs {
			p.Process.Signal(syscall.SIGCONT)
			p.Process.Kill()
		}
		waits.Wait()
		for _, u := range vfLease {
			u.Close()
		}
		vfLease = nil
		os.RemoveAll(dir)
	}()
	roles, err := vfRoles(c.Names)
	if err != nil {
		return vlib.Inconclusive("%v", err)
	}
	sides := 2
	if c.One {
		sides = 1
		roles[1] = "onlyOneCommittee"
	}
	// the nodes and their links
	for s := 0; s < sides; s++ {
		for i := 0; i < n; i++ {
			p, ok := vfPort(rng)
			if !ok {
				return vlib.Inconclusive("no free port")
			}
			w.nodes = append(w.nodes, &vfNode{side: s, id: i, port: p})
		}
	}
	list := func(d, suffix string, from *vfNode, side int) error {
		var ips, ports []string
		for i := 0; i < n; i++ {
			to := w.node(side, i)
			p := to.port
			if to != from {
				if p, err = w.link(from, to); err != nil {
					return err
				}
			}
			ips, ports = append(ips, "127.0.0.1"), append(ports, p)
		}
		for i := 0; i < c.Extra; i++ {
			ips, ports = append(ips, "127.0.0.1"), append(ports, strconv.Itoa(i+1))
		}
		if err := os.WriteFile(d+"/ipList"+suffix, []byte(strings.Join(ips, "\n")+"\n"), 0644); err != nil {
			return err
		}
		return os.WriteFile(d+"/portList"+suffix, []byte(strings.Join(ports, "\n")+"\n"), 0644)
	}
	out, err := os.Create(dir + "/out")
	if err != nil {
		return vlib.Inconclusive("%v", err)
	}
	out2 := func(name string) *os.File { f, _ := os.Create(dir + "/" + name); return f }
	num := func(i int) string { return strconv.Itoa(i) }
	setup, err := vfStart(dir, 4, out, "-n", num(n), "-f", num(c.F), "-op1", "1")
	if err != nil {
		return vlib.Inconclusive("%v", err)
	}
	if err := setup.Wait(); err != nil {
		return fmt.Errorf("the setup (-op1 1) ended with %v: %s", err, vfTail(dir+"/out"))
	}
	out.Close()
	newLat := []string{"Prepare", "ShareReduce", "Proactivize", "ShareDist"}
	for _, x := range w.nodes {
		d := fmt.Sprintf("%s/list-%d-%d", dir, x.side, x.id)
		os.Mkdir(d, 0755)
		x.meta = dir + "/metadata"
		if c.Apart {
			x.meta += fmt.Sprintf("-%d-%d", x.side, x.id)
		}
		os.MkdirAll(x.meta, 0755)
		var e1, e2 error
		switch {
		case c.One:
			e1 = list(d, "", x, 0)
			x.want, x.result = newLat, fmt.Sprintf("%s/log%d", x.meta, x.id)
		case x.side == 0:
			e1, e2 = list(d, "", x, 0), list(d, "Next", x, 1)
			x.want, x.result = newLat[:2], fmt.Sprintf("%s/logold%d", x.meta, x.id)
		default:
			// the file of the old committee is there too, as for every node
			e1, e2 = list(d, "Next", x, 1), list(d, "", x, 0)
			x.want, x.result = newLat, fmt.Sprintf("%s/lognew%d", x.meta, x.id)
		}
		if e1 != nil || e2 != nil {
			return vlib.Inconclusive("%v %v", e1, e2)
		}
	}
	cl := dir + "/list-client"
	os.Mkdir(cl, 0755)
	os.MkdirAll(dir+"/metadata", 0755)
	if err := list(cl, "", nil, 0); err != nil {
		return vlib.Inconclusive("%v", err)
	}
	// start them by rank
	byRank := append([]*vfNode(nil), w.nodes...)
	for i := range byRank {
		for j := i; j > 0; j-- {
			a, b := byRank[j-1], byRank[j]
			if c.Order[a.side*n+a.id] > c.Order[b.side*n+b.id] {
				byRank[j-1], byRank[j] = b, a
			} else {
				break
			}
		}
	}
	began := time.Now()
	for i, x := range byRank {
		time.Sleep(time.Duration(c.Gap[i]) * time.Millisecond)
		x.out = out2(fmt.Sprintf("out-%d-%d", x.side, x.id))
		cmd, err := vfStart(dir, c.Procs[x.side*n+x.id], x.out, "-n", num(n), "-f", num(c.F), "-op1", "2", "-op2", roles[1+x.side],
			"-id", num(x.id), "-mp", x.meta, "-lp", fmt.Sprintf("%s/list-%d-%d", dir, x.side, x.id), "-t1", num(c.Wait), "-t2", num(c.Wait), "-t3", "0")
		if err != nil {
			return vlib.Inconclusive("%v", err)
		}
		procs = append(procs, cmd)
		w.mu.Lock()
		x.cmd = cmd
		w.strike()
		w.mu.Unlock()
		waits.Add(1)
		go func(x *vfNode) {
			defer waits.Done()
			cmd.Wait()
			x.out.Close()
			w.mu.Lock()
			x.exited = true
			w.mu.Unlock()
		}(x)
	}
	time.Sleep(time.Duration(c.Client) * time.Millisecond)
	cout := out2("out-client")
	client, err := vfStart(dir, 2, cout, "-n", num(n), "-f", num(c.F), "-op1", "2", "-op2", roles[0], "-id", "12345", "-mp", dir+"/metadata", "-lp", cl, "-t1", "0", "-t2", "0", "-t3", "0")
	if err != nil {
		return vlib.Inconclusive("%v", err)
	}
	procs = append(procs, client)
	clientGone := false
	waits.Add(1)
	go func() {
		defer waits.Done()
		client.Wait()
		w.mu.Lock()
		clientGone = true
		w.mu.Unlock()
	}()

	// until all members that are up have written their latencies
	var lastCPU int64 = -1
	lastMoved := -1
	still := time.Now()
	limit := time.Now().Add(150 * time.Second)
	for {
		all := true
		var cpu int64
		busy := false
		w.mu.Lock()
		nodes := append([]*vfNode(nil), w.nodes...)
		moved, open, cg := w.moved, w.open, clientGone
		w.mu.Unlock()
		if cg {
			return fmt.Errorf("the dealer's process ended: %s %s", vfTail(dir+"/out-client"), vfTail(dir+"/metadata/executingLogClient"))
		}
		v, r := vfCPU(client.Process.Pid)
		cpu, busy = cpu+v, busy || r
		for _, x := range nodes {
			w.mu.Lock()
			killed, exited, paused := x.killed, x.exited, x.paused
			w.mu.Unlock()
			if killed {
				continue
			}
			if x.done.IsZero() {
				b, _ := os.ReadFile(x.result)
				ls := vfLatLine.FindAllSubmatch(b, -1)
				if len(ls) >= len(x.want) {
					x.done = time.Now()
					x.lat = map[string]int64{}
					for _, l := range ls {
						for _, k := range newLat {
							if strings.HasPrefix(string(l[1]), k) {
								v, _ := strconv.ParseInt(string(l[2]), 10, 64)
								x.lat[k] = v
							}
						}
					}
				}
			}
			if x.done.IsZero() {
				all = false
				if exited {
					logs := ""
					for _, g := range []string{"exeLogOld", "exeLogNew", "executingLog"} {
						logs += vfTail(x.meta + "/" + g + num(x.id))
					}
					o := vfTail(fmt.Sprintf("%s/out-%d-%d", dir, x.side, x.id))
					if strings.Contains(logs+o, "address already in use") {
						return vlib.Inconclusive("port in use")
					}
					return fmt.Errorf("member %d of committee %d (-op2 %s) ended before the handoff was over: %s %s", x.id, x.side, roles[1+x.side], o, logs)
				}
			}
			if paused || exited {
				busy = busy || paused
				continue
			}
			v, r := vfCPU(x.cmd.Process.Pid)
			cpu, busy = cpu+v, busy || r
		}
		if all {
			break
		}
		now := time.Now()
		if busy || open > 0 || moved != lastMoved || cpu != lastCPU {
			still, lastMoved, lastCPU = now, moved, cpu
		}
		if now.Sub(still) > 15*time.Second {
			msg := ""
			for _, x := range nodes {
				if !x.killed && x.done.IsZero() {
					msg += fmt.Sprintf(" committee %d member %d: %q;", x.side, x.id, vfTail(fmt.Sprintf("%s/out-%d-%d", dir, x.side, x.id)))
				}
			}
			return fmt.Errorf("no message is on its way, no process works, and these members have not finished:%s", msg)
		}
		if now.After(limit) {
			return vlib.Inconclusive("not finished after 150 s, but still working")
		}
		time.Sleep(15 * time.Millisecond)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	o.NonTrivial = len(c.Faults) > 0 || len(c.Rules) > 0
	for _, x := range w.nodes {
		if x.killed {
			o.Class("member killed")
		}
	}
	if c.One {
		o.Class("one committee")
	} else {
		o.Class("two committees")
	}
	o.Class("f = %d", c.F)
	o.Note("frames", "%d", len(w.frames))
	if err := vfSecret(c, w, o); err != nil {
		return err
	}
	return vfTimes(c, w, began)
}

func vfInt(b []byte) (*big.Int, bool) {
	var a [32]byte
	if len(b) != 32 {
		return nil, false
	}
	copy(a[:], b)
	var f bls.Fr
	if !bls.FrFrom32(&f, a) {
		return nil, false
	}
	return new(big.Int).SetString(bls.FrStr(&f), 10)
}

// vfSecret interpolates the sharing that was dealt and the one distributed at
// the end from the frames on the wire.
func vfSecret(c vfRun, w *vfNetwork, o *vlib.Obs) error {
	n, f := 3*c.F+1, c.F
	last := 1
	if c.One {
		last = 0
	}
	// dealing: member i gets B(i, 1..2f+1)
	secret := []*big.Int(nil)
	var x0 []*big.Int
	old := map[int]vlib.Poly{} // B(x, j) by j
	oldPts := map[int][][2]*big.Int{}
	nw := map[int][][2]*big.Int{} // B'(k, j) by sender j: (k, value)
	for _, fr := range w.frames {
		switch fr.m.Type {
		case "VSSSend":
			var m protobuf.VSSSend
			if proto.Unmarshal(fr.m.Data, &m) != nil || len(m.BijList) != 2*f+2 {
				return fmt.Errorf("the dealing to member %d cannot be read", fr.to.id)
			}
			for j := 1; j <= 2*f+1; j++ {
				v, ok := vfInt(m.BijList[j])
				if !ok {
					return fmt.Errorf("the dealing to member %d holds no scalar at %d", fr.to.id, j)
				}
				oldPts[j] = append(oldPts[j], [2]*big.Int{vlib.B(int64(fr.to.id + 1)), v})
			}
		case "ShareDist":
			var m protobuf.ShareDist
			v, ok := (*big.Int)(nil), false
			if proto.Unmarshal(fr.m.Data, &m) == nil {
				v, ok = vfInt(m.B)
			}
			if !ok || fr.from == nil || fr.from.side != last || int(fr.m.Sender) != fr.from.id {
				return fmt.Errorf("a ShareDist message that is none")
			}
			nw[fr.from.id+1] = append(nw[fr.from.id+1], [2]*big.Int{vlib.B(int64(fr.to.id + 1)), v})
		}
	}
	line := func(pts [][2]*big.Int) (vlib.Poly, error) {
		var xs, ys []*big.Int
		for i := 0; i <= f; i++ {
			xs, ys = append(xs, pts[i][0]), append(ys, pts[i][1])
		}
		p := vlib.Interpolate(xs, ys)
		for _, q := range pts {
			if p.Eval(q[0]).Cmp(q[1]) != 0 {
				return nil, fmt.Errorf("more than degree %d", f)
			}
		}
		return p, nil
	}
	for j := 1; j <= 2*f+1; j++ {
		if len(oldPts[j]) < f+1 {
			return vlib.Inconclusive("the dealing was not seen")
		}
		p, err := line(oldPts[j])
		if err != nil {
			return fmt.Errorf("column %d of the dealing has %v", j, err)
		}
		old[j] = p
		x0, secret = append(x0, vlib.B(int64(j))), append(secret, p.Eval(new(big.Int)))
	}
	dealt := vlib.Interpolate(x0, secret)
	var xs, ys []*big.Int
	same := 0
	for j := 1; j <= n; j++ {
		if len(nw[j]) < f+1 {
			continue
		}
		p, err := line(nw[j])
		if err != nil {
			return fmt.Errorf("what member %d distributed has %v", j-1, err)
		}
		if q := old[j]; q != nil && vlib.EqPoly(p, q) {
			same++
		}
		xs, ys = append(xs, vlib.B(int64(j))), append(ys, p.Eval(new(big.Int)))
	}
	if len(xs) < 2*f+1 {
		return fmt.Errorf("only %d members distributed their shares, although all have finished", len(xs))
	}
	end := vlib.Interpolate(xs[:2*f+1], ys[:2*f+1])
	for i := range xs {
		if end.Eval(xs[i]).Cmp(ys[i]) != 0 {
			return fmt.Errorf("what the members distributed does not lie on one polynomial of degree %d", 2*f)
		}
	}
	z := new(big.Int)
	if end.Eval(z).Cmp(dealt.Eval(z)) != 0 {
		return fmt.Errorf("the secret was %v, after the handoff it is %v", dealt.Eval(z), end.Eval(z))
	}
	if same > 0 {
		return fmt.Errorf("%d shares are the ones from before the handoff", same)
	}
	return nil
}

// vfTimes judges the latencies the members recorded by what was seen on the wire.
func vfTimes(c vfRun, w *vfNetwork, began time.Time) error {
	f := c.F
	const slack = 3 * time.Millisecond
	for _, x := range w.nodes {
		if x.killed || x.lat == nil {
			continue
		}
		// the k-th distinct sender's frame of a kind passed on to x
		nth := func(kind string, k int) (time.Time, bool) {
			var t time.Time
			seen := map[*vfNode]bool{}
			for len(seen) < k {
				var best *vfFrame
				for _, fr := range w.frames {
					if fr.to == x && fr.m.Type == kind && !seen[fr.from] && !fr.fwd.IsZero() && (best == nil || fr.fwd.Before(best.fwd)) {
						best = fr
					}
				}
				if best == nil {
					return t, false
				}
				seen[best.from] = true
				t = best.fwd
			}
			return t, true
		}
		first := func(kind string) (time.Time, bool) {
			var t time.Time
			for _, fr := range w.frames {
				if fr.from == x && fr.m.Type == kind && (t.IsZero() || fr.seen.Before(t)) {
					t = fr.seen
				}
			}
			return t, !t.IsZero()
		}
		name := fmt.Sprintf("member %d of committee %d", x.id, x.side)
		for _, k := range x.want {
			v, ok := x.lat[k]
			if !ok {
				return fmt.Errorf("%s recorded no %s latency", name, k)
			}
			if v < 0 {
				return fmt.Errorf("%s recorded a negative %s latency: %v", name, k, time.Duration(v))
			}
		}
		most := func(k string, from time.Time, what string) error {
			if v := time.Duration(x.lat[k]); v > x.done.Sub(from)+slack {
				return fmt.Errorf("%s recorded a %s latency of %v, but %s only %v before its end", name, k, v, what, x.done.Sub(from))
			}
			return nil
		}
		least := func(k string, from, to time.Time, what string) error {
			if v := time.Duration(x.lat[k]); v < to.Sub(from)-slack {
				return fmt.Errorf("%s recorded a %s latency of %v, but %s took %v", name, k, v, what, to.Sub(from))
			}
			return nil
		}
		var errs []error
		if x.side == 0 {
			if t, ok := nth("VSSSend", 1); ok {
				errs = append(errs, most("Prepare", t, "its dealing came"), most("ShareReduce", t, "its dealing came"))
			}
		} else {
			if t, ok := nth("Prepare", 1); ok {
				errs = append(errs, most("Prepare", t, "the first commitments came"))
			}
			if t, ok := nth("ShareReduce", 1); ok {
				errs = append(errs, most("ShareReduce", t, "the first transfer came"))
			}
		}
		if len(x.want) == 4 {
			k := f + 1
			if c.One {
				k = f // its own do not pass here
			}
			if t, ok := nth("ShareReduce", k); ok {
				errs = append(errs, most("Proactivize", t, "the transfer was complete"))
			}
			tr, okr := nth("Recover", f)
			if okr {
				errs = append(errs, most("ShareDist", tr, "enough recovery points came"))
			}
			// a paused member may have sent long before its frame was read here, never after
			if t, ok := first("RBCPropose"); ok && okr {
				errs = append(errs, least("Proactivize", t, tr, "from its first broadcast to enough recovery points"))
			}
			ts, oks := nth("Success", 2*f)
			if t, ok := first("ShareDist"); ok && oks {
				errs = append(errs, least("ShareDist", t, ts, "from its distribution to the quorum of successes"))
			}
		}
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
	}
	return nil
}

func TestVF_C23_Node(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C23", Quick: 24, Thorough: 400}, vfGen, vfDo)
}
