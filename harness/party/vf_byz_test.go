package party

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// A faulty member runs the ordinary code, and what it sends is altered on the
// way out. It never uses another member's sender number and its messages to
// itself stay as they are.

type vfMut struct {
	Kind string `json:"kind"` // message kind, "" any; "Commit" and "NewCommit" alter the content of a broadcast
	To   []int  `json:"to"`   // receivers, empty all
	Op   string `json:"op"`
	Leaf int    `json:"leaf"` // which field, counted over all leaves
	Arg  int    `json:"arg"`
	Prob int    `json:"prob"` // out of 8, how often it applies
}

type vfByz struct {
	muts  []vfMut
	rng   *vlib.Rng
	seen  map[string][]*protobuf.Message
	recov map[*vfNode][][]byte
	lie   *vfLie
}

func vfMakeByz(nd *vfNode, muts []vfMut, seed uint64) {
	nd.faulty = true
	nd.byz = &vfByz{muts: muts, rng: vlib.NewRng(seed + uint64(nd.idx)*77), seen: map[string][]*protobuf.Message{}}
}

func vfPayload(kind string) proto.Message {
	switch kind {
	case "VSSSend":
		return &protobuf.VSSSend{}
	case "Prepare":
		return &protobuf.Prepare{}
	case "ShareReduce":
		return &protobuf.ShareReduce{}
	case "RBCPropose":
		return &protobuf.Message{}
	case "RBCEcho":
		return &protobuf.RBCEcho{}
	case "RBCReady":
		return &protobuf.RBCReady{}
	case "Commit":
		return &protobuf.Commit{}
	case "Reshare":
		return &protobuf.Reshare{}
	case "Recover":
		return &protobuf.Recover{}
	case "ShareDist":
		return &protobuf.ShareDist{}
	case "Success":
		return &protobuf.Success{}
	case "Value":
		return &protobuf.Value{}
	case "Echo":
		return &protobuf.Echo{}
	case "Finish":
		return &protobuf.Finish{}
	case "Done":
		return &protobuf.Done{}
	case "Halt":
		return &protobuf.Halt{}
	case "PreVote":
		return &protobuf.PreVote{}
	case "Vote":
		return &protobuf.Vote{}
	case "MVBAIN":
		return &protobuf.MVBAIN{}
	}
	return nil
}

// a leaf is a settable value inside a message
type vfLeaf struct {
	kind protoreflect.Kind
	get  func() protoreflect.Value
	set  func(protoreflect.Value)
	list protoreflect.List // the repeated field it is in, if any
	pos  int
}

func vfLeaves(m protoreflect.Message) []vfLeaf {
	var out []vfLeaf
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.IsList() {
			l := m.Mutable(fd).List()
			for k := 0; k < l.Len(); k++ {
				if fd.Kind() == protoreflect.MessageKind {
					out = append(out, vfLeaves(l.Get(k).Message())...)
				} else {
					l, k := l, k
					out = append(out, vfLeaf{fd.Kind(), func() protoreflect.Value { return l.Get(k) }, func(v protoreflect.Value) { l.Set(k, v) }, l, k})
				}
			}
		} else if fd.Kind() == protoreflect.MessageKind {
			if m.Has(fd) {
				out = append(out, vfLeaves(m.Mutable(fd).Message())...)
			}
		} else {
			out = append(out, vfLeaf{fd.Kind(), func() protoreflect.Value { return m.Get(fd) }, func(v protoreflect.Value) { m.Set(fd, v) }, nil, 0})
		}
	}
	return out
}

func vfLists(m protoreflect.Message) []protoreflect.List {
	var out []protoreflect.List
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.IsList() {
			out = append(out, m.Mutable(fd).List())
		} else if fd.Kind() == protoreflect.MessageKind && m.Has(fd) {
			out = append(out, vfLists(m.Mutable(fd).Message())...)
		}
	}
	return out
}

var vfValueOps = []string{"flip", "point", "scalar", "zero", "other", "swap", "num", "bool"}
var vfShapeOps = []string{"empty", "cut", "long", "droplast", "droplist", "addlast", "noncanon", "offcurve", "infinity"}
var vfWholeOps = []string{"drop", "dup", "late"}
var vfBytesOps = []string{"bytes-empty", "bytes-cut", "bytes-random", "bytes-flip", "bytes-none"}

var vfBesideOps = []string{"bytes-empty", "bytes-random", "bytes-cut", "bytes-random", "bytes-flip", "empty", "cut", "long", "droplast", "droplist", "noncanon", "offcurve", "infinity", "num"}

// vfBeside is, one time in two, a member that sends something malformed with
// everything it says.
func vfBeside(rt *rapid.T, muts []vfMut) []vfMut {
	if rapid.Bool().Draw(rt, "beside") {
		return muts
	}
	return []vfMut{{Op: "beside", Leaf: rapid.IntRange(0, 30).Draw(rt, "besideleaf"), Arg: rapid.IntRange(0, 255).Draw(rt, "besidearg"), Prob: 8}}
}

// vfAlter applies one operation to the content of a message; content that it
// does not fit stays as it is.
func (b *vfByz) alter(kind string, data []byte, mu vfMut) []byte {
	r := vlib.NewRng(uint64(mu.Arg)*31 + uint64(mu.Leaf) + 7)
	switch mu.Op {
	case "bytes-empty":
		return []byte{}
	case "bytes-none":
		return nil
	case "bytes-cut":
		if len(data) > 0 {
			return append([]byte{}, data[:mu.Arg%len(data)]...)
		}
		return data
	case "bytes-random":
		return r.Bytes(mu.Arg % 200)
	case "bytes-flip":
		d := append([]byte{}, data...)
		if len(d) > 0 {
			d[(mu.Leaf*7919)%len(d)] ^= 1 << uint(mu.Arg%8)
		}
		return d
	}
	if kind == "NewCommit" { // the content is a bare point
		return vfAlterBytes(append([]byte{}, data...), mu, r)
	}
	pm := vfPayload(kind)
	if pm == nil || proto.Unmarshal(data, pm) != nil {
		return data
	}
	if kind == "Commit" && mu.Op == "shift" {
		return vfShiftCommit(pm.(*protobuf.Commit), mu, r)
	}
	switch mu.Op {
	case "droplast", "droplist", "addlast":
		ls := vfLists(pm.ProtoReflect())
		if len(ls) > 0 {
			l := ls[mu.Leaf%len(ls)]
			switch {
			case mu.Op == "addlast" && l.Len() > 0:
				l.Append(l.Get(l.Len() - 1))
			case mu.Op == "droplist":
				l.Truncate(0)
			case mu.Op == "droplast" && l.Len() > 0:
				l.Truncate(l.Len() - 1)
			}
		}
	default:
		lv := vfLeaves(pm.ProtoReflect())
		if len(lv) == 0 {
			return data
		}
		x := lv[mu.Leaf%len(lv)]
		switch x.kind {
		case protoreflect.BytesKind:
			if mu.Op == "swap" {
				if x.list != nil && x.list.Len() > 1 {
					o := (x.pos + 1 + mu.Arg%(x.list.Len()-1)) % x.list.Len()
					a, c := x.list.Get(x.pos), x.list.Get(o)
					x.list.Set(x.pos, c)
					x.list.Set(o, a)
				}
			} else if mu.Op == "other" {
				// the same field of another message of this kind
				if old := b.seen[kind]; len(old) > 0 {
					po := vfPayload(kind)
					if proto.Unmarshal(old[mu.Arg%len(old)].Data, po) == nil {
						lo := vfLeaves(po.ProtoReflect())
						if len(lo) > 0 {
							y := lo[mu.Leaf%len(lo)]
							if y.kind == x.kind {
								x.set(y.get())
							}
						}
					}
				}
			} else {
				x.set(protoreflect.ValueOfBytes(vfAlterBytes(append([]byte{}, x.get().Bytes()...), mu, r)))
			}
		case protoreflect.Uint32Kind:
			if mu.Op != "bool" {
				v := []uint32{0, 1, 2, 3, 4, 5, 7, 8, 100, 0x7fffffff, 0xffffffff}[mu.Arg%11]
				x.set(protoreflect.ValueOfUint32(v))
			}
		case protoreflect.BoolKind:
			x.set(protoreflect.ValueOfBool(!x.get().Bool()))
		}
	}
	d, err := proto.Marshal(pm)
	if err != nil {
		return data
	}
	return d
}

func vfAlterBytes(d []byte, mu vfMut, r *vlib.Rng) []byte {
	switch mu.Op {
	case "flip":
		if len(d) > 0 {
			d[(mu.Arg/8)%len(d)] ^= 1 << uint(mu.Arg%8)
		}
	case "point":
		if len(d) == 48 {
			return vfG1Bytes(vlib.B(int64(mu.Arg + 1)))
		}
		return r.Bytes(len(d))
	case "scalar":
		if len(d) == 32 {
			v := vfLE(d)
			return vfToLE(vlib.Add(v, vlib.B(int64(mu.Arg%5+1))))
		}
		if len(d) == 48 { // a point moved by a multiple of the generator
			p, err := bls.FromCompressedG1(append([]byte{}, d...))
			if err == nil && p != nil {
				var q bls.G1Point
				bls.AddG1(&q, p, vfG1(vlib.B(int64(mu.Arg%5+1))))
				return bls.ToCompressedG1(&q)
			}
		}
		return r.Bytes(len(d))
	case "zero":
		return make([]byte, len(d))
	case "empty":
		return nil
	case "cut":
		if len(d) > 0 {
			return d[:mu.Arg%len(d)]
		}
	case "long":
		return append(d, r.Bytes(1+mu.Arg%40)...)
	case "noncanon":
		if len(d) == 32 {
			return vfToLE(new(big.Int).Add(vlib.R, big.NewInt(int64(mu.Arg))))
		}
		for i := range d {
			d[i] = 0xff
		}
	case "offcurve":
		if len(d) == 48 {
			d[47] ^= byte(1 + mu.Arg%255)
		}
	case "infinity":
		if len(d) == 48 {
			d = make([]byte, 48)
			d[0] = 0xc0
		}
	}
	return d
}

func vfLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func vfToLE(v *big.Int) []byte {
	out := make([]byte, 32)
	be := v.Bytes()
	for i := range be {
		if i < 32 {
			out[i] = be[len(be)-1-i]
		}
	}
	return out
}

// vfShiftCommit moves a combination of the fields of one entry of a Commit by
// amounts that keep some of the equations between them.
func vfShiftCommit(c *protobuf.Commit, mu vfMut, r *vlib.Rng) []byte {
	if len(c.Pi) > 0 {
		e := c.Pi[mu.Leaf%len(c.Pi)]
		d := vlib.B(int64(1 + mu.Arg/16))
		add := func(b []byte, v *big.Int) []byte {
			p, err := bls.FromCompressedG1(append([]byte{}, b...))
			if err != nil {
				return b
			}
			var q bls.G1Point
			bls.AddG1(&q, p, vfG1(v))
			return bls.ToCompressedG1(&q)
		}
		// bits: constant term, blinding polynomial, its proof
		if mu.Arg&1 != 0 {
			e.GFj = add(e.GFj, d)
		}
		if mu.Arg&2 != 0 {
			e.CBj = add(e.CBj, d)
		}
		if mu.Arg&4 != 0 {
			e.CZj = add(e.CZj, d)
		}
		if mu.Arg&8 != 0 {
			e.WZ0 = add(e.WZ0, d)
		}
		if mu.Arg&15 == 0 {
			o := c.Pi[(mu.Leaf+1)%len(c.Pi)]
			c.Pi[(mu.Leaf+1)%len(c.Pi)], c.Pi[mu.Leaf%len(c.Pi)] = e, o
		}
	}
	b, _ := proto.Marshal(c)
	return b
}

func vfHas(l []int, x int) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return len(l) == 0
}

func (b *vfByz) apply(s *vfSim, e *vfEnv) []*vfEnv {
	if len(b.seen[e.kind]) < 64 {
		b.seen[e.kind] = append(b.seen[e.kind], vfCloneMsg(e.m))
	}
	if e.kind == "Recover" {
		if b.recov == nil {
			b.recov = map[*vfNode][][]byte{}
		}
		b.recov[e.to] = append(b.recov[e.to], append([]byte{}, e.m.Data...))
	}
	if b.lie != nil {
		e.m.Data = b.lie.tell(e.kind, e.m.Data)
	}
	out := []*vfEnv{e}
	for k, mu := range b.muts {
		kind := mu.Kind
		outer := kind
		if kind == "Commit" || kind == "NewCommit" {
			outer = "RBCPropose"
		}
		if outer != "" && outer != e.kind || !vfHas(mu.To, e.to.idx) {
			continue
		}
		if mu.Prob < 8 && int(vlib.NewRng(uint64(e.seq)*131+uint64(k)).Intn(8)) >= mu.Prob {
			continue
		}
		switch mu.Op {
		case "drop":
			return nil
		case "dup":
			if e.kind == "Recover" {
				// honest members alone fill a queue of this kind as far as the code
				// provides for: a repetition takes the place of another message, or
				// comes when all others were received
				if mu.Arg%2 == 1 {
					for _, o := range b.recov[e.to] {
						if mu.Arg/2%2 == 0 || b.rng.Intn(2) == 0 {
							e.m.Data = append([]byte{}, o...)
							break
						}
					}
					continue
				}
				c := *e
				c.m = vfCloneMsg(e.m)
				s.seq++
				c.seq, c.prio = s.seq, e.prio+40
				out = append(out, &c)
				continue
			}
			for i := 0; i < 1+mu.Arg%3; i++ {
				c := *e
				c.m = vfCloneMsg(e.m)
				s.seq++
				c.seq = s.seq
				c.key = b.rng.U64()
				out = append(out, &c)
			}
			continue
		case "late":
			e.prio += 5
			continue
		case "beside": // a malformed message of the kind goes before the true one
			if e.kind == "Recover" {
				continue
			}
			sub := mu
			sub.Op = vfBesideOps[(mu.Arg+e.seq*mu.Leaf)%len(vfBesideOps)]
			sub.Arg += e.seq * mu.Leaf
			c := *e
			c.m = vfCloneMsg(e.m)
			c.m.Data = b.alter(e.kind, c.m.Data, sub)
			s.seq++
			e.seq = s.seq
			out = append([]*vfEnv{&c}, out...)
			continue
		}
		if kind == "Commit" || kind == "NewCommit" {
			var in protobuf.Message
			if proto.Unmarshal(e.m.Data, &in) == nil && in.Type == kind {
				in.Data = b.alter(kind, in.Data, mu)
				e.m.Data, _ = proto.Marshal(&in)
			}
		} else {
			e.m.Data = b.alter(e.kind, e.m.Data, mu)
		}
	}
	return out
}

func vfGenMuts(rt *rapid.T, n int, kinds []string, ops []string) []vfMut {
	k := rapid.IntRange(1, 3).Draw(rt, "muts")
	var out []vfMut
	for i := 0; i < k; i++ {
		m := vfMut{
			Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"),
			Op:   rapid.SampledFrom(ops).Draw(rt, "op"),
			Leaf: rapid.IntRange(0, 30).Draw(rt, "leaf"),
			Arg:  rapid.IntRange(0, 255).Draw(rt, "arg"),
			Prob: rapid.SampledFrom([]int{8, 8, 8, 4, 2}).Draw(rt, "prob"),
		}
		if m.Kind == "Commit" && rapid.Bool().Draw(rt, "shift") {
			m.Op = "shift"
		}
		if rapid.IntRange(0, 2).Draw(rt, "some") == 0 {
			m.To = vfGenSubset(rt, "to", n, n-1)
		}
		out = append(out, m)
	}
	return out
}

func vfMoveG1(b []byte, v int64) []byte {
	p, err := bls.FromCompressedG1(append([]byte{}, b...))
	if err != nil || p == nil || v == 0 {
		return b
	}
	var q bls.G1Point
	bls.AddG1(&q, p, vfG1(vlib.B(v)))
	return bls.ToCompressedG1(&q)
}

func vfMoveFr(b []byte, v int64) []byte {
	return vfToLE(vlib.Add(vfLE(b), vlib.Mod(vlib.B(v))))
}

func (l *vfLie) at(k int) int64 {
	if k < len(l.D) {
		return l.D[k]
	}
	return 0
}

func (l *vfLie) tell(kind string, data []byte) []byte {
	var pm proto.Message
	switch kind {
	case "RBCPropose":
		var in protobuf.Message
		if proto.Unmarshal(data, &in) != nil {
			return data
		}
		switch in.Type {
		case "Commit":
			var c protobuf.Commit
			if proto.Unmarshal(in.Data, &c) != nil {
				return data
			}
			for k, e := range c.Pi {
				for bit, f := range []*[]byte{&e.GFj, &e.CBj, &e.CZj, &e.WZ0} {
					if l.Fields>>uint(bit)&1 != 0 {
						*f = vfMoveG1(*f, l.at(k))
					}
				}
			}
			in.Data, _ = proto.Marshal(&c)
		case "NewCommit":
			if l.NewF&1 != 0 {
				in.Data = vfMoveG1(in.Data, l.New)
			}
		default:
			return data
		}
		pm = &in
	case "Reshare":
		var c protobuf.Reshare
		if proto.Unmarshal(data, &c) != nil {
			return data
		}
		for k := range c.Qk {
			if l.Fields&16 != 0 {
				c.Qk[k] = vfMoveFr(c.Qk[k], l.at(k))
			}
			if l.Fields&32 != 0 && k < len(c.WQk) {
				c.WQk[k] = vfMoveG1(c.WQk[k], l.at(k))
			}
		}
		pm = &c
	case "ShareDist":
		var c protobuf.ShareDist
		if proto.Unmarshal(data, &c) != nil {
			return data
		}
		if l.NewF&2 != 0 {
			c.B = vfMoveFr(c.B, l.New)
		}
		if l.NewF&4 != 0 {
			c.WB = vfMoveG1(c.WB, l.New)
		}
		pm = &c
	default:
		return data
	}
	d, err := proto.Marshal(pm)
	if err != nil {
		return data
	}
	return d
}
