package party

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

// A dealing for one member, every group element as its exponent.
type vfExps struct {
	gs                   *big.Int
	gf, cb, cz, wz, b, w []*big.Int // 1..2f+1, index 0 unused
}

type vfMove struct {
	Kind  string `json:"kind"`
	J     int    `json:"j"`
	J2    int    `json:"j2"`
	Field string `json:"field"`
	Delta string `json:"delta"`
	Omit  int    `json:"omit"` // the part of a composite that is left out, -1 none
}

type vfDealt struct {
	Base   string   `json:"base"` // poly, sparse, equal, zero, exps
	Secret string   `json:"secret"`
	Seed   uint64   `json:"seed"`
	For    int      `json:"for"` // the member it was made for, -1 the receiver
	Moves  []vfMove `json:"moves,omitempty"`
	Enc    string   `json:"enc,omitempty"` // noncanonical, or junk in one encoding
	EncJ   int      `json:"encj,omitempty"`
}

type vfVSSCase struct {
	F     int       `json:"f"`
	PID   int       `json:"pid"`
	Prior bool      `json:"prior"` // the member holds an earlier sharing
	Deals []vfDealt `json:"deals"`
	Sched vfSched   `json:"sched"`
}

var vfFields = []string{"gs", "gf", "cb", "cz", "wz", "b", "w"}

func (x *vfExps) field(name string, j int) **big.Int {
	switch name {
	case "gs":
		return &x.gs
	case "gf":
		return &x.gf[j]
	case "cb":
		return &x.cb[j]
	case "cz":
		return &x.cz[j]
	case "wz":
		return &x.wz[j]
	case "b":
		return &x.b[j]
	}
	return &x.w[j]
}

// vfLambda0 are the coefficients that give the value at 0 of a polynomial of degree 2f.
func vfLambda0(f int) []*big.Int {
	out := []*big.Int{nil}
	for j := 1; j <= 2*f+1; j++ {
		l := vlib.B(1)
		for k := 1; k <= 2*f+1; k++ {
			if k != j {
				l = vlib.Mul(l, vlib.Mul(vlib.B(int64(-k)), vlib.Inv(vlib.B(int64(j-k)))))
			}
		}
		out = append(out, l)
	}
	return out
}

func (d vfDealt) build(f, pid int) *vfExps {
	m := 2*f + 1
	i := vlib.B(int64(pid + 1))
	if d.For >= 0 {
		i = vlib.B(int64(d.For + 1))
	}
	x := &vfExps{}
	for _, l := range []*[]*big.Int{&x.gf, &x.cb, &x.cz, &x.wz, &x.b, &x.w} {
		*l = make([]*big.Int, m+1)
	}
	rng := vlib.NewRng(d.Seed)
	if d.Base == "exps" { // fits, without polynomials behind it
		x.gs = new(big.Int)
		lam := vfLambda0(f)
		for j := 1; j <= m; j++ {
			x.gf[j], x.wz[j], x.w[j] = rng.Scalar(), rng.Scalar(), rng.Scalar()
			x.gs = vlib.Add(x.gs, vlib.Mul(lam[j], x.gf[j]))
			x.cz[j] = vlib.Mul(x.wz[j], vfTau)
			x.cb[j] = vlib.Add(x.cz[j], x.gf[j])
			x.b[j] = vlib.Sub(x.cb[j], vlib.Mul(x.w[j], vlib.Sub(vfTau, i)))
		}
		return x
	}
	s := vfRandSharing(rng, f, vlib.Big(d.Secret))
	for a := range s.bi {
		for b := range s.bi[a] {
			if a == 0 && b == 0 {
				continue
			}
			switch d.Base {
			case "sparse":
				if rng.Intn(3) > 0 {
					s.bi[a][b] = new(big.Int)
				}
			case "equal": // every column is the same polynomial
				if b > 0 {
					s.bi[a][b] = new(big.Int)
				}
			case "zero":
				s.bi[a][b] = new(big.Int)
			}
		}
	}
	x.gs = vlib.Mod(s.bi[0][0])
	for j := 1; j <= m; j++ {
		y := vlib.B(int64(j))
		x.gf[j] = s.at(new(big.Int), y)
		x.cb[j] = s.com(j)
		x.cz[j] = vlib.Sub(x.cb[j], x.gf[j])
		x.wz[j] = vlib.Mul(x.cz[j], vlib.Inv(vfTau))
		x.b[j] = s.at(i, y)
		x.w[j] = vlib.Mul(vlib.Sub(x.cb[j], x.b[j]), vlib.Inv(vlib.Sub(vfTau, i)))
	}
	return x
}

// apply makes one alteration; composites keep all but some of the equations.
func (x *vfExps) apply(mv vfMove, f, pid int) {
	d := vlib.Big(mv.Delta)
	i := vlib.B(int64(pid + 1))
	lam := vfLambda0(f)[mv.J]
	ti := vlib.Sub(vfTau, i)
	part := 0
	add := func(name string, v *big.Int) {
		if part != mv.Omit {
			p := x.field(name, mv.J)
			*p = vlib.Add(*p, v)
		}
		part++
	}
	switch mv.Kind {
	case "field":
		add(mv.Field, d)
	case "zero":
		*x.field(mv.Field, mv.J) = new(big.Int)
	case "swap":
		a, b := x.field(mv.Field, mv.J), x.field(mv.Field, mv.J2)
		*a, *b = *b, *a
	case "swapcol": // all public values of two columns
		for _, n := range []string{"gf", "cb", "cz", "wz"} {
			a, b := x.field(n, mv.J), x.field(n, mv.J2)
			*a, *b = *b, *a
		}
	case "swapall": // the member's values too
		for _, n := range []string{"gf", "cb", "cz", "wz", "b", "w"} {
			a, b := x.field(n, mv.J), x.field(n, mv.J2)
			*a, *b = *b, *a
		}
	case "copycol":
		for _, n := range []string{"gf", "cb", "cz", "wz", "b", "w"} {
			*x.field(n, mv.J) = *x.field(n, mv.J2)
		}
	case "constant": // the column's constant term, and the secret with it
		add("gf", d)
		add("cb", d)
		add("b", d)
		add("gs", vlib.Mul(lam, d))
	case "blinding": // the blinding polynomial
		add("wz", d)
		add("cz", vlib.Mul(d, vfTau))
		add("cb", vlib.Mul(d, vfTau))
		add("b", vlib.Mul(d, i))
		add("w", d)
	case "value": // another evaluation with the witness that fits it
		add("b", vlib.Sub(new(big.Int), vlib.Mul(d, ti)))
		add("w", d)
	case "two": // two columns, the announced secret kept
		lam2 := vfLambda0(f)[mv.J2]
		e := vlib.Sub(new(big.Int), vlib.Mul(vlib.Mul(d, lam), vlib.Inv(lam2)))
		for _, n := range []string{"gf", "cb", "b"} {
			add(n, d)
		}
		mv.J = mv.J2
		for _, n := range []string{"gf", "cb", "b"} {
			add(n, e)
		}
	}
}

// fits tells whether all the equations of a dealing hold.
func (x *vfExps) fits(f, pid int) (bool, string) {
	lam := vfLambda0(f)
	ti := vlib.Sub(vfTau, vlib.B(int64(pid+1)))
	sum := new(big.Int)
	for j := 1; j <= 2*f+1; j++ {
		sum = vlib.Add(sum, vlib.Mul(lam[j], x.gf[j]))
		if vlib.Mul(x.wz[j], vfTau).Cmp(x.cz[j]) != 0 {
			return false, fmt.Sprintf("the zero proof of column %d", j)
		}
		if vlib.Add(x.cz[j], x.gf[j]).Cmp(x.cb[j]) != 0 {
			return false, fmt.Sprintf("the commitment of column %d", j)
		}
		if vlib.Sub(x.cb[j], x.b[j]).Cmp(vlib.Mul(x.w[j], ti)) != 0 {
			return false, fmt.Sprintf("the evaluation of column %d", j)
		}
	}
	if sum.Cmp(x.gs) != 0 {
		return false, "the secret's commitment"
	}
	return true, ""
}

func (d vfDealt) message(x *vfExps, f int) ([]byte, bool) {
	m := &protobuf.VSSSend{Pi: &protobuf.Pi{Gs: vfG1Bytes(x.gs)}}
	m.BijList, m.WBijList = [][]byte{{}}, [][]byte{{}}
	m.Pi.PiContents = []*protobuf.PiContent{{}}
	ok := true
	for j := 1; j <= 2*f+1; j++ {
		m.Pi.PiContents = append(m.Pi.PiContents, &protobuf.PiContent{J: uint32(j), CBj: vfG1Bytes(x.cb[j]), CZj: vfG1Bytes(x.cz[j]), WZ0: vfG1Bytes(x.wz[j]), GFj: vfG1Bytes(x.gf[j])})
		m.BijList = append(m.BijList, vfToLE(x.b[j]))
		m.WBijList = append(m.WBijList, vfG1Bytes(x.w[j]))
	}
	if j := d.EncJ; d.Enc != "" {
		e := m.Pi.PiContents[j]
		ok = false
		switch d.Enc {
		case "noncanonical":
			v := new(big.Int).Add(x.b[j], vlib.R)
			if v.BitLen() > 256 {
				v.Sub(v, vlib.R)
				ok = true
			}
			m.BijList[j] = vfToLE(v)
		case "b":
			m.BijList[j] = bytes.Repeat([]byte{0xff}, 32)
		case "w":
			m.WBijList[j] = bytes.Repeat([]byte{0xff}, 48)
		case "cb":
			e.CBj[0] &= 0x7f
		case "cz":
			e.CZj = nil
		case "wz":
			e.WZ0 = e.WZ0[:47]
		case "gf":
			e.GFj = append(e.GFj, 0)
		case "gs":
			m.Pi.Gs = make([]byte, 48)
		}
	}
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b, ok
}

type vfState struct {
	full, reduced, widx []*big.Int
	wit, proof          []bls.G1Point
}

func vfSnapshot(p *HonestParty, f int) vfState {
	s := vfState{full: vfVals(vfFullShare(p)), reduced: vfVals(vfReducedShare(p)), widx: vfVals(vfWitnessIndexes(p))}
	s.wit = append(s.wit, vfWitness(p)...)
	s.proof = append(s.proof, p.Proof.Gs)
	for j := 1; j <= 2*f+1; j++ {
		cb, cz, wz, gf, _ := vfPiContent(p.Proof, j)
		s.proof = append(s.proof, *cb, *cz, *wz, *gf)
	}
	return s
}

func vfSameState(a, b vfState) string {
	vals := func(a, b []*big.Int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i].Cmp(b[i]) != 0 {
				return false
			}
		}
		return true
	}
	points := func(a, b []bls.G1Point) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !bls.EqualG1(&a[i], &b[i]) {
				return false
			}
		}
		return true
	}
	switch {
	case !vals(a.full, b.full):
		return "full share"
	case !vals(a.reduced, b.reduced):
		return "reduced share"
	case !vals(a.widx, b.widx):
		return "witness indexes"
	case !points(a.wit, b.wit):
		return "witnesses"
	case !points(a.proof, b.proof):
		return "commitments"
	}
	return ""
}

func vfRunVSS(c vfVSSCase, o *vlib.Obs) error {
	s := vfNewSim(c.Sched)
	n := 3*c.F + 1
	nd := s.committee(0, uint32(c.F), nil, nil)[c.PID]
	dealer := &vfNode{com: -1, idx: 0x7fffffff, limit: -1, name: "the dealer"}
	if c.Prior {
		vfInstall(nd.p, vfRandSharing(vlib.NewRng(99), c.F, vlib.B(77)), nil)
	}
	for k, d := range c.Deals {
		x := d.build(c.F, c.PID)
		for _, mv := range d.Moves {
			x.apply(mv, c.F, c.PID)
		}
		want, why := x.fits(c.F, c.PID)
		data, ok := d.message(x, c.F)
		if !ok {
			want, why = false, "an encoding"
		}
		o.Class("fits %v", want)
		if !want {
			o.NonTrivial = true
			o.Note("broken", "%s", why)
		}
		before := vfSnapshot(nd.p, c.F)
		id := fmt.Sprintf("d%d", k)
		nd.start(func(p *HonestParty) { p.VSSShareReceive([]byte(id)) })
		s.inject(dealer, nd, &protobuf.Message{Type: "VSSSend", Id: []byte(id), Sender: 0x7fffffff, Data: data})
		if err := s.run(); err != nil {
			return err
		}
		if !nd.finished() {
			return fmt.Errorf("dealing %d was received, but the member does not go on", k)
		}
		after := vfSnapshot(nd.p, c.F)
		if !want {
			if diff := vfSameState(before, after); diff != "" {
				return fmt.Errorf("dealing %d is not consistent (%s), but the member's %s changed", k, why, diff)
			}
			continue
		}
		exp := vfState{reduced: before.reduced, proof: []bls.G1Point{*vfG1(x.gs)}}
		var xs []*big.Int
		for j := 1; j <= 2*c.F+1; j++ {
			xs = append(xs, vlib.B(int64(j)))
			exp.widx = append(exp.widx, vlib.B(int64(j)))
			exp.wit = append(exp.wit, *vfG1(x.w[j]))
			exp.proof = append(exp.proof, *vfG1(x.cb[j]), *vfG1(x.cz[j]), *vfG1(x.wz[j]), *vfG1(x.gf[j]))
		}
		exp.full = vlib.Interpolate(xs, x.b[1:])
		for len(exp.full) < 2*c.F+1 {
			exp.full = append(exp.full, new(big.Int))
		}
		if diff := vfSameState(exp, after); diff != "" {
			if vfSameState(before, after) == "" {
				return fmt.Errorf("dealing %d is consistent, but the member did not adopt it", k)
			}
			return fmt.Errorf("dealing %d is consistent, but the adopted %s are not the dealt ones", k, diff)
		}
	}
	_ = n
	return nil
}

func vfGenMove(rt *rapid.T, f int) vfMove {
	m := 2*f + 1
	mv := vfMove{
		Kind:  rapid.SampledFrom([]string{"field", "field", "field", "zero", "swap", "swapcol", "swapall", "copycol", "constant", "constant", "blinding", "blinding", "value", "two"}).Draw(rt, "kind"),
		J:     rapid.IntRange(1, m).Draw(rt, "j"),
		Field: rapid.SampledFrom(vfFields).Draw(rt, "field"),
		Delta: rapid.OneOf(rapid.SampledFrom([]string{"1", "2", "52435875175126190479447740508185965837690552500527637822603658699938581184512"}), vlib.ScalarGen()).Draw(rt, "delta"),
		Omit:  -1,
	}
	mv.J2 = (mv.J-1+rapid.IntRange(1, m-1).Draw(rt, "j2"))%m + 1
	if rapid.Bool().Draw(rt, "part") {
		mv.Omit = rapid.IntRange(0, 5).Draw(rt, "omit")
	}
	return mv
}

func vfGenVSS(rt *rapid.T) vfVSSCase {
	c := vfVSSCase{F: rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(rt, "f"), Prior: rapid.Bool().Draw(rt, "prior")}
	n := 3*c.F + 1
	c.PID = rapid.IntRange(0, n-1).Draw(rt, "pid")
	c.Sched = vfSched{Policy: "fifo", Batch: 1, Procs: 1}
	for k := rapid.IntRange(1, 6).Draw(rt, "deals"); k > 0; k-- {
		d := vfDealt{Base: rapid.SampledFrom([]string{"poly", "poly", "poly", "sparse", "equal", "zero", "exps"}).Draw(rt, "base"),
			Secret: vlib.ScalarGen().Draw(rt, "secret"), Seed: rapid.Uint64().Draw(rt, "seed"), For: -1}
		switch rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 2, 2, 3, 4}).Draw(rt, "how") {
		case 0:
		case 1:
			d.Moves = []vfMove{vfGenMove(rt, c.F)}
		case 2:
			d.Moves = []vfMove{vfGenMove(rt, c.F), vfGenMove(rt, c.F)}
		case 3:
			d.Enc = rapid.SampledFrom([]string{"noncanonical", "b", "w", "cb", "cz", "wz", "gf", "gs"}).Draw(rt, "enc")
			d.EncJ = rapid.IntRange(1, 2*c.F+1).Draw(rt, "encj")
		case 4:
			d.For = rapid.IntRange(0, n-1).Draw(rt, "for")
		}
		c.Deals = append(c.Deals, d)
	}
	return c
}

func TestVF_C02_Consistency(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C02", Quick: 1500, Thorough: 20000, Isolated: true}, vfGenVSS, vfRunVSS)
}
