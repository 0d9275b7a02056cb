package vfbls

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

func fr(v *big.Int) bls.Fr {
	var b [32]byte
	be := vlib.Mod(v).Bytes()
	for i := range be {
		b[i] = be[len(be)-1-i]
	}
	var f bls.Fr
	if !bls.FrFrom32(&f, b) {
		panic("FrFrom32 refused " + v.String())
	}
	return f
}

func frs(s string) bls.Fr { return fr(vlib.Big(s)) }

// val reads a scalar through its decimal text, which is checked separately
// against the byte encoding.
func val(f *bls.Fr) *big.Int {
	v, ok := new(big.Int).SetString(bls.FrStr(f), 10)
	if !ok {
		panic("FrStr gave " + bls.FrStr(f))
	}
	return v
}

type constant struct {
	name string
	p    *bls.Fr
	want *big.Int
}

func constants() []constant {
	r := vlib.R
	half := new(big.Int).Rsh(new(big.Int).Sub(r, big.NewInt(1)), 1)
	cs := []constant{
		{"ZERO", &bls.ZERO, vlib.B(0)}, {"ONE", &bls.ONE, vlib.B(1)}, {"TWO", &bls.TWO, vlib.B(2)},
		{"MODULUS_MINUS1", &bls.MODULUS_MINUS1, vlib.B(-1)}, {"MODULUS_MINUS2", &bls.MODULUS_MINUS2, vlib.B(-2)},
		{"MODULUS_MINUS1_DIV2", &bls.MODULUS_MINUS1_DIV2, half},
		{"INVERSE_TWO", &bls.INVERSE_TWO, vlib.Inv(vlib.B(2))},
	}
	for k := range bls.Scale2RootOfUnity {
		e := new(big.Int).Rsh(new(big.Int).Sub(r, big.NewInt(1)), uint(k))
		cs = append(cs, constant{fmt.Sprintf("Scale2RootOfUnity[%d]", k), &bls.Scale2RootOfUnity[k],
			new(big.Int).Exp(big.NewInt(7), e, r)})
	}
	return cs
}

var constSpec = constants()

func checkConstants(nAll bool) error {
	cs := constSpec
	if !nAll {
		cs = cs[:12]
	}
	for _, c := range cs {
		if g := val(c.p); g.Cmp(c.want) != 0 {
			return fmt.Errorf("shared constant %s is %s, want %s", c.name, g, c.want)
		}
	}
	return nil
}

type frCase struct {
	Op    string `json:"op"`
	A     string `json:"a"`
	B     string `json:"b"`
	Alias int    `json:"alias"` // 0 none, 1 dst=a, 2 dst=b, 3 dst=a=b, 4 a=b
	E     string `json:"e,omitempty"`
	Junk  string `json:"junk"` // previous value of dst
	Const int    `json:"const"`
}

var frOps = []string{"add", "sub", "mul", "div", "inv", "exp", "copy", "batchinv1"}

func TestVF_C17_Ops(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C17", Quick: 40000, Thorough: 600000}, func(t *rapid.T) frCase {
		return frCase{
			Op:    rapid.SampledFrom(frOps).Draw(t, "op"),
			A:     vlib.ScalarGen().Draw(t, "a"),
			B:     vlib.ScalarGen().Draw(t, "b"),
			Alias: rapid.IntRange(0, 4).Draw(t, "alias"),
			E:     expGen().Draw(t, "e"),
			Junk:  vlib.ScalarGen().Draw(t, "junk"),
			Const: rapid.IntRange(-6, 6).Draw(t, "const"),
		}
	}, func(c frCase, o *vlib.Obs) error {
		av, bv := vlib.Big(c.A), vlib.Big(c.B)
		a, b := frs(c.A), frs(c.B)
		pa, pb := &a, &b
		if c.Const >= 0 { // operand b is one of the package's own constants
			pb = constSpec[c.Const].p
			bv = constSpec[c.Const].want
		}
		dst := frs(c.Junk)
		pd := &dst
		switch c.Alias {
		case 1:
			pd = pa
		case 2:
			if c.Const < 0 {
				pd = pb
			}
		case 3:
			pd, pb, bv = pa, pa, av
		case 4:
			pb, bv = pa, av
		}
		if (c.Op == "div" && bv.Sign() == 0) || ((c.Op == "inv" || c.Op == "batchinv1") && av.Sign() == 0) {
			return nil // division by zero is not defined
		}
		var want *big.Int
		switch c.Op {
		case "add":
			bls.AddModFr(pd, pa, pb)
			want = vlib.Add(av, bv)
		case "sub":
			bls.SubModFr(pd, pa, pb)
			want = vlib.Sub(av, bv)
		case "mul":
			bls.MulModFr(pd, pa, pb)
			want = vlib.Mul(av, bv)
		case "div":
			bls.DivModFr(pd, pa, pb)
			want = vlib.Mul(av, vlib.Inv(bv))
		case "inv":
			bls.InvModFr(pd, pa)
			want = vlib.Inv(av)
		case "exp":
			e := vlib.Big(c.E)
			e0 := new(big.Int).Set(e)
			bls.ExpModFr(pd, pa, e)
			want = new(big.Int).Exp(av, e0, vlib.R)
			if e.Cmp(e0) != 0 {
				return fmt.Errorf("ExpModFr changed its exponent")
			}
		case "copy":
			bls.CopyFr(pd, pa)
			want = av
		case "batchinv1":
			s := make([]bls.Fr, 1)
			bls.CopyFr(&s[0], &a)
			bls.BatchInvModFr(s)
			pd = &s[0]
			want = vlib.Inv(av)
		}
		o.NonTrivial = av.Sign() != 0 && bv.Sign() != 0
		o.Class("%s", c.Op)
		if pd == pa || pd == pb {
			o.Class("destination aliases an operand")
		}
		if g := val(pd); g.Cmp(want) != 0 {
			return fmt.Errorf("%s(%s, %s) = %s, want %s", c.Op, av, bv, g, want)
		}
		if pd != pa {
			if g := val(pa); g.Cmp(av) != 0 {
				return fmt.Errorf("%s changed its first operand from %s to %s", c.Op, av, g)
			}
		}
		if pd != pb {
			if g := val(pb); g.Cmp(bv) != 0 {
				return fmt.Errorf("%s changed its second operand from %s to %s", c.Op, bv, g)
			}
		}
		// comparisons and encodings of the result
		if bls.EqualZero(pd) != (want.Sign() == 0) || bls.EqualOne(pd) != (want.Cmp(big.NewInt(1)) == 0) {
			return fmt.Errorf("EqualZero/EqualOne wrong on %s", want)
		}
		w := fr(want)
		if !bls.EqualFr(pd, &w) || !bls.EqualFr(&w, pd) {
			return fmt.Errorf("EqualFr(%s, %s) is false", want, want)
		}
		w1 := fr(vlib.Add(want, big.NewInt(1)))
		if bls.EqualFr(pd, &w1) || bls.EqualFr(&w1, pd) {
			return fmt.Errorf("EqualFr(%s, %s) is true", want, val(&w1))
		}
		// the result is usable afterwards without changing its sources
		bls.AddModFr(pd, pd, &bls.ONE)
		if g := val(pd); g.Cmp(vlib.Add(want, vlib.B(1))) != 0 {
			return fmt.Errorf("result of %s plus one is %s", c.Op, g)
		}
		if pd != pa {
			if g := val(pa); g.Cmp(av) != 0 {
				return fmt.Errorf("changing the result of %s changed the first operand from %s to %s", c.Op, av, g)
			}
		}
		if pd != pb {
			if g := val(pb); g.Cmp(bv) != 0 {
				return fmt.Errorf("changing the result of %s changed the second operand from %s to %s", c.Op, bv, g)
			}
		}
		return checkConstants(false)
	})
}

func expGen() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 4).Draw(t, "ecls") {
		case 0:
			return fmt.Sprint(rapid.IntRange(0, 5).Draw(t, "small"))
		case 1:
			return fmt.Sprint(rapid.Uint64().Draw(t, "u64"))
		case 2:
			return new(big.Int).Sub(vlib.R, big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "d")))).String()
		case 3:
			return new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 300).Draw(t, "sh"))).String()
		default:
			return vlib.ScalarGen().Draw(t, "e")
		}
	})
}

type encCase struct {
	Mode int    `json:"mode"`
	V    string `json:"v"` // any integer below 2^256, decimal
	U    uint64 `json:"u"`
}

func TestVF_C17_Encoding(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C17", Quick: 24000, Thorough: 400000}, func(t *rapid.T) encCase {
		mode := rapid.IntRange(0, 4).Draw(t, "mode")
		var v *big.Int
		switch mode {
		case 0: // around the order
			v = new(big.Int).Add(vlib.R, big.NewInt(int64(rapid.IntRange(-4, 4).Draw(t, "d"))))
		case 1: // around the order, word boundaries of the limbs
			k := rapid.IntRange(0, 255).Draw(t, "k")
			d := new(big.Int).Lsh(big.NewInt(1), uint(k))
			if rapid.Bool().Draw(t, "neg") {
				d.Neg(d)
			}
			v = new(big.Int).Add(vlib.R, d)
			v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
			if v.Sign() < 0 {
				v.Abs(v)
			}
		case 2: // short values: few significant bytes anywhere
			n := rapid.IntRange(0, 32).Draw(t, "len")
			v = new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes"))
		case 3:
			v = new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "bytes"))
		default:
			v = vlib.Big(vlib.ScalarGen().Draw(t, "v"))
		}
		return encCase{mode, v.String(), rapid.Uint64().Draw(t, "u")}
	}, func(c encCase, o *vlib.Obs) error {
		v := vlib.Big(c.V)
		var le [32]byte
		be := v.Bytes()
		for i := range be {
			le[i] = be[len(be)-1-i]
		}
		inRange := v.Cmp(vlib.R) < 0
		o.NonTrivial = v.BitLen() > 1
		o.Class("in range %v", inRange)
		if bls.ValidFr(le) != inRange {
			return fmt.Errorf("ValidFr(%s) = %v", v, bls.ValidFr(le))
		}
		junk := fr(vlib.B(12345))
		in := le
		ok := bls.FrFrom32(&junk, in)
		if ok != inRange {
			return fmt.Errorf("FrFrom32(%s) = %v", v, ok)
		}
		if !ok {
			if g := val(&junk); g.Cmp(big.NewInt(12345)) != 0 {
				return fmt.Errorf("FrFrom32 refused %s but changed the destination to %s", v, g)
			}
		} else {
			if g := val(&junk); g.Cmp(v) != 0 {
				return fmt.Errorf("decoding the 32 bytes of %s gave %s", v, g)
			}
			back := bls.FrTo32(&junk)
			if back != le {
				return fmt.Errorf("FrTo32 of %s is %x, want %x", v, back, le)
			}
			if g := val(&junk); g.Cmp(v) != 0 {
				return fmt.Errorf("FrTo32 changed its operand %s to %s", v, g)
			}
			if s := junk.String(); s != v.String() {
				return fmt.Errorf("text of %s is %s", v, s)
			}
			var f2 bls.Fr
			bls.SetFr(&f2, v.String())
			if !bls.EqualFr(&f2, &junk) || bls.FrTo32(&f2) != le {
				return fmt.Errorf("SetFr(%s) gave %s", v, bls.FrStr(&f2))
			}
			f3 := bls.ToFr(v.String())
			if !bls.EqualFr(&f3, &junk) {
				return fmt.Errorf("ToFr(%s) gave %s", v, bls.FrStr(&f3))
			}
		}
		us := []uint64{c.U, v.Uint64(), 1<<63 | c.U, ^uint64(0) - c.U%5, c.U % 300, 1<<63 - 1 - c.U%3, 1 << (c.U % 64)}
		for _, u := range us {
			var f bls.Fr
			bls.AsFr(&f, u)
			want := new(big.Int).SetUint64(u)
			if g := val(&f); g.Cmp(want) != 0 {
				return fmt.Errorf("AsFr(%d) = %s", u, g)
			}
			wf := fr(want)
			if bls.FrTo32(&f) != bls.FrTo32(&wf) {
				return fmt.Errorf("AsFr(%d) encodes as %x", u, bls.FrTo32(&f))
			}
			if bls.IsPowerOfTwo(u) != (u == 0 || want.BitLen()-1 == int(want.TrailingZeroBits())) {
				return fmt.Errorf("IsPowerOfTwo(%d) = %v", u, bls.IsPowerOfTwo(u))
			}
		}
		return nil
	})
}

type vecCase struct {
	N    int    `json:"n"`
	M    int    `json:"m"`
	Seed uint64 `json:"seed"`
	X    string `json:"x"`
}

func frVec(v []*big.Int) []bls.Fr {
	out := make([]bls.Fr, len(v))
	for i := range v {
		out[i] = fr(v[i])
	}
	return out
}

func sameVec(what string, f []bls.Fr, v []*big.Int) error {
	if len(f) != len(v) {
		return fmt.Errorf("%s has length %d, want %d", what, len(f), len(v))
	}
	for i := range f {
		if g := val(&f[i]); g.Cmp(v[i]) != 0 {
			return fmt.Errorf("%s[%d] is %s, want %s", what, i, g, v[i])
		}
	}
	return nil
}

func TestVF_C17_Vectors(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C17", Quick: 6000, Thorough: 80000}, func(t *rapid.T) vecCase {
		return vecCase{rapid.IntRange(0, 20).Draw(t, "n"), rapid.IntRange(0, 5).Draw(t, "m"), rapid.Uint64().Draw(t, "seed"),
			vlib.ScalarGen().Draw(t, "x")}
	}, func(c vecCase, o *vlib.Obs) error {
		o.NonTrivial = c.N > 1
		o.Class("length %d", c.N/5*5)
		rng := vlib.NewRng(c.Seed + 1)
		v := vlib.SeededScalars(c.Seed, c.N)
		w := vlib.SeededScalars(c.Seed^0x55aa, c.N)
		x := vlib.Big(c.X)
		fv, fw := frVec(v), frVec(w)
		fx := fr(x)
		// evaluation
		for name, f := range map[string]func(*bls.Fr, []bls.Fr, *bls.Fr){"EvalPolyAt": bls.EvalPolyAt, "EvalPolyAtUnoptimized": bls.EvalPolyAtUnoptimized} {
			d := fr(vlib.B(99))
			f(&d, fv, &fx)
			if g := val(&d); g.Cmp(vlib.Poly(v).Eval(x)) != 0 {
				return fmt.Errorf("%s of degree-%d polynomial at %s is %s, want %s", name, c.N-1, x, g, vlib.Poly(v).Eval(x))
			}
			// result into the evaluation point
			d2 := fr(x)
			f(&d2, fv, &d2)
			if g := val(&d2); g.Cmp(vlib.Poly(v).Eval(x)) != 0 {
				return fmt.Errorf("%s with the point as destination gave %s, want %s", name, g, vlib.Poly(v).Eval(x))
			}
		}
		if err := sameVec("polynomial after evaluation", fv, v); err != nil {
			return err
		}
		if g := val(&fx); g.Cmp(x) != 0 {
			return fmt.Errorf("evaluation changed the point")
		}
		// inner product
		ip := vlib.B(0)
		for i := range v {
			ip = vlib.Add(ip, vlib.Mul(v[i], w[i]))
		}
		got := bls.LinCombFr(fv, fw)
		if g := val(&got); g.Cmp(ip) != 0 {
			return fmt.Errorf("LinCombFr = %s, want %s", g, ip)
		}
		// batch inverse
		nz := make([]*big.Int, 0)
		for _, e := range v {
			if e.Sign() != 0 {
				nz = append(nz, e)
			}
		}
		fi := frVec(nz)
		if len(fi) > 0 {
			bls.BatchInvModFr(fi)
		}
		for i := range nz {
			if g := val(&fi[i]); g.Cmp(vlib.Inv(nz[i])) != 0 {
				return fmt.Errorf("BatchInvModFr[%d] of %d = %s, want %s", i, len(nz), g, vlib.Inv(nz[i]))
			}
		}
		// linear combination of polynomials
		vecs := make([][]bls.Fr, c.M)
		bigs := make([][]*big.Int, c.M)
		sc := vlib.SeededScalars(c.Seed+7, c.M)
		for j := range vecs {
			bigs[j] = vlib.SeededScalars(c.Seed+uint64(100+j), c.N)
			vecs[j] = frVec(bigs[j])
		}
		lc, err := bls.PolyLinComb(vecs, frVec(sc), c.N)
		if err != nil {
			return fmt.Errorf("PolyLinComb of equal lengths: %v", err)
		}
		want := make([]*big.Int, c.N)
		for i := range want {
			want[i] = vlib.B(0)
			for j := range vecs {
				want[i] = vlib.Add(want[i], vlib.Mul(sc[j], bigs[j][i]))
			}
		}
		if err := sameVec("PolyLinComb", lc, want); err != nil {
			return err
		}
		for j := range vecs {
			if err := sameVec("input of PolyLinComb", vecs[j], bigs[j]); err != nil {
				return err
			}
		}
		if c.M > 0 && c.N > 0 {
			bad := rng.Intn(c.M)
			vecs2 := append([][]bls.Fr{}, vecs...)
			vecs2[bad] = vecs[bad][:c.N-1]
			if _, err := bls.PolyLinComb(vecs2, frVec(sc), c.N); err == nil {
				return fmt.Errorf("PolyLinComb accepted a vector of another length")
			}
			if _, err := bls.PolyLinComb(vecs, frVec(sc)[:c.M-1], c.N); err == nil {
				return fmt.Errorf("PolyLinComb accepted a wrong number of scalars")
			}
		}
		// evaluation form, power of two sizes, point outside of the domain
		k := uint(rng.Intn(5))
		scale := uint8(rng.Intn(3))
		n := 1 << k
		full := n << scale
		root := constSpec[7+int(k)+int(scale)].want
		dom := make([]*big.Int, full+0)
		acc := vlib.B(1)
		for i := range dom {
			dom[i] = acc
			acc = vlib.Mul(acc, root)
		}
		coeffs := vlib.Poly(vlib.SeededScalars(c.Seed+13, n))
		evals := make([]*big.Int, n)
		inDomain := false
		for i := range evals {
			evals[i] = coeffs.Eval(dom[i<<scale])
			if dom[i<<scale].Cmp(x) == 0 {
				inDomain = true
			}
		}
		if !inDomain {
			fe, fd := frVec(evals), frVec(dom)
			y := fr(vlib.B(0))
			bls.EvaluatePolyInEvaluationForm(&y, fe, &fx, fd, scale)
			if g := val(&y); g.Cmp(coeffs.Eval(x)) != 0 {
				return fmt.Errorf("EvaluatePolyInEvaluationForm(n=%d, scale=%d) at %s = %s, want %s", n, scale, x, g, coeffs.Eval(x))
			}
			if err := sameVec("evaluations", fe, evals); err != nil {
				return err
			}
			if err := sameVec("domain", fd, dom); err != nil {
				return err
			}
		}
		return checkConstants(true)
	})
}

type histCase struct {
	Seed uint64 `json:"seed"`
	Ops  []int  `json:"ops"`
}

// A history of operations on a few registers, each possibly copied by plain
// assignment or CopyFr from another register or a shared constant.
func TestVF_C17_Registers(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C17", Quick: 8000, Thorough: 120000}, func(t *rapid.T) histCase {
		return histCase{rapid.Uint64().Draw(t, "seed"), rapid.SliceOfN(rapid.IntRange(0, 1<<20), 1, 40).Draw(t, "ops")}
	}, func(c histCase, o *vlib.Obs) error {
		const nr = 4
		var reg [nr]bls.Fr
		var ref [nr]*big.Int
		for i, v := range vlib.SeededScalars(c.Seed, nr) {
			reg[i], ref[i] = fr(v), v
		}
		o.NonTrivial = len(c.Ops) > 3
		for step, op := range c.Ops {
			d, a, b := op%nr, (op/nr)%nr, (op/nr/nr)%nr
			k := (op / nr / nr / nr) % 10
			switch k {
			case 0:
				bls.AddModFr(&reg[d], &reg[a], &reg[b])
				ref[d] = vlib.Add(ref[a], ref[b])
			case 1:
				bls.SubModFr(&reg[d], &reg[a], &reg[b])
				ref[d] = vlib.Sub(ref[a], ref[b])
			case 2:
				bls.MulModFr(&reg[d], &reg[a], &reg[b])
				ref[d] = vlib.Mul(ref[a], ref[b])
			case 3:
				if ref[b].Sign() == 0 {
					continue
				}
				bls.DivModFr(&reg[d], &reg[a], &reg[b])
				ref[d] = vlib.Mul(ref[a], vlib.Inv(ref[b]))
			case 4:
				if ref[a].Sign() == 0 {
					continue
				}
				bls.InvModFr(&reg[d], &reg[a])
				ref[d] = vlib.Inv(ref[a])
			case 5, 6:
				bls.CopyFr(&reg[d], &reg[a])
				ref[d] = new(big.Int).Set(ref[a])
			case 7:
				i := (op / 640) % 12
				bls.CopyFr(&reg[d], constSpec[i].p)
				ref[d] = constSpec[i].want
			case 8:
				u := uint64(op) * 0x9e3779b97f4a7c15
				bls.AsFr(&reg[d], u)
				ref[d] = new(big.Int).SetUint64(u)
			case 9:
				e := big.NewInt(int64(op % 7))
				bls.ExpModFr(&reg[d], &reg[a], e)
				ref[d] = new(big.Int).Exp(ref[a], e, vlib.R)
			}
			for i := range reg {
				if g := val(&reg[i]); g.Cmp(ref[i]) != 0 {
					return fmt.Errorf("step %d (operation %d into register %d): register %d is %s, want %s", step, k, d, i, g, ref[i])
				}
			}
		}
		return checkConstants(false)
	})
}

func TestVF_C17_Random(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C17", Quick: 200, Thorough: 2000}, func(t *rapid.T) int {
		return rapid.IntRange(2, 40).Draw(t, "n")
	}, func(n int, o *vlib.Obs) error {
		o.NonTrivial = true
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			f := bls.RandomFr()
			v := val(f)
			if v.Cmp(vlib.R) >= 0 || v.Sign() < 0 {
				return fmt.Errorf("RandomFr gave %s", v)
			}
			if v.BitLen() < 128 {
				return fmt.Errorf("RandomFr gave the small value %s", v)
			}
			if seen[v.String()] {
				return fmt.Errorf("RandomFr repeated %s", v)
			}
			seen[v.String()] = true
			if g := fr(v); !bls.EqualFr(&g, f) {
				return fmt.Errorf("RandomFr gave a value that is not equal to its own text %s", v)
			}
		}
		return nil
	})
}
