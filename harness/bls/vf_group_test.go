//go:build !bignum_pure && !bignum_hol256
// +build !bignum_pure,!bignum_hol256

package vfbls

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

var fieldP, _ = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)

// g1 builds the point with the given exponent in one of several
// representations (affine, or the projective result of a computation).
func g1(e *big.Int, rep int) bls.G1Point {
	var p bls.G1Point
	switch rep % 3 {
	case 0:
		f := fr(e)
		bls.MulG1(&p, &bls.GenG1, &f)
	case 1:
		f, one := fr(vlib.Sub(e, vlib.B(5))), fr(vlib.B(5))
		var q bls.G1Point
		bls.MulG1(&q, &bls.GenG1, &f)
		bls.MulG1(&p, &bls.GenG1, &one)
		bls.AddG1(&p, &p, &q)
	case 2:
		if e.Sign() == 0 {
			return bls.ZeroG1
		}
		q, err := bls.FromCompressedG1(refG1(e))
		if err != nil {
			panic(fmt.Sprintf("valid encoding refused: %v", err))
		}
		p = *q
	}
	return p
}

func g2(e *big.Int, rep int) bls.G2Point {
	var p bls.G2Point
	switch rep % 3 {
	case 0:
		f := fr(e)
		bls.MulG2(&p, &bls.GenG2, &f)
	case 1:
		f, one := fr(vlib.Sub(e, vlib.B(5))), fr(vlib.B(5))
		var q bls.G2Point
		bls.MulG2(&q, &bls.GenG2, &f)
		bls.MulG2(&p, &bls.GenG2, &one)
		bls.AddG2(&p, &p, &q)
	case 2:
		if e.Sign() == 0 {
			return bls.ZeroG2
		}
		q, err := bls.FromCompressedG2(refG2(e))
		if err != nil {
			panic(fmt.Sprintf("valid encoding refused: %v", err))
		}
		p = *q
	}
	return p
}

func isG1(p *bls.G1Point, e *big.Int, what string) error {
	if got, want := bls.ToCompressedG1(p), refG1(e); !bytes.Equal(got, want) {
		return fmt.Errorf("%s is %x, want %x (exponent %s)", what, got, want, e)
	}
	return nil
}

func isG2(p *bls.G2Point, e *big.Int, what string) error {
	if got, want := bls.ToCompressedG2(p), refG2(e); !bytes.Equal(got, want) {
		return fmt.Errorf("%s is %x, want %x (exponent %s)", what, got, want, e)
	}
	return nil
}

func groupConstants() error {
	for _, c := range []struct {
		n string
		p *bls.G1Point
		e int64
	}{{"GenG1", &bls.GenG1, 1}, {"ZeroG1", &bls.ZeroG1, 0}, {"ZERO_G1", &bls.ZERO_G1, 0}} {
		if err := isG1(c.p, vlib.B(c.e), "shared point "+c.n); err != nil {
			return err
		}
	}
	if err := isG2(&bls.GenG2, vlib.B(1), "shared point GenG2"); err != nil {
		return err
	}
	return isG2(&bls.ZeroG2, vlib.B(0), "shared point ZeroG2")
}

type gCase struct {
	G2    bool   `json:"g2"`
	Op    string `json:"op"`
	A     string `json:"a"`
	B     string `json:"b"`
	Rel   int    `json:"rel"` // 0 independent, 1 b=a, 2 b=-a
	RepA  int    `json:"repa"`
	RepB  int    `json:"repb"`
	Alias int    `json:"alias"`
}

// printed compares the printed forms of two points in two representations each.
func printed(c gCase, a, b *big.Int) error {
	var sa, sb [2]string
	for i := range sa {
		if c.G2 {
			pa, pb := g2(a, c.RepA+i), g2(b, c.RepB+i)
			sa[i], sb[i] = bls.StrG2(&pa), pb.String()
		} else {
			pa, pb := g1(a, c.RepA+i), g1(b, c.RepB+i)
			sa[i], sb[i] = bls.StrG1(&pa), pb.String()
		}
	}
	if sa[0] != sa[1] || sb[0] != sb[1] {
		return fmt.Errorf("one point is printed in two ways: %q and %q, %q and %q", sa[0], sa[1], sb[0], sb[1])
	}
	if (sa[0] == sb[0]) != (a.Cmp(b) == 0) {
		return fmt.Errorf("points with exponents %s and %s are printed as %q and %q", a, b, sa[0], sb[0])
	}
	return nil
}

func TestVF_C18_Ops(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C18", Quick: 5000, Thorough: 100000}, func(t *rapid.T) gCase {
		return gCase{
			rapid.Bool().Draw(t, "g2"),
			rapid.SampledFrom([]string{"add", "sub", "neg", "mul", "copy", "clear"}).Draw(t, "op"),
			vlib.ScalarGen().Draw(t, "a"), vlib.ScalarGen().Draw(t, "b"),
			rapid.IntRange(0, 4).Draw(t, "rel"),
			rapid.IntRange(0, 2).Draw(t, "repa"), rapid.IntRange(0, 2).Draw(t, "repb"),
			rapid.IntRange(0, 3).Draw(t, "alias"),
		}
	}, func(c gCase, o *vlib.Obs) error {
		a, b := vlib.Big(c.A), vlib.Big(c.B)
		if c.Op != "mul" {
			if c.Rel == 1 {
				b = a
			} else if c.Rel == 2 {
				b = vlib.Sub(vlib.B(0), a)
			}
		}
		var want *big.Int
		switch c.Op {
		case "add":
			want = vlib.Add(a, b)
		case "sub":
			want = vlib.Sub(a, b)
		case "neg":
			want = vlib.Sub(vlib.B(0), a)
		case "mul":
			want = vlib.Mul(a, b)
		case "copy":
			want = a
		case "clear":
			want = vlib.B(0)
		}
		o.NonTrivial = a.Cmp(big.NewInt(1)) > 0 && b.Sign() != 0
		o.Class("%s", c.Op)
		fb := fr(b)
		if err := printed(c, a, b); err != nil {
			return err
		}
		if c.G2 {
			pa, pb := g2(a, c.RepA), g2(b, c.RepB)
			d := g2(vlib.B(77), 0)
			pd, xa, xb := &d, &pa, &pb
			switch c.Alias {
			case 1:
				pd = xa
			case 2:
				pd = xb
			case 3:
				if c.Rel == 1 && c.Op != "mul" {
					xb, pd = xa, xa
				}
			}
			switch c.Op {
			case "add":
				bls.AddG2(pd, xa, xb)
			case "sub":
				bls.SubG2(pd, xa, xb)
			case "neg":
				bls.CopyG2(pd, xa)
				bls.NegG2(pd)
			case "mul":
				bls.MulG2(pd, xa, &fb)
			case "copy":
				bls.CopyG2(pd, xa)
			case "clear":
				bls.ClearG2(pd)
			}
			if err := isG2(pd, want, fmt.Sprintf("G2 %s of exponents %s, %s", c.Op, a, b)); err != nil {
				return err
			}
			w := g2(want, c.RepB)
			if !bls.EqualG2(pd, &w) || !bls.EqualG2(&w, pd) {
				return fmt.Errorf("EqualG2 is false on equal points (exponent %s)", want)
			}
			w = g2(vlib.Add(want, vlib.B(1)), c.RepA)
			if bls.EqualG2(pd, &w) || bls.EqualG2(&w, pd) {
				return fmt.Errorf("EqualG2 is true on different points (exponent %s)", want)
			}
			if pd != xa {
				if err := isG2(xa, a, "first operand after G2 "+c.Op); err != nil {
					return err
				}
			}
			if pd != xb && xb != xa {
				if err := isG2(xb, b, "second operand after G2 "+c.Op); err != nil {
					return err
				}
			}
		} else {
			pa, pb := g1(a, c.RepA), g1(b, c.RepB)
			d := g1(vlib.B(77), 0)
			pd, xa, xb := &d, &pa, &pb
			switch c.Alias {
			case 1:
				pd = xa
			case 2:
				pd = xb
			case 3:
				if c.Rel == 1 && c.Op != "mul" {
					xb, pd = xa, xa
				}
			}
			switch c.Op {
			case "add":
				bls.AddG1(pd, xa, xb)
			case "sub":
				bls.SubG1(pd, xa, xb)
			case "neg":
				bls.CopyG1(pd, xa)
				bls.NegG1(pd)
			case "mul":
				bls.MulG1(pd, xa, &fb)
			case "copy":
				bls.CopyG1(pd, xa)
			case "clear":
				bls.ClearG1(pd)
			}
			if err := isG1(pd, want, fmt.Sprintf("G1 %s of exponents %s, %s", c.Op, a, b)); err != nil {
				return err
			}
			w := g1(want, c.RepB)
			if !bls.EqualG1(pd, &w) || !bls.EqualG1(&w, pd) {
				return fmt.Errorf("EqualG1 is false on equal points (exponent %s)", want)
			}
			w = g1(vlib.Add(want, vlib.B(1)), c.RepA)
			if bls.EqualG1(pd, &w) || bls.EqualG1(&w, pd) {
				return fmt.Errorf("EqualG1 is true on different points (exponent %s)", want)
			}
			if pd != xa {
				if err := isG1(xa, a, "first operand after G1 "+c.Op); err != nil {
					return err
				}
			}
			if pd != xb && xb != xa {
				if err := isG1(xb, b, "second operand after G1 "+c.Op); err != nil {
					return err
				}
			}
		}
		if g := val(&fb); g.Cmp(b) != 0 {
			return fmt.Errorf("multiplication changed the scalar from %s to %s", b, g)
		}
		return groupConstants()
	})
}

type lcCase struct {
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
}

func TestVF_C18_LinComb(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C18", Quick: 480, Thorough: 6000}, func(t *rapid.T) lcCase {
		return lcCase{rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 70)).Draw(t, "n"), rapid.Uint64().Draw(t, "seed")}
	}, func(c lcCase, o *vlib.Obs) error {
		r := vlib.NewRng(c.Seed ^ 0x77)
		es := vlib.SeededScalars(c.Seed, c.N)
		fs := vlib.SeededScalars(c.Seed+1, c.N)
		pts := make([]bls.G1Point, c.N)
		for i := range pts {
			if i > 0 && r.Intn(5) == 0 {
				es[i] = es[r.Intn(i)]
			} else if i > 0 && r.Intn(6) == 0 {
				es[i] = vlib.Sub(vlib.B(0), es[i-1])
			}
			pts[i] = g1(es[i], r.Intn(3))
		}
		if c.N > 1 && r.Intn(4) == 0 {
			for i := range fs {
				fs[i] = fs[0]
			}
		}
		ff := frVec(fs)
		want := vlib.B(0)
		for i := range es {
			want = vlib.Add(want, vlib.Mul(es[i], fs[i]))
		}
		o.NonTrivial = c.N > 1 && want.Sign() != 0
		o.Class("32 points or more: %v", c.N >= 32)
		got := bls.LinCombG1(pts, ff)
		if err := isG1(got, want, fmt.Sprintf("LinCombG1 of %d points", c.N)); err != nil {
			return err
		}
		if err := sameVec("factors after LinCombG1", ff, fs); err != nil {
			return err
		}
		for i := range pts {
			if err := isG1(&pts[i], es[i], fmt.Sprintf("point %d after LinCombG1", i)); err != nil {
				return err
			}
		}
		// the order does not matter
		perm := make([]int, c.N)
		for i := range perm {
			j := r.Intn(i + 1)
			perm[i] = perm[j]
			perm[j] = i
		}
		p2, f2 := make([]bls.G1Point, c.N), make([]bls.Fr, c.N)
		for i, j := range perm {
			p2[i], f2[i] = pts[j], ff[j]
		}
		if err := isG1(bls.LinCombG1(p2, f2), want, "permuted LinCombG1"); err != nil {
			return err
		}
		// factors missing or too many
		for _, n := range []int{c.N - 1, c.N + 1} {
			if n < 0 {
				continue
			}
			if got := lincomb(pts, frVec(vlib.SeededScalars(c.Seed+1, n))); got != nil {
				return fmt.Errorf("LinCombG1 of %d points and %d factors is not refused", c.N, n)
			}
		}
		return groupConstants()
	})
}

// lincomb returns nil when the operands are refused.
func lincomb(p []bls.G1Point, f []bls.Fr) (res *bls.G1Point) {
	defer func() { _ = recover() }()
	return bls.LinCombG1(p, f)
}

type pairCase struct {
	A, B, C, D string
	Equal      bool
	Rep        int
}

func TestVF_C18_Pairing(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C18", Quick: 500, Thorough: 8000}, func(t *rapid.T) pairCase {
		return pairCase{vlib.ScalarGen().Draw(t, "a"), vlib.ScalarGen().Draw(t, "b"), vlib.ScalarGen().Draw(t, "c"),
			vlib.ScalarGen().Draw(t, "d"), rapid.Bool().Draw(t, "eq"), rapid.IntRange(0, 80).Draw(t, "rep")}
	}, func(c pairCase, o *vlib.Obs) error {
		a, b, x, d := vlib.Big(c.A), vlib.Big(c.B), vlib.Big(c.C), vlib.Big(c.D)
		if c.Equal && x.Sign() != 0 {
			d = vlib.Mul(vlib.Mul(a, b), vlib.Inv(x))
		}
		want := vlib.Mul(a, b).Cmp(vlib.Mul(x, d)) == 0
		o.NonTrivial = a.Sign() != 0 && b.Sign() != 0
		o.Class("equal %v", want)
		p1, p2, p3, p4 := g1(a, c.Rep), g2(b, c.Rep/3), g1(x, c.Rep/9), g2(d, c.Rep/27)
		if got := bls.PairingsVerify(&p1, &p2, &p3, &p4); got != want {
			return fmt.Errorf("PairingsVerify(%s,%s,%s,%s) = %v", a, b, x, d, got)
		}
		for _, e := range []error{isG1(&p1, a, "pairing input"), isG2(&p2, b, "pairing input"), isG1(&p3, x, "pairing input"), isG2(&p4, d, "pairing input")} {
			if e != nil {
				return e
			}
		}
		// the same points on both sides, shared
		if !bls.PairingsVerify(&p1, &p2, &p1, &p2) {
			return fmt.Errorf("e(P,Q) is not equal to itself (exponents %s, %s)", a, b)
		}
		return groupConstants()
	})
}

type gencCase struct {
	G2   bool   `json:"g2"`
	E    string `json:"e"`
	Mut  string `json:"mut"`
	Pos  int    `json:"pos"`
	Val  byte   `json:"val"`
	Seed uint64 `json:"seed"`
	Len  int    `json:"len"`
}

func TestVF_C18_Encoding(t *testing.T) {
	muts := []string{"none", "none", "sign", "xbit", "flags", "len", "plusp", "random", "badinf", "torsion", "byte", "xonly"}
	vlib.Check(t, vlib.Opt{ID: "C18", Quick: 6000, Thorough: 100000}, func(t *rapid.T) gencCase {
		return gencCase{rapid.Bool().Draw(t, "g2"), vlib.ScalarGen().Draw(t, "e"), rapid.SampledFrom(muts).Draw(t, "mut"),
			rapid.IntRange(0, 95).Draw(t, "pos"), rapid.Byte().Draw(t, "val"), rapid.Uint64().Draw(t, "seed"), rapid.IntRange(0, 100).Draw(t, "len")}
	}, func(c gencCase, o *vlib.Obs) error {
		e := vlib.Big(c.E)
		n := 48
		var enc []byte
		if c.G2 {
			n = 96
			p := g2(e, int(c.Seed%3))
			enc = bls.ToCompressedG2(&p)
			if !bytes.Equal(enc, refG2(e)) {
				return fmt.Errorf("ToCompressedG2 of exponent %s is %x, want %x", e, enc, refG2(e))
			}
		} else {
			p := g1(e, int(c.Seed%3))
			enc = bls.ToCompressedG1(&p)
			if !bytes.Equal(enc, refG1(e)) {
				return fmt.Errorf("ToCompressedG1 of exponent %s is %x, want %x", e, enc, refG1(e))
			}
		}
		if len(enc) != n {
			return fmt.Errorf("encoding has %d bytes", len(enc))
		}
		in := append([]byte{}, enc...)
		want := e // exponent of the decoded point, nil when it must be refused
		rng := vlib.NewRng(c.Seed)
		switch c.Mut {
		case "none":
		case "sign":
			if e.Sign() == 0 {
				in[0] ^= 0x20
				want = nil
			} else {
				in[0] ^= 0x20
				want = vlib.Sub(vlib.B(0), e)
			}
		case "xbit":
			i := c.Pos % n
			bit := byte(1) << (c.Val % 8)
			if i == 0 {
				bit = 1 << (c.Val % 5)
			}
			in[i] ^= bit
			want = nil
		case "byte":
			i := 1 + c.Pos%(n-1)
			if in[i] != c.Val {
				want = nil
			}
			in[i] = c.Val
		case "flags":
			f := c.Val & 0xe0
			nv := in[0]&0x1f | f
			switch {
			case nv == in[0]:
			case f&0x80 == 0, f&0x40 != 0: // not compressed, or infinity with a coordinate
				want = nil
			case e.Sign() == 0: // x = 0 is on the curve but not in the group
				want = nil
			default:
				want = vlib.Sub(vlib.B(0), e)
			}
			in[0] = nv
		case "len":
			want = nil
			l := c.Len
			if l == n {
				l++
			}
			for len(in) < l {
				in = append(in, c.Val)
			}
			in = in[:l]
		case "plusp": // the same coordinate, not reduced
			off := 0
			if c.G2 {
				off = (c.Pos % 2) * 48
			}
			fl := byte(0)
			if off == 0 {
				fl = in[0] & 0xe0
				in[0] &= 0x1f
			}
			x := new(big.Int).SetBytes(in[off : off+48])
			x.Add(x, fieldP)
			lim := uint(384)
			if off == 0 {
				lim = 381
			}
			if e.Sign() == 0 || x.BitLen() > int(lim) {
				in[0] |= fl
				break
			}
			x.FillBytes(in[off : off+48])
			in[0] |= fl
			want = nil
		case "random":
			in = rng.Bytes(n)
			in[0] = in[0]&0x9f&0xbf | 0x80
			want = nil
		case "badinf":
			in = make([]byte, n)
			in[0] = 0xc0
			want = vlib.B(0)
			if c.Val != 0 {
				if c.Pos%n == 0 {
					in[0] |= c.Val
					if in[0] != 0xc0 {
						want = nil
					}
				} else {
					in[c.Pos%n] = c.Val
					want = nil
				}
			}
		case "torsion", "xonly": // x = 0 gives points of order 3 on G1; small coordinates
			in = make([]byte, n)
			in[0] = 0x80 | c.Val&0x20
			if c.Mut == "xonly" {
				in[n-1] = c.Val
			}
			want = nil
			if c.Mut == "torsion" && !c.G2 && e.Sign() != 0 {
				// P + (0, 2): on the curve, right order times three
				in = addTorsion(refG1(e), refG1Y(e))
			}
		}
		o.NonTrivial = true
		o.Class("%s", c.Mut)
		txt := hex.EncodeToString(in)
		if c.G2 {
			p, err := bls.FromCompressedG2(in)
			var q bls.G2Point
			terr := (&q).UnmarshalText([]byte(txt))
			if (err == nil) != (want != nil) {
				return fmt.Errorf("FromCompressedG2(%x) [%s] error %v", in, c.Mut, err)
			}
			if (terr == nil) != (want != nil) {
				return fmt.Errorf("G2 UnmarshalText(%x) [%s] error %v", in, c.Mut, terr)
			}
			if want != nil {
				if e := isG2(p, want, "decoded point"); e != nil {
					return e
				}
				w := g2(want, 0)
				if !bls.EqualG2(p, &w) || !bls.EqualG2(&q, &w) {
					return fmt.Errorf("decoded G2 point differs")
				}
				if m, _ := p.MarshalText(); string(m) != txt {
					return fmt.Errorf("text encoding of a G2 point %s, want %s", m, txt)
				}
			}
		} else {
			p, err := bls.FromCompressedG1(in)
			var q bls.G1Point
			terr := (&q).UnmarshalText([]byte(txt))
			if (err == nil) != (want != nil) {
				return fmt.Errorf("FromCompressedG1(%x) [%s] error %v", in, c.Mut, err)
			}
			if (terr == nil) != (want != nil) {
				return fmt.Errorf("G1 UnmarshalText(%x) [%s] error %v", in, c.Mut, terr)
			}
			if want != nil {
				if e := isG1(p, want, "decoded point"); e != nil {
					return e
				}
				w := g1(want, 0)
				if !bls.EqualG1(p, &w) || !bls.EqualG1(&q, &w) {
					return fmt.Errorf("decoded G1 point differs")
				}
				if m, _ := p.MarshalText(); string(m) != txt {
					return fmt.Errorf("text encoding of a G1 point %s, want %s", m, txt)
				}
			}
		}
		return nil
	})
}

// addTorsion adds the point (0, 2) of order three.
func addTorsion(comp []byte, y *big.Int) []byte {
	p := fieldP
	in := append([]byte{}, comp...)
	in[0] &= 0x1f
	x := new(big.Int).SetBytes(in)
	// slope (y - 2) / x
	l := new(big.Int).Sub(y, big.NewInt(2))
	l.Mul(l, new(big.Int).ModInverse(x, p)).Mod(l, p)
	x3 := new(big.Int).Mul(l, l)
	x3.Sub(x3, x).Mod(x3, p)
	y3 := new(big.Int).Mul(l, x3)
	y3.Add(y3, big.NewInt(2)).Neg(y3).Mod(y3, p)
	out := make([]byte, 48)
	x3.FillBytes(out)
	out[0] |= 0x80
	if y3.Cmp(new(big.Int).Rsh(p, 1)) > 0 {
		out[0] |= 0x20
	}
	return out
}
