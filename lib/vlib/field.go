package vlib

import "math/big"

// R is the order of the BLS12-381 groups.
var R, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)

// Poly is a polynomial over Z_R, constant term first.
type Poly []*big.Int

func B(v int64) *big.Int { return new(big.Int).Mod(big.NewInt(v), R) }

func Mod(v *big.Int) *big.Int { return new(big.Int).Mod(v, R) }
func Add(a, b *big.Int) *big.Int {
	return Mod(new(big.Int).Add(a, b))
}
func Sub(a, b *big.Int) *big.Int {
	return Mod(new(big.Int).Sub(a, b))
}
func Mul(a, b *big.Int) *big.Int {
	return Mod(new(big.Int).Mul(a, b))
}
func Inv(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, R) }

// Eval is Horner evaluation.
func (p Poly) Eval(x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(p) - 1; i >= 0; i-- {
		r.Mul(r, x)
		r.Add(r, p[i])
		r.Mod(r, R)
	}
	return r
}

// Deg is the degree (-1 for zero).
func (p Poly) Deg() int {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i].Sign() != 0 {
			return i
		}
	}
	return -1
}

// MulPoly is the schoolbook product.
func MulPoly(a, b Poly) Poly {
	if len(a) == 0 || len(b) == 0 {
		return Poly{}
	}
	r := make(Poly, len(a)+len(b)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range a {
		for j := range b {
			r[i+j] = Add(r[i+j], Mul(a[i], b[j]))
		}
	}
	return r
}

// AddPoly adds two polynomials.
func AddPoly(a, b Poly) Poly {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(Poly, n)
	for i := range r {
		r[i] = new(big.Int)
		if i < len(a) {
			r[i].Add(r[i], a[i])
		}
		if i < len(b) {
			r[i].Add(r[i], b[i])
		}
		r[i].Mod(r[i], R)
	}
	return r
}

// Scale multiplies by a constant.
func (p Poly) Scale(c *big.Int) Poly {
	r := make(Poly, len(p))
	for i := range p {
		r[i] = Mul(p[i], c)
	}
	return r
}

// DivMod is the schoolbook division by a polynomial with non-zero top coefficient.
func DivMod(a, b Poly) (q, rem Poly) {
	rem = make(Poly, len(a))
	for i := range a {
		rem[i] = new(big.Int).Set(a[i])
	}
	if len(a) < len(b) {
		return Poly{}, rem
	}
	q = make(Poly, len(a)-len(b)+1)
	inv := Inv(b[len(b)-1])
	for i := len(q) - 1; i >= 0; i-- {
		c := Mul(rem[i+len(b)-1], inv)
		q[i] = c
		for j := range b {
			rem[i+j] = Sub(rem[i+j], Mul(c, b[j]))
		}
	}
	return q, rem[:len(b)-1]
}

// Interpolate is the polynomial of degree < len(x) through the points.
func Interpolate(x, y []*big.Int) Poly {
	res := Poly{}
	for i := range x {
		num := Poly{B(1)}
		den := B(1)
		for j := range x {
			if j != i {
				num = MulPoly(num, Poly{Sub(B(0), x[j]), B(1)})
				den = Mul(den, Sub(x[i], x[j]))
			}
		}
		res = AddPoly(res, num.Scale(Mul(y[i], Inv(den))))
	}
	return res
}

// EqPoly compares up to leading zeroes.
func EqPoly(a, b Poly) bool {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		x, y := new(big.Int), new(big.Int)
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x.Cmp(y) != 0 {
			return false
		}
	}
	return true
}

// BiPoly is sum c[i][j] x^i y^j.
type BiPoly []Poly

// AtX fixes x: polynomial in y.
func (b BiPoly) AtX(x *big.Int) Poly {
	if len(b) == 0 {
		return Poly{}
	}
	r := make(Poly, len(b[0]))
	for j := range r {
		col := make(Poly, len(b))
		for i := range b {
			col[i] = b[i][j]
		}
		r[j] = col.Eval(x)
	}
	return r
}

// AtY fixes y: polynomial in x.
func (b BiPoly) AtY(y *big.Int) Poly {
	r := make(Poly, len(b))
	for i := range b {
		r[i] = b[i].Eval(y)
	}
	return r
}

// Rng is a small deterministic generator (splitmix64) for expanding drawn seeds.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}
func (r *Rng) Scalar() *big.Int { return Mod(new(big.Int).SetBytes(r.Bytes(40))) }
func (r *Rng) Read(b []byte) (int, error) {
	for i := 0; i < len(b); {
		v := r.U64()
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return len(b), nil
}
