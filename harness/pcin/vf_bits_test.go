package polycommit

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"pgregory.net/rapid"
	"verif/lib/vlib"
)

type vfBitsCase struct {
	K    uint8  `json:"k"`
	N    int    `json:"n"` // length that need not be a power of two
	Seed uint64 `json:"seed"`
}

func vfRev(i uint32, k uint8) uint32 {
	r := uint32(0)
	for b := uint8(0); b < k; b++ {
		if i>>b&1 == 1 {
			r |= 1 << (k - 1 - b)
		}
	}
	return r
}

func TestVF_C15_BitReversal(t *testing.T) {
	vlib.Check(t, vlib.Opt{ID: "C15", Quick: 1500, Thorough: 10000}, func(t *rapid.T) vfBitsCase {
		return vfBitsCase{uint8(rapid.IntRange(0, 10).Draw(t, "k")), rapid.IntRange(1, 1100).Draw(t, "n"), rapid.Uint64().Draw(t, "seed")}
	}, func(c vfBitsCase, o *vlib.Obs) error {
		n := 1 << c.K
		o.NonTrivial = n > 2
		o.Class("length %d", n)
		v := vlib.SeededScalars(c.Seed, n)
		fs := make([]bls.Fr, n)
		ptr := make([]*bls.Fr, n)
		orig := make([]*bls.Fr, n)
		for i := range v {
			bls.SetFr(&fs[i], v[i].String())
			f := new(bls.Fr)
			bls.SetFr(f, v[i].String())
			if i%3 != int(c.Seed%3) {
				ptr[i] = f
			}
			orig[i] = ptr[i]
		}
		reverseBitOrderFr(fs)
		reverseBitOrderFrPtr(ptr)
		for i := range v {
			j := vfRev(uint32(i), c.K)
			if g := reverseBitsLimited(uint32(n), uint32(i)); g != j {
				return fmt.Errorf("reverseBitsLimited(%d, %d) = %d, want %d", n, i, g, j)
			}
			if bls.FrStr(&fs[i]) != v[j].String() {
				return fmt.Errorf("position %d of the reversed list of %d is not element %d", i, n, j)
			}
			if ptr[i] != orig[j] {
				return fmt.Errorf("position %d of the reversed pointer list of %d is not element %d", i, n, j)
			}
		}
		reverseBitOrderFr(fs)
		reverseBitOrderFrPtr(ptr)
		for i := range v {
			if bls.FrStr(&fs[i]) != v[i].String() || ptr[i] != orig[i] {
				return fmt.Errorf("reversing twice moved element %d of %d", i, n)
			}
		}
		w := uint32(c.Seed)
		if g := reverseBits(w); g != vfRev(w, 32) {
			return fmt.Errorf("reverseBits(%x) = %x", w, g)
		}
		w >>= uint((c.Seed >> 32) % 32)
		if w != 0 {
			if g := bitIndex(w); int(g) != new(big.Int).SetUint64(uint64(w)).BitLen()-1 {
				return fmt.Errorf("bitIndex(%x) = %d", w, g)
			}
		}
		// a length that is not a power of two is refused
		if c.N&(c.N-1) != 0 {
			refused := false
			func() {
				defer func() { refused = recover() != nil }()
				reverseBitOrder(uint32(c.N), func(i, j uint32) {})
			}()
			if !refused {
				return fmt.Errorf("bit reversal of %d elements is accepted", c.N)
			}
		}
		return nil
	})
}
