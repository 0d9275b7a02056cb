package vlib

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"
)

// ScalarGen draws field elements with the edges well represented, as decimal strings.
func ScalarGen() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "class") {
		case 0:
			return "0"
		case 1:
			return "1"
		case 2:
			return fmt.Sprint(rapid.Uint64Range(0, 200).Draw(t, "small"))
		case 3: // close to the order
			return new(big.Int).Sub(R, new(big.Int).SetUint64(rapid.Uint64Range(1, 300).Draw(t, "below"))).String()
		case 4: // around a power of two
			k := rapid.UintRange(0, 254).Draw(t, "bit")
			d := rapid.IntRange(-2, 2).Draw(t, "d")
			v := new(big.Int).Lsh(big.NewInt(1), k)
			v.Add(v, big.NewInt(int64(d)))
			return Mod(v).String()
		case 5:
			return fmt.Sprint(rapid.Uint64().Draw(t, "u64"))
		default:
			hi := rapid.Uint64().Draw(t, "w3")
			v := new(big.Int).SetUint64(hi)
			for i := 0; i < 3; i++ {
				v.Lsh(v, 64)
				v.Add(v, new(big.Int).SetUint64(rapid.Uint64().Draw(t, "w")))
			}
			return Mod(v).String()
		}
	})
}

// SeededScalars expands a drawn seed into n scalars in which edge values occur.
func SeededScalars(seed uint64, n int) []*big.Int {
	r := NewRng(seed)
	mode := r.Intn(6)
	out := make([]*big.Int, n)
	for i := range out {
		switch {
		case mode == 0:
			out[i] = B(int64(r.Intn(3)))
		case mode == 1 && r.Intn(2) == 0:
			out[i] = B(0)
		case mode == 2 && r.Intn(3) == 0:
			out[i] = B(int64(-1 - r.Intn(3)))
		default:
			out[i] = r.Scalar()
		}
	}
	return out
}

// Big parses a decimal string.
func Big(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad number " + s)
	}
	return v
}
