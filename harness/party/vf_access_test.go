package party

// The only file of the harness that touches unexported names of the package:
// those that the package's own tests use, and others by their place among the
// fields of their type, so that they may be renamed.

import (
	"reflect"
	"sync"
	"unsafe"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// vfField is the field of a struct by its name, or else the nth of its type.
func vfField[T any, S any](s *S, name string, nth int) *T {
	v := reflect.ValueOf(s).Elem()
	want := reflect.TypeOf((*T)(nil)).Elem()
	if f, ok := v.Type().FieldByName(name); ok && f.Type == want {
		return (*T)(unsafe.Pointer(uintptr(unsafe.Pointer(s)) + f.Offset))
	}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.Type == want {
			if nth == 0 {
				return (*T)(unsafe.Pointer(uintptr(unsafe.Pointer(s)) + f.Offset))
			}
			nth--
		}
	}
	panic("the harness does not find the field " + name)
}

func vfTable(p *HonestParty) [][]bls.Fr { return p.LagrangeCoefficients }

// vfWire connects a member to the harness's network in place of TCP links.
func vfWire(p *HonestParty, send, next []chan *protobuf.Message, recv chan *protobuf.Message) {
	if send != nil {
		*vfField[[]chan *protobuf.Message](p, "sendChannels", 0) = send
	}
	if next != nil {
		*vfField[[]chan *protobuf.Message](p, "sendToNextChannels", 1) = next
	}
	if recv != nil {
		*vfField[*sync.Map](p, "dispatchChannels", 0) = core.MakeDispatcheChannels(recv, p.N)
	}
}

func vfPiContent(pi *Pi, j int) (cb, cz, wz, gf *bls.G1Point, idx *uint32) {
	c := &pi.PiContents[j]
	return &c.CBj, &c.CZj, &c.WZ0, &c.gFj, vfField[uint32](c, "j", 0)
}

func vfWitnessP(p *HonestParty) *[]bls.G1Point     { return vfField[[]bls.G1Point](p, "witness", 0) }
func vfIndexesP(p *HonestParty) *[]bls.Fr          { return vfField[[]bls.Fr](p, "witnessIndexes", 2) }
func vfFullShare(p *HonestParty) []bls.Fr          { return p.fullShare }
func vfReducedShare(p *HonestParty) []bls.Fr       { return p.reducedShare }
func vfWitness(p *HonestParty) []bls.G1Point       { return *vfWitnessP(p) }
func vfWitnessIndexes(p *HonestParty) []bls.Fr     { return *vfIndexesP(p) }
func vfSetFullShare(p *HonestParty, v []bls.Fr)    { p.fullShare = v }
func vfSetReducedShare(p *HonestParty, v []bls.Fr) { p.reducedShare = v }

// vfFreeze copies what a member keeps of a sharing.
func vfFreeze(p *HonestParty) *HonestParty {
	c := &HonestParty{PID: p.PID, F: p.F, N: p.N, Proof: new(Pi)}
	c.Proof.Init(p.F)
	c.Proof.Set(p.Proof, p.F)
	c.fullShare = append(c.fullShare, p.fullShare...)
	c.reducedShare = append(c.reducedShare, p.reducedShare...)
	*vfWitnessP(c) = append([]bls.G1Point(nil), vfWitness(p)...)
	*vfIndexesP(c) = append([]bls.Fr(nil), vfWitnessIndexes(p)...)
	return c
}
