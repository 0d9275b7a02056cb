From 496ff95d9ed589c8a94a3d6b2187dd95f126c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 01/43] fix: encode scalars with leading zero bytes in the
 hol256 and pure backends

FrTo32 assumed that the minimal big-endian encoding has 32 bytes, and
panicked or returned other bytes for smaller scalars.
---
 internal/bls/bignum_hol256.go | 7 +++----
 internal/bls/bignum_pure.go   | 9 ++++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/bls/bignum_hol256.go b/internal/bls/bignum_hol256.go
index 6873c39..801b520 100755
--- a/internal/bls/bignum_hol256.go
+++ b/internal/bls/bignum_hol256.go
@@ -48,13 +48,12 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*u256.Int)(src).Bytes()
-	last := len(b) - 1
+	v = (*u256.Int)(src).Bytes32()
+	last := len(v) - 1
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
-		b[i], b[last-i] = b[last-i], b[i]
+		v[i], v[last-i] = v[last-i], v[i]
 	}
-	copy(v[:], b)
 	return
 }
 
diff --git a/internal/bls/bignum_pure.go b/internal/bls/bignum_pure.go
index 40c74c8..6c2ff6a 100755
--- a/internal/bls/bignum_pure.go
+++ b/internal/bls/bignum_pure.go
@@ -36,13 +36,12 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*big.Int)(src).Bytes()
-	last := len(b) - 1
-	// reverse endianness, u256.Int outputs big-endian bytes
+	(*big.Int)(src).FillBytes(v[:])
+	last := len(v) - 1
+	// reverse endianness, big.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
-		b[i], b[last-i] = b[last-i], b[i]
+		v[i], v[last-i] = v[last-i], v[i]
 	}
-	copy(v[:], b)
 	return
 }
 
-- 
2.43.0


From cdfa661498f889db248265477afaa9ccf5dc44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 02/43] fix: AsFr of values from 2^63 on in the herumi backend

SetInt64 takes a signed value, so these came out negative.
---
 internal/bls/bignum_hbls.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/bls/bignum_hbls.go b/internal/bls/bignum_hbls.go
index 30a72a1..162842b 100755
--- a/internal/bls/bignum_hbls.go
+++ b/internal/bls/bignum_hbls.go
@@ -7,6 +7,7 @@ forked from https://github.com/protolambda/go-kzg at Feb 2,2023
 package bls
 
 import (
+	"encoding/binary"
 	"math/big"
 	"unsafe"
 
@@ -60,7 +61,9 @@ func CopyFr(dst *Fr, v *Fr) {
 }
 
 func AsFr(dst *Fr, i uint64) {
-	(*hbls.Fr)(dst).SetInt64(int64(i))
+	var data [8]byte
+	binary.LittleEndian.PutUint64(data[:], i)
+	(*hbls.Fr)(dst).SetLittleEndian(data[:])
 }
 
 func FrStr(b *Fr) string {
-- 
2.43.0


From 896862b7ffb91e714026a76ad1aac6c5719181a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 03/43] fix: points at infinity of the herumi backend in
 pairings

With Z = 0 but X = Y = 1 they compared equal to infinity, but
PairingsVerify treated them as another point.
---
 internal/bls/bls_hbls.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/internal/bls/bls_hbls.go b/internal/bls/bls_hbls.go
index 88cb9fe..308ae76 100755
--- a/internal/bls/bls_hbls.go
+++ b/internal/bls/bls_hbls.go
@@ -34,16 +34,9 @@ func initG1G2() {
 	GenG2.Z.D[0].SetInt64(1)
 	GenG2.Z.D[1].Clear()
 
-	ZeroG1.X.SetInt64(1)
-	ZeroG1.Y.SetInt64(1)
-	ZeroG1.Z.SetInt64(0)
-
-	ZeroG2.X.D[0].SetInt64(1)
-	ZeroG2.X.D[1].SetInt64(0)
-	ZeroG2.Y.D[0].SetInt64(1)
-	ZeroG2.Y.D[1].SetInt64(0)
-	ZeroG2.Z.D[0].SetInt64(0)
-	ZeroG2.Z.D[1].SetInt64(0)
+	// The library's pairing only knows the all-zero representation of infinity.
+	ClearG1(&ZeroG1)
+	ClearG2(&ZeroG2)
 }
 
 // TODO types file, swap BLS with build args
-- 
2.43.0


From 2beff3b7f6e8d604e28a1ce0ef3d9e1f91cbfc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 04/43] fix: refuse non-canonical point encodings in the herumi
 backend

Deserialize accepts the infinity flag with other bits set.
---
 internal/bls/bls_hbls.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/bls/bls_hbls.go b/internal/bls/bls_hbls.go
index 308ae76..2eddc68 100755
--- a/internal/bls/bls_hbls.go
+++ b/internal/bls/bls_hbls.go
@@ -7,6 +7,8 @@ forked from https://github.com/protolambda/go-kzg at Feb 2,2023
 package bls
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
 	hbls "github.com/herumi/bls-eth-go-binary/bls"
 	"strings"
@@ -119,6 +121,9 @@ func FromCompressedG1(v []byte) (*G1Point, error) {
 	if err := pub.Deserialize(v); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(pub.Serialize(), v) {
+		return nil, errors.New("not the encoding of a G1 point")
+	}
 	p := hbls.CastFromPublicKey(&pub)
 	return (*G1Point)(p), nil
 }
@@ -132,6 +137,9 @@ func FromCompressedG2(v []byte) (*G2Point, error) {
 	if err := sig.Deserialize(v); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(sig.Serialize(), v) {
+		return nil, errors.New("not the encoding of a G2 point")
+	}
 	p := hbls.CastFromSign(&sig)
 	return (*G2Point)(p), nil
 }
-- 
2.43.0


From 184c999ec908a1e78e01c0b56b827ed9793fca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 05/43] fix: refuse to bit-reverse lengths that are no power of
 two

---
 internal/polycommit/reverse_bit_order.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/polycommit/reverse_bit_order.go b/internal/polycommit/reverse_bit_order.go
index cfbccea..b3cd0f8 100755
--- a/internal/polycommit/reverse_bit_order.go
+++ b/internal/polycommit/reverse_bit_order.go
@@ -88,7 +88,7 @@ func reverseBitsLimited(length uint32, value uint32) uint32 {
 }
 
 func reverseBitOrder(length uint32, swap func(i, j uint32)) {
-	if !(length > 0 || (length&(length-1) == 0)) {
+	if length == 0 || length&(length-1) != 0 {
 		panic("length is not a power of 2")
 	}
 	// swap bits:
-- 
2.43.0


From bcd83451098f04dc2e58ab1940139e2192932858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 06/43] fix: DAS extension of fewer values than half the domain

---
 internal/polycommit/das_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/polycommit/das_extension.go b/internal/polycommit/das_extension.go
index c493a48..a0b336f 100755
--- a/internal/polycommit/das_extension.go
+++ b/internal/polycommit/das_extension.go
@@ -75,7 +75,7 @@ func (fs *FFTSettings) DASFFTExtension(vals []bls.Fr) {
 	if uint64(len(vals))*2 > fs.MaxWidth {
 		panic("domain too small for extending requested values")
 	}
-	fs.dASFFTExtension(vals, 1)
+	fs.dASFFTExtension(vals, fs.MaxWidth/(2*uint64(len(vals))))
 	// The above function didn't perform the divide by 2 on every layer.
 	// So now do it all at once, by dividing by 2**depth (=length).
 	var invLen bls.Fr
-- 
2.43.0


From 873f443b5c530864b4f9b11df277fd8f6f00afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 07/43] fix: recovery from samples of which none is missing

---
 internal/polycommit/zero_poly.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/zero_poly.go b/internal/polycommit/zero_poly.go
index 3cc4ab7..88d3b9c 100755
--- a/internal/polycommit/zero_poly.go
+++ b/internal/polycommit/zero_poly.go
@@ -119,7 +119,17 @@ func (fs *FFTSettings) reduceLeaves(scratch []bls.Fr, dst []bls.Fr, ps [][]bls.F
 // Also calculates the FFT (the "evaluation polynomial").
 func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length uint64) ([]bls.Fr, []bls.Fr) {
 	if len(missingIndices) == 0 {
-		return make([]bls.Fr, length, length), make([]bls.Fr, length, length)
+		// the empty product: the constant 1
+		zeroEval := make([]bls.Fr, length, length)
+		zeroPoly := make([]bls.Fr, length, length)
+		for i := range zeroEval {
+			bls.CopyFr(&zeroEval[i], &bls.ONE)
+			bls.CopyFr(&zeroPoly[i], &bls.ZERO)
+		}
+		if length > 0 {
+			bls.CopyFr(&zeroPoly[0], &bls.ONE)
+		}
+		return zeroEval, zeroPoly
 	}
 	if length > fs.MaxWidth {
 		panic("domain too small for requested length")
-- 
2.43.0


From e2edfcf02084edc5132fe40ab13a584724673c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 08/43] fix: erasure recovery with few missing values

---
 internal/polycommit/legacy_recovery.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/polycommit/legacy_recovery.go b/internal/polycommit/legacy_recovery.go
index 6e6dec6..5847f15 100755
--- a/internal/polycommit/legacy_recovery.go
+++ b/internal/polycommit/legacy_recovery.go
@@ -174,6 +174,12 @@ func (fs *FFTSettings) ErasureCodeRecover(vals []*bls.Fr) ([]bls.Fr, error) {
 	}
 	// TODO: handle len(positions)==0 case
 	z := fs._zPoly(positions, fs.MaxWidth/uint64(len(vals)))
+	// _zPoly returns only as many coefficients as it needs, the transforms below work on len(vals) of them
+	for len(z) < len(vals) {
+		var zero bls.Fr
+		bls.CopyFr(&zero, &bls.ZERO)
+		z = append(z, zero)
+	}
 	//DebugFrs("z", z)
 	zVals, err := fs.FFT(z, false)
 	if err != nil {
-- 
2.43.0


From 9d16eda462c0f1349399a0273278dbbbac2b5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 09/43] fix: multi proofs divided by X^n instead of X^n - x^n

---
 internal/polycommit/kzg_multi_proofs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/polycommit/kzg_multi_proofs.go b/internal/polycommit/kzg_multi_proofs.go
index dca9c9c..7aa705b 100755
--- a/internal/polycommit/kzg_multi_proofs.go
+++ b/internal/polycommit/kzg_multi_proofs.go
@@ -22,6 +22,7 @@ func (ks *KZGSettings) ComputeProofMulti(poly []bls.Fr, x uint64, n uint64) *bls
 	// TODO: inefficient, could use squaring, or maybe BLS lib offers a power method?
 	// TODO: for small ranges, maybe compute pow(x, n, mod) in uint64?
 	var xPowN, tmp bls.Fr
+	bls.CopyFr(&xPowN, &bls.ONE)
 	for i := uint64(0); i < n; i++ {
 		bls.MulModFr(&tmp, &xPowN, &xFr)
 		bls.CopyFr(&xPowN, &tmp)
-- 
2.43.0


From e73833aad18a05854aa01ff6b3b625dc6a2bc59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 10/43] fix: division by a longer polynomial

---
 internal/polycommit/poly.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/polycommit/poly.go b/internal/polycommit/poly.go
index e88a592..86034e2 100755
--- a/internal/polycommit/poly.go
+++ b/internal/polycommit/poly.go
@@ -22,6 +22,10 @@ func polyLongDiv(dividend []bls.Fr, divisor []bls.Fr) []bls.Fr {
 	aPos := len(a) - 1
 	bPos := len(divisor) - 1
 	diff := aPos - bPos
+	if diff < 0 {
+		// the divisor is longer: the quotient is zero
+		return []bls.Fr{}
+	}
 	out := make([]bls.Fr, diff+1, diff+1)
 	for diff >= 0 {
 		quot := &out[diff]
-- 
2.43.0


From 952a448d61989f4e906a9c6c4a011f84c236adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 11/43] fix: FK20 proofs of polynomials of a single chunk

---
 internal/polycommit/fk20_single.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/polycommit/fk20_single.go b/internal/polycommit/fk20_single.go
index aca81ed..61f54de 100755
--- a/internal/polycommit/fk20_single.go
+++ b/internal/polycommit/fk20_single.go
@@ -97,7 +97,7 @@ func (ks *KZGSettings) toeplitzCoeffsStepStrided(polynomial []bls.Fr, offset uin
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, k2, k2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1-offset])
-	for i := uint64(1); i <= k+1; i++ {
+	for i := uint64(1); i <= k+1 && i < k2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := k+2, 2*stride-offset-1; i < k2; i, j = i+1, j+stride {
@@ -113,7 +113,7 @@ func (ks *KZGSettings) toeplitzCoeffsStep(polynomial []bls.Fr) []bls.Fr {
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, n2, n2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1])
-	for i := uint64(1); i <= n+1; i++ {
+	for i := uint64(1); i <= n+1 && i < n2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := n+2, 1; i < n2; i, j = i+1, j+1 {
-- 
2.43.0


From bdc71bc9dba616733713ac531786c6902436ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 12/43] fix: FK20 multi proofs with chunks of several points

---
 internal/polycommit/fk20_multi.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/polycommit/fk20_multi.go b/internal/polycommit/fk20_multi.go
index b29c7ef..987d0ab 100755
--- a/internal/polycommit/fk20_multi.go
+++ b/internal/polycommit/fk20_multi.go
@@ -20,10 +20,9 @@ import (
 // For a polynomial of size n, let w be a n-th root of unity. Then this method will return
 // k=n/l KZG proofs for the points
 //
-// 	   proof[0]: w^(0*l + 0), w^(0*l + 1), ... w^(0*l + l - 1)
-// 	   proof[0]: w^(0*l + 0), w^(0*l + 1), ... w^(0*l + l - 1)
+// 	   proof[0]: w^(0 + 0*k), w^(0 + 1*k), ... w^(0 + (l-1)*k)
 // 	   ...
-// 	   proof[i]: w^(i*l + 0), w^(i*l + 1), ... w^(i*l + l - 1)
+// 	   proof[i]: w^(i + 0*k), w^(i + 1*k), ... w^(i + (l-1)*k)
 // 	   ...
 func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 	n := uint64(len(polynomial))
@@ -33,8 +32,9 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 			ks.MaxWidth, n))
 	}
 
-	hExtFFT := make([]bls.G1Point, n2, n2)
-	for i := uint64(0); i < n2; i++ {
+	k2 := n2 / ks.chunkLen
+	hExtFFT := make([]bls.G1Point, k2, k2)
+	for i := uint64(0); i < k2; i++ {
 		bls.CopyG1(&hExtFFT[i], &bls.ZeroG1)
 	}
 
@@ -42,7 +42,7 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 	for i := uint64(0); i < ks.chunkLen; i++ {
 		toeplitzCoeffs := ks.toeplitzCoeffsStepStrided(polynomial, i, ks.chunkLen)
 		hExtFFTFile := ks.ToeplitzPart2(toeplitzCoeffs, ks.xExtFFTFiles[i])
-		for j := uint64(0); j < n2; j++ {
+		for j := uint64(0); j < k2; j++ {
 			bls.AddG1(&tmp, &hExtFFT[j], &hExtFFTFile[j])
 			bls.CopyG1(&hExtFFT[j], &tmp)
 		}
-- 
2.43.0


From aa9c8da9c01ab9576241629757315791b70dbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 13/43] fix: a peer's broken or malformed frame ends its
 connection, not the receiving node

---
 pkg/core/receive.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 67e775a..1f35d06 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"log"
@@ -50,18 +51,25 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 					lengthBuf := make([]byte, 4)
 					_, err1 := io.ReadFull(conn, lengthBuf)
 					length := utils.BytesToInt(lengthBuf)
-					buf := make([]byte, length)
-					_, err2 := io.ReadFull(conn, buf)
+					//the announced length is not trusted: memory grows with the bytes received
+					var buf bytes.Buffer
+					var err2 error
+					if err1 == nil {
+						_, err2 = io.CopyN(&buf, conn, int64(length))
+					}
 					if err1 != nil || err2 != nil {
-						fmt.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
-						log.Fatalln("The receive channel has broken down", err1, err2)
+						//only this connection is lost
+						log.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
+						conn.Close()
+						return
 					}
 					//Do Unmarshal
 					var m protobuf.Message
-					err3 := proto.Unmarshal(buf, &m)
+					err3 := proto.Unmarshal(buf.Bytes(), &m)
 					if err3 != nil {
-						fmt.Printf("Unmarshal error: %v\n", err3)
-						log.Fatalln(err3)
+						log.Printf("Unmarshal error: %v\n", err3)
+						conn.Close()
+						return
 					}
 					//Push protobuf.Message to receivechannel
 					(channel) <- &m
-- 
2.43.0


From 2fdb3d7e3a58916e2e41a524a04eef0bf4e10629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 14/43] fix: a peer that closes its connection does not stop
 the sending node

---
 pkg/core/send.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/core/send.go b/pkg/core/send.go
index e31d3e7..be01ef4 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -49,13 +49,13 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 			length := len(byt)
 			_, err2 := conn.Write(utils.IntToBytes(length))
 			_, err3 := conn.Write(byt)
-			if err2 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err2)
-				log.Fatalln("The send channel has broken down!", err2)
-			}
-			if err3 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err3)
-				log.Fatalln("The send channel has broken down!", err3)
+			if err2 != nil || err3 != nil {
+				//only this connection is lost: drop what is still put on it
+				log.Printf("The send channel has broken down, err2: %v, err3: %v\n", err2, err3)
+				conn.Close()
+				for {
+					<-(channel)
+				}
 			}
 		}
 	}(conn, sendChannel)
-- 
2.43.0


From 08b5671c19549d3381c1f1c257fc83dcaf25c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 15/43] fix: reliable broadcast of an empty message

---
 internal/party/RBC.go | 588 +++++++++++++++++++++---------------------
 1 file changed, 296 insertions(+), 292 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index d4c58ff..fe27400 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -1,292 +1,296 @@
-package party
-
-import (
-	"bytes"
-	"crypto/sha256"
-	"log"
-	"sync"
-
-	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
-	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
-	"github.com/klauspost/reedsolomon"
-	"google.golang.org/protobuf/proto"
-)
-
-// received message shard (RS code) in RBC
-type mReceived struct {
-	j  int
-	mj []byte
-}
-
-type hm struct {
-	h string
-	m string
-}
-
-//RBC propose
-func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
-	if err != nil {
-		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
-	}
-	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
-}
-
-func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
-	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
-}
-
-func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
-	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
-	var mLen int                 // the length of M_i
-	//here we ignore the validator function P(.)
-
-	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
-	var EchoMessageMap = make(map[string]map[string]int)
-
-	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
-	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
-
-	var isReadySent = false
-	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
-	var mutexEchoMap sync.Mutex
-	var mutexReadyMap sync.Mutex
-
-	var readyChan = make(chan hm, p.N)
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
-
-	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
-	for i := uint32(0); i < p.N; i++ {
-		hasReceivedReady[i] = false
-	}
-
-	//handle RBCPropose message
-	go func() {
-		m := <-p.GetMessage("RBCPropose", ID)
-		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
-		M := m.Data
-		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-		hLocal := sha256.New()
-		hLocal.Write(M)
-
-		//encode
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, _ := RSEncoder.Split(M)
-		RSEncoder.Encode(shards)
-		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
-		copy(M1, shards)
-		for j := uint32(0); j < p.N; j++ {
-			//encapsulate, append the length of M at the end of hash
-			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
-			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
-			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
-
-			/*
-				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
-				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
-				// t+1 RBCReady messages and t+1 matching RBCEcho messages
-				if p.PID == 0 || p.PID == 1 {
-					if index != uint32(2) {
-						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-					}
-				} else {
-					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-				}
-			*/
-		}
-
-	}()
-
-	//handle Echo Message, line 11-12, Algo 4 in RBC paper
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCEcho", ID)
-			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCEcho
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := string(payloadMessage.Hash)
-			mi := string(payloadMessage.M)
-
-			mutexEchoMap.Lock()
-			_, ok1 := EchoMessageMap[hash]
-			if ok1 {
-				//ok1 denotes that the map of hash exists
-				counter, ok2 := EchoMessageMap[hash][mi]
-				if ok2 {
-					//ok2 denotes that the map of (hash,M) exists, then increase the counter
-					EchoMessageMap[hash][mi] = counter + 1
-				} else {
-					//else establish the map of (hash,M) and set it as 1
-					EchoMessageMap[hash][mi] = 1
-				}
-			} else {
-				//else establish the map of (hash,M) and set it as 1
-				EchoMessageMap[hash] = make(map[string]int)
-				EchoMessageMap[hash][mi] = 1
-			}
-
-			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
-			mutex.Lock()
-			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
-			}
-
-			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
-				//ready to send RBCReady when receive t+1 RBCReady messages from the others
-				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
-				readyChan <- hm{hash, mi}
-			}
-			mutex.Unlock() //TODO: move this unlock into if statement
-			mutexEchoMap.Unlock()
-			//finish this goroutine when RBCReady is sent
-			if isReadySent {
-				break
-			}
-		}
-	}()
-
-	//handle RBCReady messages
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
-				continue
-			} else {
-				hasReceivedReady[m.Sender] = true
-			}
-			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCReady
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := payloadMessage.Hash
-			hashString := string(hash)
-			mJ := payloadMessage.M
-			j := m.Sender //sender's pid, i.e., the index of the sender
-
-			mutexReadyMap.Lock()
-			//avoid the replay attack
-
-			//
-			_, ok := T[hashString]
-			if ok {
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			} else {
-				T[hashString] = make([]mReceived, 0)
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			}
-
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			mutex.Lock()
-			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
-				mutex.Unlock()
-				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
-				//wait for t+1 matching RBCEcho messages
-				var res hm
-				for {
-					res = <-readyChan
-					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
-						mutexEchoMap.Unlock()
-						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-						mutex.Lock()
-						isReadySent = true
-						mutex.Unlock()
-						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
-						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-						if err != nil {
-							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-						}
-						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-						break
-					}
-					mutexEchoMap.Unlock()
-				}
-			} else {
-				mutex.Unlock()
-			}
-
-			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
-			}
-			mutexReadyMap.Unlock()
-
-			//FIXME: kill this for loop when the RBC message is reconstructed
-			// isRec := <-RecDone
-			// if isRec {
-			// 	break
-			// }
-		}
-	}()
-
-	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
-			}
-		}
-
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
-		mutexReadyMap.Unlock()
-
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
-
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
-
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
-
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
-
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
-	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	return nil
-}
+package party
+
+import (
+	"bytes"
+	"crypto/sha256"
+	"log"
+	"sync"
+
+	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
+	"github.com/klauspost/reedsolomon"
+	"google.golang.org/protobuf/proto"
+)
+
+// received message shard (RS code) in RBC
+type mReceived struct {
+	j  int
+	mj []byte
+}
+
+type hm struct {
+	h string
+	m string
+}
+
+//RBC propose
+func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
+	if err != nil {
+		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
+	}
+	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
+}
+
+func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
+	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
+}
+
+func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
+	var mLen int                 // the length of M_i
+	//here we ignore the validator function P(.)
+
+	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
+	var EchoMessageMap = make(map[string]map[string]int)
+
+	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
+	var T = make(map[string][]mReceived)
+	var MaxReadyNumber = int(0)
+	var MaxReadyHash []byte
+
+	var isReadySent = false
+	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
+	var mutexEchoMap sync.Mutex
+	var mutexReadyMap sync.Mutex
+
+	var readyChan = make(chan hm, p.N)
+	var RSDecStartChan = make(chan bool, 1)
+	var RSDecStart = false
+
+	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
+	for i := uint32(0); i < p.N; i++ {
+		hasReceivedReady[i] = false
+	}
+
+	//handle RBCPropose message
+	go func() {
+		m := <-p.GetMessage("RBCPropose", ID)
+		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
+		M := m.Data
+		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
+		hLocal := sha256.New()
+		hLocal.Write(M)
+
+		//encode
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		toSplit := M
+		if mLen == 0 {
+			toSplit = []byte{0} // an empty M can not be split
+		}
+		shards, _ := RSEncoder.Split(toSplit)
+		RSEncoder.Encode(shards)
+		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
+		copy(M1, shards)
+		for j := uint32(0); j < p.N; j++ {
+			//encapsulate, append the length of M at the end of hash
+			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
+			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
+			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
+
+			/*
+				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
+				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
+				// t+1 RBCReady messages and t+1 matching RBCEcho messages
+				if p.PID == 0 || p.PID == 1 {
+					if index != uint32(2) {
+						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+					}
+				} else {
+					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+				}
+			*/
+		}
+
+	}()
+
+	//handle Echo Message, line 11-12, Algo 4 in RBC paper
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCEcho", ID)
+			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCEcho
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := string(payloadMessage.Hash)
+			mi := string(payloadMessage.M)
+
+			mutexEchoMap.Lock()
+			_, ok1 := EchoMessageMap[hash]
+			if ok1 {
+				//ok1 denotes that the map of hash exists
+				counter, ok2 := EchoMessageMap[hash][mi]
+				if ok2 {
+					//ok2 denotes that the map of (hash,M) exists, then increase the counter
+					EchoMessageMap[hash][mi] = counter + 1
+				} else {
+					//else establish the map of (hash,M) and set it as 1
+					EchoMessageMap[hash][mi] = 1
+				}
+			} else {
+				//else establish the map of (hash,M) and set it as 1
+				EchoMessageMap[hash] = make(map[string]int)
+				EchoMessageMap[hash][mi] = 1
+			}
+
+			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
+			mutex.Lock()
+			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
+				isReadySent = true
+				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+				if err != nil {
+					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+				}
+				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
+			}
+
+			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
+				//ready to send RBCReady when receive t+1 RBCReady messages from the others
+				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
+				readyChan <- hm{hash, mi}
+			}
+			mutex.Unlock() //TODO: move this unlock into if statement
+			mutexEchoMap.Unlock()
+			//finish this goroutine when RBCReady is sent
+			if isReadySent {
+				break
+			}
+		}
+	}()
+
+	//handle RBCReady messages
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCReady", ID)
+			if hasReceivedReady[m.Sender] {
+				continue
+			} else {
+				hasReceivedReady[m.Sender] = true
+			}
+			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCReady
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := payloadMessage.Hash
+			hashString := string(hash)
+			mJ := payloadMessage.M
+			j := m.Sender //sender's pid, i.e., the index of the sender
+
+			mutexReadyMap.Lock()
+			//avoid the replay attack
+
+			//
+			_, ok := T[hashString]
+			if ok {
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			} else {
+				T[hashString] = make([]mReceived, 0)
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			}
+
+			if len(T[hashString]) > MaxReadyNumber {
+				MaxReadyNumber = len(T[hashString])
+				MaxReadyHash = hash
+			}
+
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			mutex.Lock()
+			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
+				mutex.Unlock()
+				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
+				//wait for t+1 matching RBCEcho messages
+				var res hm
+				for {
+					res = <-readyChan
+					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+					mutexEchoMap.Lock()
+					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
+						mutexEchoMap.Unlock()
+						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+						mutex.Lock()
+						isReadySent = true
+						mutex.Unlock()
+						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
+						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+						if err != nil {
+							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
+						}
+						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
+						break
+					}
+					mutexEchoMap.Unlock()
+				}
+			} else {
+				mutex.Unlock()
+			}
+
+			// upon receiving |T| >= 2t+1 = n-t
+			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecStart = true
+				RSDecStartChan <- true
+			}
+			mutexReadyMap.Unlock()
+
+			//FIXME: kill this for loop when the RBC message is reconstructed
+			// isRec := <-RecDone
+			// if isRec {
+			// 	break
+			// }
+		}
+	}()
+
+	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
+	<-RSDecStartChan
+	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
+	for r := uint32(0); r <= p.F; r++ {
+		for {
+			if uint32(MaxReadyNumber) >= p.N-p.F+r {
+				break
+			}
+		}
+
+		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
+		mutexReadyMap.Lock()
+		copy(mReceivedTemp, T[string(MaxReadyHash)])
+		mutexReadyMap.Unlock()
+
+		var M = make([][]byte, p.N)
+		for i := uint32(0); i < p.N-p.F+r; i++ {
+			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
+		}
+
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		ok, _ := RSEncoder.Verify(M)
+		if !ok {
+			RSEncoder.Reconstruct(M)
+		}
+
+		//parse M and remove the padding zeros
+		var mReconstructed = make([]byte, 0)
+		for i := uint32(0); i < p.N-(p.F+1); i++ {
+			mReconstructed = append(mReconstructed, M[i]...)
+		}
+
+		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
+		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
+		//the first 256/8 bytes in MaxReadyHash are the hash value
+		MaxReadyHash = MaxReadyHash[:256/8]
+		mReconstructed = mReconstructed[0:mLenNew]
+
+		hNew := sha256.New()
+		hNew.Write(mReconstructed)
+
+		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
+			var replyMessage protobuf.Message
+			proto.Unmarshal(mReconstructed, &replyMessage)
+			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+			return &replyMessage
+		}
+	}
+	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
+	return nil
+}
-- 
2.43.0


From dbce1effaa3fc5a0bfbbecbf2745b6bdf8e3bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 16/43] fix: count one echo of each member in the reliable
 broadcast

---
 internal/party/RBC.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index fe27400..6da09d1 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -111,8 +111,13 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 	//handle Echo Message, line 11-12, Algo 4 in RBC paper
 	go func() {
+		var hasReceivedEcho = make(map[uint32]bool) //only the first RBCEcho of each party counts
 		for {
 			m := <-p.GetMessage("RBCEcho", ID)
+			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
 			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
 			var payloadMessage protobuf.RBCEcho
 			proto.Unmarshal(m.Data, &payloadMessage)
@@ -167,7 +172,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	go func() {
 		for {
 			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
+			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
 				continue
 			} else {
 				hasReceivedReady[m.Sender] = true
-- 
2.43.0


From a45235fad1682df6a5ae11280a85c3b8046c256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 17/43] fix: a member that waits for matching echoes goes on
 counting, and readies only what was echoed

---
 internal/party/RBC.go | 80 ++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 6da09d1..e596ab3 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -18,11 +18,6 @@ type mReceived struct {
 	mj []byte
 }
 
-type hm struct {
-	h string
-	m string
-}
-
 //RBC propose
 func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
 	//encapsulate
@@ -59,7 +54,6 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	var mutexEchoMap sync.Mutex
 	var mutexReadyMap sync.Mutex
 
-	var readyChan = make(chan hm, p.N)
 	var RSDecStartChan = make(chan bool, 1)
 	var RSDecStart = false
 
@@ -68,6 +62,34 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 		hasReceivedReady[i] = false
 	}
 
+	//send RBCReady upon t+1 RBCReady and t+1 matching RBCEcho messages with this hash (line 13-15, Algo 4)
+	sendReadyIfMatched := func(hash string) {
+		mutexReadyMap.Lock()
+		readyNumber := uint32(len(T[hash]))
+		mutexReadyMap.Unlock()
+		if readyNumber < p.F+1 {
+			return
+		}
+		mutexEchoMap.Lock()
+		defer mutexEchoMap.Unlock()
+		for mi, counter := range EchoMessageMap[hash] {
+			if uint32(counter) < p.F+1 {
+				continue
+			}
+			mutex.Lock()
+			if !isReadySent {
+				isReadySent = true
+				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+				if err != nil {
+					log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
+				}
+				// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
+			}
+			mutex.Unlock()
+		}
+	}
+
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
@@ -153,18 +175,10 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				}
 				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
 			}
-
-			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
-				//ready to send RBCReady when receive t+1 RBCReady messages from the others
-				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
-				readyChan <- hm{hash, mi}
-			}
 			mutex.Unlock() //TODO: move this unlock into if statement
 			mutexEchoMap.Unlock()
-			//finish this goroutine when RBCReady is sent
-			if isReadySent {
-				break
-			}
+			//these may have been the t+1 matching RBCEcho messages that a RBCReady waits for
+			sendReadyIfMatched(hash)
 		}
 	}()
 
@@ -202,37 +216,6 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				MaxReadyHash = hash
 			}
 
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			mutex.Lock()
-			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
-				mutex.Unlock()
-				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
-				//wait for t+1 matching RBCEcho messages
-				var res hm
-				for {
-					res = <-readyChan
-					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
-						mutexEchoMap.Unlock()
-						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-						mutex.Lock()
-						isReadySent = true
-						mutex.Unlock()
-						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
-						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-						if err != nil {
-							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-						}
-						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-						break
-					}
-					mutexEchoMap.Unlock()
-				}
-			} else {
-				mutex.Unlock()
-			}
-
 			// upon receiving |T| >= 2t+1 = n-t
 			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
 				RSDecStart = true
@@ -240,6 +223,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			}
 			mutexReadyMap.Unlock()
 
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			sendReadyIfMatched(hashString)
+
 			//FIXME: kill this for loop when the RBC message is reconstructed
 			// isRec := <-RecDone
 			// if isRec {
-- 
2.43.0


From 66ecb216b31055861cc9177fc62e048dd697b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 18/43] fix: reliable broadcast delivers although some of the
 first fragments are wrong

---
 internal/party/RBC.go | 121 ++++++++++++++++++++++++------------------
 1 file changed, 70 insertions(+), 51 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index e596ab3..402a5d6 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -46,16 +46,13 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
 	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
 
 	var isReadySent = false
 	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
 	var mutexEchoMap sync.Mutex
 	var mutexReadyMap sync.Mutex
 
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
+	var RSDecStartChan = make(chan string, p.N) //hashes with at least 2t+1 RS shards, once per further shard
 
 	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
 	for i := uint32(0); i < p.N; i++ {
@@ -211,15 +208,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
 			}
 
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
 			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
+			if uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecStartChan <- hashString
 			}
 			mutexReadyMap.Unlock()
 
@@ -235,53 +226,81 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	}()
 
 	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
-			}
-		}
-
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
+	//up to t of them may be wrong, then further ones are needed
+	for hash := range RSDecStartChan {
 		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
+		var mReceivedTemp = make([]mReceived, len(T[hash]))
+		copy(mReceivedTemp, T[hash])
 		mutexReadyMap.Unlock()
 
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
-
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
-
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
-
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
-
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
+		mReconstructed, ok := p.rsReconstruct(mReceivedTemp, []byte(hash))
+		if ok {
 			var replyMessage protobuf.Message
 			proto.Unmarshal(mReconstructed, &replyMessage)
 			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
 			return &replyMessage
 		}
+		log.Printf("[party %v] needs more shards to reconstruct the message, RBC instance ID: %s", p.PID, ID)
 	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
 	return nil
 }
+
+//rsReconstruct finds the message with the given hash (followed by the message's length), whose shards are among
+//the received ones. It tries the possible sets of correct shards until the hash fits.
+func (p *HonestParty) rsReconstruct(received []mReceived, hash []byte) ([]byte, bool) {
+	dataShards := int(p.N - (p.F + 1))
+	//the first 256/8 bytes in hash are the hash value
+	if len(hash) < 256/8 {
+		return nil, false
+	}
+	//the last several bytes in hash are the length of M' (see line 9, Algo 4 in RBC paper)
+	mLen := utils.BytesToInt(hash[256/8:])
+
+	//a shard of another length is wrong
+	shardLen := (mLen + dataShards - 1) / dataShards
+	if mLen == 0 {
+		shardLen = 1
+	}
+	var candidates []mReceived
+	for _, r := range received {
+		if len(r.mj) == shardLen {
+			candidates = append(candidates, r)
+		}
+	}
+
+	RSEncoder, err := reedsolomon.New(dataShards, int(p.F+1))
+	if err != nil {
+		return nil, false
+	}
+	chosen := make([]mReceived, 0, dataShards)
+	var try func(next int) ([]byte, bool)
+	try = func(next int) ([]byte, bool) {
+		if len(chosen) == dataShards {
+			var M = make([][]byte, p.N)
+			for _, r := range chosen {
+				M[r.j] = r.mj
+			}
+			if RSEncoder.ReconstructData(M) != nil {
+				return nil, false
+			}
+			//parse M and remove the padding zeros
+			var mReconstructed = make([]byte, 0, dataShards*shardLen)
+			for i := 0; i < dataShards; i++ {
+				mReconstructed = append(mReconstructed, M[i]...)
+			}
+			mReconstructed = mReconstructed[0:mLen]
+			hNew := sha256.Sum256(mReconstructed)
+			return mReconstructed, bytes.Equal(hNew[:], hash[:256/8])
+		}
+		for i := next; i <= len(candidates)-(dataShards-len(chosen)); i++ {
+			chosen = append(chosen, candidates[i])
+			M, ok := try(i + 1)
+			chosen = chosen[:len(chosen)-1]
+			if ok {
+				return M, true
+			}
+		}
+		return nil, false
+	}
+	return try(0)
+}
-- 
2.43.0


From 82a8b6130db5e821e6cf9e7d02303ea788b9c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 19/43] fix: in a handoff only a member itself proposes in its
 broadcast

---
 internal/party/ProactivizeAndShareDist.go |  4 ++--
 internal/party/RBC.go                     | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index a77084e..e0514d1 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -142,7 +142,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceiveFrom([]byte(string(ID)+"_1,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
@@ -570,7 +570,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceiveFrom([]byte(string(ID)+"_2,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
 			var oldCB bls.G1Point
diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 402a5d6..6df2c27 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -36,7 +36,17 @@ func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32)
 	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
 }
 
+//RBCReceive takes part in an RBC instance whose sender may be any party, and returns the delivered message
 func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	return p.rbcReceive(ID, func(proposer uint32) bool { return true })
+}
+
+//RBCReceiveFrom takes part in the RBC instance of the given sender: proposals by others are not its messages
+func (p *HonestParty) RBCReceiveFrom(ID []byte, sender uint32) *protobuf.Message {
+	return p.rbcReceive(ID, func(proposer uint32) bool { return proposer == sender })
+}
+
+func (p *HonestParty) rbcReceive(ID []byte, isSender func(uint32) bool) *protobuf.Message {
 	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
 	var mLen int                 // the length of M_i
 	//here we ignore the validator function P(.)
@@ -90,6 +100,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
+		for !isSender(m.Sender) {
+			m = <-p.GetMessage("RBCPropose", ID)
+		}
 		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
 		M := m.Data
 		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-- 
2.43.0


From df689860cd1ed49a3dfbd72e8ceb94a4244e0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 20/43] fix: count one signature share of each signer in the
 agreement

---
 internal/party/message_handler.go | 18 ++++++++++++++----
 internal/party/pb.go              | 19 ++++++++++++++++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 0333d5a..a11eaed 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -71,7 +71,11 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				err := tblsScheme.VerifyPartial(p.SigPK, coinName, payload.CoinShare) //verifyshare("Done"||ID||r)
 
 				if err == nil {
-					coins = append(coins, payload.CoinShare)
+					counted := len(coins)
+					coins = addSigShare(coins, payload.CoinShare)
+					if len(coins) == counted {
+						continue
+					}
 					if len(coins) == int(p.F+1) {
 
 						doneFlagChannel <- true
@@ -156,7 +160,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					sm := buf.Bytes()
 					err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sig) //verifyShare(false||ID||r)
 					if err == nil {
-						PNr = append(PNr, payload.Sig)
+						PNr = addSigShare(PNr, payload.Sig)
 						if len(PNr) > int(2*p.F) {
 							noSignature, _ := tblsScheme.Recover(p.SigPK, sm, PNr, int(2*p.F+1), int(p.N))
 							var buf bytes.Buffer
@@ -197,7 +201,10 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					sm[len([]byte("Echo"))+len(IDrj[l])] = 2
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
 					if err1 == nil && err2 == nil {
-						VYr = append(VYr, payload.Sigshare)
+						if len(addSigShare(VNr, payload.Sigshare)) == len(VNr) {
+							continue //this member has voted No
+						}
+						VYr = addSigShare(VYr, payload.Sigshare)
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 0
@@ -223,7 +230,10 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					sm2 := buf2.Bytes()
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
 					if err1 == nil && err2 == nil {
-						VNr = append(VNr, payload.Sigshare)
+						if len(addSigShare(VYr, payload.Sigshare)) == len(VYr) {
+							continue //this member has voted Yes
+						}
+						VNr = addSigShare(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
diff --git a/internal/party/pb.go b/internal/party/pb.go
index 6e3fff6..e23f3ef 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -40,7 +40,7 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 			err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyshare("Echo"||ID||h)
 
 			if err == nil {
-				sigs = append(sigs, payload.Sigshare)
+				sigs = addSigShare(sigs, payload.Sigshare)
 				if len(sigs) > int(2*p.F) {
 					signature, _ := tblsScheme.Recover(p.SigPK, sm, sigs, int(2*p.F+1), int(p.N))
 					return signature, true
@@ -51,6 +51,23 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 
 }
 
+//addSigShare adds a verified signature share, unless its signer is counted already
+func addSigShare(sigs [][]byte, sigShare []byte) [][]byte {
+	for _, sig := range sigs {
+		if sameSigner(sig, sigShare) {
+			return sigs
+		}
+	}
+	return append(sigs, sigShare)
+}
+
+//sameSigner tells whether two verified signature shares carry the same signer's index
+func sameSigner(sigShare1 []byte, sigShare2 []byte) bool {
+	index1, _ := tbls.SigShare(sigShare1).Index()
+	index2, _ := tbls.SigShare(sigShare2).Index()
+	return index1 == index2
+}
+
 //Receiver is run by the receiver of a instance of provable broadcast
 func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, validator func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
 	select {
-- 
2.43.0


From 99e0d2e1ae63f834bd027f53d76c7d4b8d026153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 21/43] fix: count one finish of each member in the agreement

---
 internal/party/message_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index a11eaed..a449f30 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -35,6 +35,9 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				return
 			case m := <-p.GetMessage("Finish", IDr):
 				payload := core.Decapsulation("Finish", m).(*protobuf.Finish)
+				if _, counted := Fr.Load(m.Sender); counted || m.Sender >= p.N {
+					continue
+				}
 				h := sha3.Sum512(payload.Value)
 				var buf bytes.Buffer
 				buf.Write([]byte("Echo"))
-- 
2.43.0


From 031447b4ed84f210652e36b9f11640728600438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 22/43] fix: combine the no votes, not the yes votes, into the
 unlock certificate

---
 internal/party/message_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index a449f30..f81c812 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -238,7 +238,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 						}
 						VNr = addSigShare(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
-							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
+							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
 						}
-- 
2.43.0


From e6c30a104ceccc5a2f4ad729fbc1a6dbb24e638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 23/43] fix: members whose votes are mixed go on to the next
 view although a no vote comes last

---
 internal/party/message_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index f81c812..8dad912 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -185,6 +185,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		var locked *protobuf.Vote //carries the lock of the Yes votes
 		for {
 			select {
 			case <-ctx.Done():
@@ -208,6 +209,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 							continue //this member has voted No
 						}
 						VYr = addSigShare(VYr, payload.Sigshare)
+						locked = payload
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 0
@@ -241,6 +243,10 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
+						} else if len(VYr)+len(VNr) > int(2*p.F) {
+							voteFlagChannel <- 2
+							voteOtherChannel <- locked.Value
+							voteOtherChannel <- locked.Sig
 						}
 					}
 				}
-- 
2.43.0


From d99b6e8307f526c5eb25c9692765c21e19acbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 24/43] fix: a member that halts passes the halt message on

---
 internal/party/message_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 8dad912..a21cdcd 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -118,6 +118,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||2||h)
 				if err == nil {
+					//the sender may have crashed before the others received it
+					p.Broadcast(core.Encapsulation("Halt", IDr, p.PID, payload))
 					haltChannel <- payload.Value
 					return
 				}
-- 
2.43.0


From 0f96807f4b955c961a9d8ceba2fe8474ad2569ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 25/43] fix: a member that decides early still sends its coin
 share

---
 internal/party/main_process.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 67feb09..c40ccb5 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -154,6 +154,9 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
+		if len(doneFlageChannel) > 0 { //the others may still need this party's coin share
+			election(context.Background(), p, IDr, doneFlageChannel)
+		}
 		return
 	case <-doneFlageChannel:
 		var buf bytes.Buffer
-- 
2.43.0


From b2adc06a45c54b39123b76ea5df3c7ba08fd1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 26/43] fix: a value without a valid certificate does not stop
 the receiving node

---
 internal/party/pb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index e23f3ef..27c8e2c 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -80,7 +80,7 @@ func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, val
 		if validator != nil {
 			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
 			if err2 != nil {
-				log.Fatalln(err2)
+				log.Printf("[PB][Party %v] refused the value of party %v: %v\n", p.PID, sender, err2)
 				return nil, nil, false //sender is dishonest
 			}
 		}
-- 
2.43.0


From cb8f53e771a2947c5d8ac582921f02b1b08f900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 27/43] fix: in a provable broadcast only the sender's own
 value counts

---
 internal/party/pb.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 27c8e2c..d4322f2 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -74,7 +74,9 @@ func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, val
 	case <-ctx.Done():
 		return nil, nil, false
 	case m := <-p.GetMessage("Value", ID):
-		//TODO:check sender == m.Sender
+		if m.Sender != sender { //go on waiting for the sender's own value
+			return Receiver(ctx, p, sender, ID, validator)
+		}
 
 		payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
 		if validator != nil {
-- 
2.43.0


From 24b2f39d601f963afaddaf46894491cfe19a7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 28/43] fix: a proposal of a later view is echoed only with the
 certificates of the previous views

---
 internal/party/main_process.go |  9 +++++--
 internal/party/spb.go          | 43 ++++++++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index c40ccb5..211457c 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -20,6 +20,7 @@ import (
 func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
+	leaders := []uint32{} //of the previous views
 
 	for r := uint32(0); ; r++ {
 		//fmt.Println("party", p.PID, ":round", r, "start", "value=", value, ID)
@@ -39,7 +40,10 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		voteNoChannel := make(chan []byte, 1)
 		voteOtherChannel := make(chan []byte, 1)
 
-		//TODO: CheckValue
+		//a value proposed in a later view has to respect the locks of the previous ones
+		proposalValidator := func(p *HonestParty, _ []byte, _ uint32, value []byte, validation []byte) error {
+			return checkJustified(p, ID, leaders, value, validation)
+		}
 
 		//Initialize SPB instances
 		var buf bytes.Buffer
@@ -57,7 +61,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 
 		for i := uint32(0); i < p.N; i++ {
 			go func(j uint32) {
-				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j])
+				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j], proposalValidator)
 				if ok { //save Lock
 					Lr.Store(j, &protobuf.Lock{
 						Value: value,
@@ -101,6 +105,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		case l := <-leaderChannel:
 			spbCancel()
 			wg.Wait()
+			leaders = append(leaders, l)
 
 			//short-cut
 			value1, ok1 := Fr.Load(l)
diff --git a/internal/party/spb.go b/internal/party/spb.go
index 7d8ac93..5029cc5 100644
--- a/internal/party/spb.go
+++ b/internal/party/spb.go
@@ -7,6 +7,9 @@ forked from https://github.com/xygdys/Buada_BFT
 import (
 	"bytes"
 	"context"
+	"errors"
+
+	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
 	kyberbls "github.com/drand/kyber-bls12381"
 	"github.com/drand/kyber/sign/bls"
 	"golang.org/x/crypto/sha3"
@@ -35,7 +38,8 @@ func SPBSender(ctx context.Context, p *HonestParty, ID []byte, value []byte, val
 }
 
 //SPBReceiver is run by the receiver of a instance of strong provable broadcast
-func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte) ([]byte, []byte, bool) {
+//proposalValidator decides whether the sender may propose its value
+func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, proposalValidator func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
 	var buf1, buf2 bytes.Buffer
 	buf1.Write(ID)
 	buf1.WriteByte(1)
@@ -44,7 +48,7 @@ func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte)
 	ID1 := buf1.Bytes()
 	ID2 := buf2.Bytes()
 
-	Receiver(ctx, p, sender, ID1, nil)
+	Receiver(ctx, p, sender, ID1, proposalValidator)
 	value, sig, ok := Receiver(ctx, p, sender, ID2, validator)
 	if !ok {
 		return nil, nil, false
@@ -53,6 +57,41 @@ func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte)
 	return value, sig, true //LOCK
 }
 
+//checkJustified checks that value may be proposed in the view that follows those of leaders.
+//The end of validation has to be a certificate for each of these views that it ended without a lock,
+//or the certificate of a lock of value in one of them, and such certificates for the views after it.
+func checkJustified(p *HonestParty, ID []byte, leaders []uint32, value []byte, validation []byte) error {
+	suite := kyberbls.NewBLS12381Suite()
+	blsScheme := bls.NewSchemeOnG1(suite)
+	certLength := suite.G1().PointLen()
+	h := sha3.Sum512(value)
+	for r := len(leaders) - 1; r >= 0; r-- {
+		if len(validation) < certLength {
+			return errors.New("the certificates of previous views are missing")
+		}
+		cert := validation[len(validation)-certLength:]
+		validation = validation[:len(validation)-certLength]
+
+		var buf1 bytes.Buffer
+		buf1.Write([]byte("Unlock"))
+		buf1.Write(ID)
+		buf1.Write(utils.Uint32ToBytes(uint32(r)))
+		if blsScheme.Verify(p.SigPK.Commit(), buf1.Bytes(), cert) == nil { //verify("Unlock"||ID||r)
+			continue
+		}
+
+		var buf2 bytes.Buffer
+		buf2.Write([]byte("Echo"))
+		buf2.Write(ID)
+		buf2.Write(utils.Uint32ToBytes(uint32(r)))
+		buf2.Write(utils.Uint32ToBytes(leaders[r]))
+		buf2.WriteByte(1)
+		buf2.Write(h[:])
+		return blsScheme.Verify(p.SigPK.Commit(), buf2.Bytes(), cert) //verify("Echo"||ID||r||l||1||h)
+	}
+	return nil
+}
+
 func validator(p *HonestParty, ID []byte, sender uint32, value []byte, validation []byte) error {
 	h := sha3.Sum512(value)
 	var buf bytes.Buffer
-- 
2.43.0


From cab1cbb439f8e6d027adc21cf55e6af55176d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 29/43] fix: a handoff adds only recovered slices, and goes on
 recovering during the agreement

---
 internal/party/ProactivizeAndShareDist.go | 32 +++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index e0514d1..0944044 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -40,6 +40,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		startRecover[i] = make(chan bool, 1)
 	}
 	var ProactivizeDone = make(chan bool, 1)
+	var HandoffDone = make(chan struct{}) //closed when this party has finished the handoff
+	defer close(HandoffDone)
 
 	var piI = make([]PiContent, 0)
 
@@ -366,7 +368,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var v bls.Fr
 			bls.FrFrom32(&v, tmpV_Array)
 			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
-			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
+			select {
+			case <-HandoffDone:
+				return
+			case RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}:
+			}
 		}
 	}()
 
@@ -385,7 +391,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				<-startRecover[k]
 			}
 			for {
-				ReceivedRecoverMsg := <-RecoverMsgChan[k]
+				var ReceivedRecoverMsg RecoverMsg
+				select {
+				case <-HandoffDone:
+					return
+				case ReceivedRecoverMsg = <-RecoverMsgChan[k]:
+				}
 				var mSender = ReceivedRecoverMsg.sender
 				wkij := ReceivedRecoverMsg.w
 				vkij := ReceivedRecoverMsg.v
@@ -434,7 +445,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							log.Printf("[Proactivize MVBA][New party %v] Call MVBA with input length %v\n", p.PID, len(MVBAIn.J))
 							MVBAInData, _ := proto.Marshal(MVBAIn)
 							MVBASent = true
-							MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							go func() {
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							}()
 						}
 						mutexMVBAIn.Unlock()
 					}
@@ -442,10 +455,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				} else {
 					log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v FAIL, k=%v. Current Srec[%v] lenth: %v\\n", p.PID, mSender, k, k, len(SRec[k]))
 				}
-				if MVBASent {
-					//log.Printf("[Proactivize Recover][New party %v] Recover done\n", p.PID)
-					break
-				}
 			}
 		}(k)
 	}
@@ -463,13 +472,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	for _, j := range MVBARes.J {
 
-		//wait until all related flgCom = 1
-		if !flgCom[j] {
-			<-RecDone[j]
-			p.mutexKZG.Lock()
-			CQ[j][p.PID+1] = *p.KZG.CommitToPoly(Q[j][p.PID+1])
-			p.mutexKZG.Unlock()
-		}
+		//wait until Q[j][p.PID+1] is recovered, which implies flgCom[j] = 1
+		<-RecDone[j]
 
 		for i := 0; uint32(i) < p.F+1; i++ {
 			var tmpCoeff bls.Fr
-- 
2.43.0


From 2e6e5ef384c15c5e154744380cffdaf0585b7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 30/43] fix: every point of a resharing has to fit, not only
 the last one

---
 internal/party/ProactivizeAndShareDist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 0944044..15cd6af 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -277,7 +277,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			var vjki = make([]bls.Fr, 2*p.F+2)
 			var wjki = make([]bls.G1Point, 2*p.F+2)
-			var verifyReshareOK = false
+			var verifyReshareOK = true
 
 			for k := uint32(1); k <= 2*p.F+1; k++ {
 				vjki_bytes := [32]byte{}
@@ -290,9 +290,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				var position_vjki bls.Fr
 				bls.AsFr(&position_vjki, uint64(p.PID+1))
 				p.mutexKZG.Lock()
-				verifyReshareOK = p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
+				verifyPointOK := p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
 				p.mutexKZG.Unlock()
-				if !verifyReshareOK {
+				if !verifyPointOK {
+					verifyReshareOK = false
 					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, vjki:%v, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), vjki[k].String(), wjki[k].String())
 					// break
 				}
-- 
2.43.0


From 447d3f52bf12def5bb88fba3c70db243d93c04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 31/43] fix: combine 2f+1 signature shares for a resharing

---
 internal/party/ProactivizeAndShareDist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 15cd6af..e42e0be 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -429,12 +429,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 					SSig[k] = append(SSig[k], SSigElement{mSender + 1, ReceivedSigShare})
 					if !CombinedFlag[k] && uint32(len(SSig[k])) >= 2*p.F+1 {
-						var tmpSig = make([][]byte, len(SSig))
+						var tmpSig = make([][]byte, len(SSig[k]))
 						for i := 0; i < len(SSig[k]); i++ {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
-- 
2.43.0


From 67469774b676389b56a998801f3fa4720f1c07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 32/43] fix: take one recovery point of each member, for
 members only, without blocking the others

---
 internal/party/ProactivizeAndShareDist.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index e42e0be..3e89761 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -351,8 +351,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}
 
 	RecoverMsgChan := make([]chan RecoverMsg, p.N+1) // index 0 is not used
+	recovered := make([][]bool, p.N+1)               // recovered[k][j] tells whether a message of party j for k was taken
 	for i := uint32(0); i <= p.N; i++ {
-		RecoverMsgChan[i] = make(chan RecoverMsg)
+		RecoverMsgChan[i] = make(chan RecoverMsg, p.N) //one message of each party: never blocks
+		recovered[i] = make([]bool, p.N)
 	}
 
 	//Recover - receiving messages
@@ -363,17 +365,17 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var ReceivedRecoverData protobuf.Recover
 			proto.Unmarshal(m.Data, &ReceivedRecoverData)
 			k := ReceivedRecoverData.Index
+			if k < 1 || k > p.N || m.Sender >= p.N || recovered[k][m.Sender] {
+				continue //not a party of this committee, or not its first message for k
+			}
+			recovered[k][m.Sender] = true
 			//log.Printf("[Proactivize Recover][New party %v] Have received Recover message from party %v, k=%v\n", p.PID, m.Sender, k)
 			var tmpV_Array [32]byte
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
 			var v bls.Fr
 			bls.FrFrom32(&v, tmpV_Array)
 			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
-			select {
-			case <-HandoffDone:
-				return
-			case RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}:
-			}
+			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
 		}
 	}()
 
-- 
2.43.0


From c0629da0d786c2529d0fb9ee22ba8b9257347ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 33/43] fix: take one message of each member in transfer and
 handoff

---
 internal/party/ProactivizeAndShareDist.go |  9 ++++++---
 internal/party/ShareReduce.go             |  9 +++++++--
 internal/party/party_utils.go             | 13 +++++++++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 3e89761..e6512a0 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -260,10 +260,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// 	SigShare[i] = make(map[uint32][]byte)
 	// }
 
+	var reshareTaken sync.Map
 	for ctr := uint32(1); ctr <= p.N; ctr++ {
 		//ctr is not used here
 		go func(ctr uint32) {
-			m := <-p.GetMessage("Reshare", ID)
+			m := p.getFirstMessage("Reshare", ID, &reshareTaken)
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
@@ -618,10 +619,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var SuccessSent = false
 	var SuccessSentChan = make(chan bool, 1)
 
+	var shareDistTaken sync.Map
 	for index := uint32(0); index < p.N; index++ {
 		//index is not used here
 		go func(index uint32) {
-			m := <-p.GetMessage("ShareDist", ID)
+			m := p.getFirstMessage("ShareDist", ID, &shareDistTaken)
 
 			var ReceivedShareDistData protobuf.ShareDist
 			proto.Unmarshal(m.Data, &ReceivedShareDistData)
@@ -691,8 +693,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	go func() {
 		<-SuccessSentChan
+		var successTaken sync.Map
 		for {
-			<-p.GetMessage("Success", ID)
+			p.getFirstMessage("Success", ID, &successTaken)
 			// the content is useless here
 			// proto.Unmarshal(m.Data, &ReceivedSuccessData)
 			SuccessCount++
diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 249a37c..e5316cb 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -8,6 +8,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"log"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -71,8 +72,10 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 
 	var cnt = 0 //used to judge whether to execute p.ShareReduceStart_new = time.Now()
 
+	var taken sync.Map //the old parties whose messages were taken
+
 	for {
-		m := <-p.GetMessage("ShareReduce", ID)
+		m := p.getFirstMessage("ShareReduce", ID, &taken)
 		if cnt == 0 {
 			p.ShareReduceStart_new = time.Now()
 		}
@@ -174,8 +177,10 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 
 	var cnt = 0 //used to judge whether to execute p.PrepareStart_new = time.Now()
 
+	var taken sync.Map //the old parties whose messages were taken
+
 	for {
-		msg := <-p.GetMessage("Prepare", ID)
+		msg := p.getFirstMessage("Prepare", ID, &taken)
 		if cnt == 0 {
 			p.PrepareStart_new = time.Now()
 		}
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index d676632..4b3aaba 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -357,3 +357,16 @@ func (p *HonestParty) InterpolateComOrWitByKnownIndexes(degree uint32, targetInd
 		return *bls.LinCombG1(List, lambda)
 	}
 }
+
+//getFirstMessage waits for a message of a party of the committee from which none was taken before
+func (p *HonestParty) getFirstMessage(messageType string, ID []byte, taken *sync.Map) *protobuf.Message {
+	for {
+		m := <-p.GetMessage(messageType, ID)
+		if m.Sender >= p.N {
+			continue
+		}
+		if _, repeated := taken.LoadOrStore(m.Sender, true); !repeated {
+			return m
+		}
+	}
+}
-- 
2.43.0


From f7ef2c692f9cb661e7c78f42d51d1a6fcd9fa38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 34/43] fix: signatures on a resharing are for one handoff only

---
 internal/party/ProactivizeAndShareDist.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index e6512a0..d91227b 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -303,7 +303,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				//log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v ok\n", p.PID, m.Sender)
 
 				//sign sig share for indexJ (index 0 is not used)
-				SigShare, _ := p.tblsScheme.Sign(p.SigSK, []byte(strconv.FormatUint(uint64(indexJ), 10)))
+				SigShare, _ := p.tblsScheme.Sign(p.SigSK, reshareSigMessage(ID, indexJ))
 				//prepare the Recover message
 				var RecoverMessage protobuf.Recover
 				RecoverMessage.Index = indexJ
@@ -413,7 +413,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				KZGVerifyOk := p.KZG.CheckProofSingle(&C, &wkij, &index, &vkij)
 				p.mutexKZG.Unlock()
 
-				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
+				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, reshareSigMessage(ID, k), ReceivedSigShare)
 
 				if KZGVerifyOk && (SigShareVerifyOk == nil) {
 					mutexSRec.Lock()
@@ -437,7 +437,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F+1), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, reshareSigMessage(ID, k), tmpSig, int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
@@ -724,3 +724,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	<-EnterNormalChan
 	log.Printf("[ShareDist][New party %v] Exit Handoff\n", p.PID)
 }
+
+//reshareSigMessage is what a party signs when the resharing of party j was valid in this handoff
+func reshareSigMessage(ID []byte, j uint32) []byte {
+	return []byte(string(ID) + "_reshare," + strconv.FormatUint(uint64(j), 10))
+}
-- 
2.43.0


From 512904abd7bfc3cc8fcdc9308a110437cc808603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 35/43] fix: the agreement of a handoff decides only on
 resharings that were signed

---
 internal/party/ProactivizeAndShareDist.go | 28 +++++++++++++++++++++--
 internal/party/main_process.go            | 10 ++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index d91227b..e1d0c10 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -1,6 +1,7 @@
 package party
 
 import (
+	"errors"
 	"log"
 	"strconv"
 	"sync"
@@ -450,7 +451,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							MVBAInData, _ := proto.Marshal(MVBAIn)
 							MVBASent = true
 							go func() {
-								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+								MVBAResChan <- MainProcessWithPredicate(p, ID, MVBAInData, []byte{}, func(value []byte) error {
+									return p.checkMVBAIn(ID, value)
+								}) //temporary solution (MainProcess means smvba.MainProcess)
 							}()
 						}
 						mutexMVBAIn.Unlock()
@@ -464,7 +467,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}
 
 	//Refresh
-	//TODO: implement MVBA's verification
 	MVBAResData := <-MVBAResChan
 	var MVBARes protobuf.MVBAIN
 	proto.Unmarshal(MVBAResData, &MVBARes)
@@ -729,3 +731,25 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 func reshareSigMessage(ID []byte, j uint32) []byte {
 	return []byte(string(ID) + "_reshare," + strconv.FormatUint(uint64(j), 10))
 }
+
+//checkMVBAIn checks that value names at least t+1 parties whose resharings were signed by 2t+1 parties each
+func (p *HonestParty) checkMVBAIn(ID []byte, value []byte) error {
+	var in protobuf.MVBAIN
+	if err := proto.Unmarshal(value, &in); err != nil {
+		return err
+	}
+	if uint32(len(in.J)) < p.F+1 || len(in.Sig) != len(in.J) {
+		return errors.New("too few resharings or signatures")
+	}
+	named := make(map[uint32]bool)
+	for i, j := range in.J {
+		if j < 1 || j > p.N || named[j] {
+			return errors.New("not distinct parties")
+		}
+		named[j] = true
+		if err := p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), reshareSigMessage(ID, j), in.Sig[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 211457c..dc9a3fd 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -18,6 +18,11 @@ import (
 
 //MainProcess is the main process of smvba instances
 func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []byte {
+	return MainProcessWithPredicate(p, ID, value, validation, nil)
+}
+
+//MainProcessWithPredicate is MainProcess with a predicate which the decided value has to fulfil
+func MainProcessWithPredicate(p *HonestParty, ID []byte, value []byte, validation []byte, predicate func([]byte) error) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
 	leaders := []uint32{} //of the previous views
@@ -42,6 +47,11 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 
 		//a value proposed in a later view has to respect the locks of the previous ones
 		proposalValidator := func(p *HonestParty, _ []byte, _ uint32, value []byte, validation []byte) error {
+			if predicate != nil {
+				if err := predicate(value); err != nil {
+					return err
+				}
+			}
 			return checkJustified(p, ID, leaders, value, validation)
 		}
 
-- 
2.43.0


From dc221978c5d6f6b08d74aa3ddfef646ec4643fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 36/43] fix: after a handoff a member holds the commitments and
 witnesses of the new sharing

---
 internal/party/ProactivizeAndShareDist.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index e1d0c10..38f8131 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -577,6 +577,16 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		//log.Printf("[ShareDist Commit][New party %v] Commit done\n", p.PID)
 	}()
 
+	//keep the commitments of the new sharing, which p.Proof holds from now on
+	oldProof := new(Pi)
+	oldProof.Init(p.F)
+	oldProof.Set(p.Proof, p.F)
+	for j := uint32(1); j <= 2*p.F+1; j++ {
+		p.mutexKZG.Lock()
+		bls.AddG1(&p.Proof.PiContents[j].CBj, &oldProof.PiContents[j].CBj, &CQsum[j])
+		p.mutexKZG.Unlock()
+	}
+
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
@@ -585,11 +595,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
-				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
+				bls.CopyG1(&oldCB, &oldProof.PiContents[j].CBj)
 			} else {
 				CBList := make([]bls.G1Point, 2*p.F+2)
 				for i := uint32(1); i <= 2*p.F+1; i++ {
-					bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
+					bls.CopyG1(&CBList[i], &oldProof.PiContents[i].CBj)
 				}
 				p.mutexKZG.Lock()
 				oldCB = p.InterpolateComOrWit(2*p.F, j, CBList[1:])
@@ -668,6 +678,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					for t := uint32(0); t < 2*p.F+1; t++ {
 						bls.AsFr(&DistX[t], uint64(SB[t].index))
 						bls.CopyFr(&DistY[t], &SB[t].v)
+						//the next handoff needs the witnesses of these items
+						bls.CopyFr(&p.witnessIndexes[t], &DistX[t])
+						bls.CopyG1(&p.witness[t], &SB[t].w)
 					}
 
 					p.fullShare = polyring.LagrangeInterpolate(2*int(p.F), DistX, DistY)
-- 
2.43.0


From 531ab47ba4f0f9605b1a651148ca48d7fd404f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 37/43] fix: points of a share distribution that arrive
 together are not lost

---
 internal/party/ProactivizeAndShareDist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 38f8131..fad2f76 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -525,6 +525,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		SComChan[i] = make(chan bool, 1)
 	}
 	var SB = make([]SBElement, 0)
+	var SBMutex sync.Mutex
 	var SComMutex sync.Mutex
 
 	var startCommitChan = make(chan bool, 1)
@@ -664,6 +665,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			if verifyKZGOk {
 				//log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v SUCCESS\n", p.PID, j)
+				SBMutex.Lock()
+				defer SBMutex.Unlock()
 				SB = append(SB, SBElement{
 					index: j,
 					CB:    currentCB,
-- 
2.43.0


From 664e0a78a0f4296e97e1d6ce0d2a5d0a815f784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 38/43] fix: malformed contents in a handoff do not stop a node

---
 internal/party/ProactivizeAndShareDist.go | 53 ++++++++++++++---------
 internal/party/party_utils.go             | 16 +++++++
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index fad2f76..aa9ae2d 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -149,12 +149,16 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
+			if uint32(len(ReceivedData.Pi)) < 2*p.F+1 {
+				return
+			}
 
 			//TODO: This part can be replaced by verifying the commitment of KZG (reducing the communication cost from O(2t+1) to O(1))
 			GFjList := make([]bls.G1Point, 2*p.F+1)
 			for i := uint32(0); i < 2*p.F+1; i++ {
-				tmpGFj, _ := bls.FromCompressedG1(ReceivedData.Pi[i].GFj)
-				bls.CopyG1(&GFjList[i], tmpGFj)
+				if !decodeG1(&GFjList[i], ReceivedData.Pi[i].GFj) {
+					return
+				}
 			}
 			p.mutexKZG.Lock()
 			interRes := p.InterpolateComOrWit(2*p.F, 0, GFjList)
@@ -170,10 +174,13 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			//parse piJ from RBC1J
 			for k := uint32(0); k < 2*p.F+1; k++ {
-				CQk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
-				CZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
-				wZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
-				GFk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].GFj)
+				CQk, err1 := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
+				CZk, err2 := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
+				wZk, err3 := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
+				GFk, err4 := bls.FromCompressedG1(ReceivedData.Pi[k].GFj)
+				if err1 != nil || err2 != nil || err3 != nil || err4 != nil {
+					return
+				}
 
 				var mulRes bls.G1Point
 				p.mutexKZG.Lock()
@@ -268,6 +275,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			m := p.getFirstMessage("Reshare", ID, &reshareTaken)
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
+			if uint32(len(ReceivedReshareData.Qk)) < 2*p.F+1 || uint32(len(ReceivedReshareData.WQk)) < 2*p.F+1 {
+				return
+			}
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
 
 			indexJ := m.Sender + 1
@@ -282,11 +292,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var verifyReshareOK = true
 
 			for k := uint32(1); k <= 2*p.F+1; k++ {
-				vjki_bytes := [32]byte{}
-				copy(vjki_bytes[:], ReceivedReshareData.Qk[k-1])
-				bls.FrFrom32(&vjki[k], vjki_bytes)
-				tmpWjki, _ := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
-				wjki[k] = *tmpWjki
+				if !decodeFr(&vjki[k], ReceivedReshareData.Qk[k-1]) || !decodeG1(&wjki[k], ReceivedReshareData.WQk[k-1]) {
+					return
+				}
 
 				C := CQ[indexJ][k]
 				var position_vjki bls.Fr
@@ -372,12 +380,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			}
 			recovered[k][m.Sender] = true
 			//log.Printf("[Proactivize Recover][New party %v] Have received Recover message from party %v, k=%v\n", p.PID, m.Sender, k)
-			var tmpV_Array [32]byte
-			copy(tmpV_Array[:], ReceivedRecoverData.V)
 			var v bls.Fr
-			bls.FrFrom32(&v, tmpV_Array)
-			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
-			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
+			var w bls.G1Point
+			if !decodeFr(&v, ReceivedRecoverData.V) || !decodeG1(&w, ReceivedRecoverData.W) {
+				continue
+			}
+			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, w, ReceivedRecoverData.SigShare}
 		}
 	}()
 
@@ -593,7 +601,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		go func(j uint32) {
 			m := p.RBCReceiveFrom([]byte(string(ID)+"_2,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
-			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
+			ReceivedCB, err := bls.FromCompressedG1(NewCommitData)
+			if err != nil {
+				return
+			}
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
 				bls.CopyG1(&oldCB, &oldProof.PiContents[j].CBj)
@@ -653,10 +664,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var wjShareDist *bls.G1Point
 			var i bls.Fr
 
-			var vjShareDist_Array [32]byte
-			copy(vjShareDist_Array[:], ReceivedShareDistData.B)
-			bls.FrFrom32(&vjShareDist, vjShareDist_Array)
-			wjShareDist, _ = bls.FromCompressedG1(ReceivedShareDistData.WB)
+			wjShareDist = new(bls.G1Point)
+			if !decodeFr(&vjShareDist, ReceivedShareDistData.B) || !decodeG1(wjShareDist, ReceivedShareDistData.WB) {
+				return
+			}
 			bls.AsFr(&i, uint64(p.PID+1))
 
 			p.mutexKZG.Lock()
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index 4b3aaba..a8ffe0a 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -370,3 +370,19 @@ func (p *HonestParty) getFirstMessage(messageType string, ID []byte, taken *sync
 		}
 	}
 }
+
+//decodeFr reads the 32-byte encoding of a scalar
+func decodeFr(dst *bls.Fr, v []byte) bool {
+	v_bytes := [32]byte{}
+	return copy(v_bytes[:], v) == len(v) && len(v) == 32 && bls.FrFrom32(dst, v_bytes)
+}
+
+//decodeG1 reads the compressed encoding of a point
+func decodeG1(dst *bls.G1Point, v []byte) bool {
+	point, err := bls.FromCompressedG1(v)
+	if err != nil || point == nil {
+		return false
+	}
+	bls.CopyG1(dst, point)
+	return true
+}
-- 
2.43.0


From bdcb55e257793cb5bbada64144244bc15ce5b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 39/43] fix: malformed contents in a transfer do not stop a
 node

---
 internal/party/ShareReduce.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index e5316cb..5e171b4 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -83,13 +83,10 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
 
-		tmpC, _ := bls.FromCompressedG1(ShareReduceData.C)
-		tmpwJ, _ := bls.FromCompressedG1(ShareReduceData.W)
-		tmpvJ_bytes := [32]byte{}
-		copy(tmpvJ_bytes[:], ShareReduceData.V)
-		bls.CopyG1(&C, tmpC)
-		bls.CopyG1(&wJ, tmpwJ)
-		bls.FrFrom32(&vJ, tmpvJ_bytes)
+		if !decodeG1(&C, ShareReduceData.C) || !decodeG1(&wJ, ShareReduceData.W) || !decodeFr(&vJ, ShareReduceData.V) {
+			log.Printf("[ShareReduce][New party %v] Malformed Reduce message from old party %v\n", p.PID, m.Sender)
+			continue
+		}
 
 		var tmpPosition bls.Fr
 		bls.AsFr(&tmpPosition, uint64(m.Sender+1))
-- 
2.43.0


From 15645bf5c7532c3ea876a258a1729e1634f3c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 40/43] fix: a dealing whose columns do not belong to its
 secret commitment is rejected

---
 internal/party/VSS.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index d3b78a6..50e1d03 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -88,6 +88,7 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 
 	if !bls.EqualG1(&piReceived.Gs, &tmpGs) {
 		log.Printf("[VSSEcho][Party %v] VSSSend Verify FAIL, g_s=%v, but prod(g^F(index))=%v \n", p.PID, piReceived.Gs.String(), tmpGs.String())
+		return false
 	}
 
 	//Verify KZG.VerifyEval(CZjk,0,0,WZjk0) == 1 && CBjk == CZjk * g^Fj(k) for k in [1,2t+1]
-- 
2.43.0


From a3fdadf1892debe571b510e7505868e769fda5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 41/43] fix: a malformed dealing does not stop the receiving
 node

---
 internal/party/VSS.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index 50e1d03..efe4621 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -28,6 +28,10 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	if err != nil {
 		log.Printf("[VSSEcho][Party %v] Unmarshal err: %v\n", p.PID, err)
 	}
+	if !wellFormedVSSSend(&payloadMessage, p.F) {
+		log.Printf("[VSSEcho][Party %v] Malformed VSSSend\n", p.PID)
+		return
+	}
 	piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
 
 	for j := uint32(1); j < 2*p.F+2; j++ {
@@ -124,3 +128,24 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 
 	return true
 }
+
+//wellFormedVSSSend tells whether every part of a VSSSend message is present and can be decoded
+func wellFormedVSSSend(m *protobuf.VSSSend, F uint32) bool {
+	var point bls.G1Point
+	var value bls.Fr
+	n := int(2*F + 2)
+	if m.Pi == nil || len(m.Pi.PiContents) < n || len(m.BijList) < n || len(m.WBijList) < n || !decodeG1(&point, m.Pi.Gs) {
+		return false
+	}
+	for j := 1; j < n; j++ {
+		for _, v := range [][]byte{m.Pi.PiContents[j].CBj, m.Pi.PiContents[j].CZj, m.Pi.PiContents[j].WZ0, m.Pi.PiContents[j].GFj, m.WBijList[j]} {
+			if !decodeG1(&point, v) {
+				return false
+			}
+		}
+		if !decodeFr(&value, m.BijList[j]) {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 107827bd86d099a3e8ee46afd231ad2257df8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 42/43] fix: restore the CRLF line endings of RBC.go, which
 08b5671 had changed

---
 internal/party/RBC.go | 638 +++++++++++++++++++++---------------------
 1 file changed, 319 insertions(+), 319 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 6df2c27..83cb208 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -1,319 +1,319 @@
-package party
-
-import (
-	"bytes"
-	"crypto/sha256"
-	"log"
-	"sync"
-
-	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
-	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
-	"github.com/klauspost/reedsolomon"
-	"google.golang.org/protobuf/proto"
-)
-
-// received message shard (RS code) in RBC
-type mReceived struct {
-	j  int
-	mj []byte
-}
-
-//RBC propose
-func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
-	if err != nil {
-		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
-	}
-	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
-}
-
-func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
-	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
-}
-
-//RBCReceive takes part in an RBC instance whose sender may be any party, and returns the delivered message
-func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
-	return p.rbcReceive(ID, func(proposer uint32) bool { return true })
-}
-
-//RBCReceiveFrom takes part in the RBC instance of the given sender: proposals by others are not its messages
-func (p *HonestParty) RBCReceiveFrom(ID []byte, sender uint32) *protobuf.Message {
-	return p.rbcReceive(ID, func(proposer uint32) bool { return proposer == sender })
-}
-
-func (p *HonestParty) rbcReceive(ID []byte, isSender func(uint32) bool) *protobuf.Message {
-	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
-	var mLen int                 // the length of M_i
-	//here we ignore the validator function P(.)
-
-	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
-	var EchoMessageMap = make(map[string]map[string]int)
-
-	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
-	var T = make(map[string][]mReceived)
-
-	var isReadySent = false
-	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
-	var mutexEchoMap sync.Mutex
-	var mutexReadyMap sync.Mutex
-
-	var RSDecStartChan = make(chan string, p.N) //hashes with at least 2t+1 RS shards, once per further shard
-
-	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
-	for i := uint32(0); i < p.N; i++ {
-		hasReceivedReady[i] = false
-	}
-
-	//send RBCReady upon t+1 RBCReady and t+1 matching RBCEcho messages with this hash (line 13-15, Algo 4)
-	sendReadyIfMatched := func(hash string) {
-		mutexReadyMap.Lock()
-		readyNumber := uint32(len(T[hash]))
-		mutexReadyMap.Unlock()
-		if readyNumber < p.F+1 {
-			return
-		}
-		mutexEchoMap.Lock()
-		defer mutexEchoMap.Unlock()
-		for mi, counter := range EchoMessageMap[hash] {
-			if uint32(counter) < p.F+1 {
-				continue
-			}
-			mutex.Lock()
-			if !isReadySent {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-			}
-			mutex.Unlock()
-		}
-	}
-
-	//handle RBCPropose message
-	go func() {
-		m := <-p.GetMessage("RBCPropose", ID)
-		for !isSender(m.Sender) {
-			m = <-p.GetMessage("RBCPropose", ID)
-		}
-		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
-		M := m.Data
-		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-		hLocal := sha256.New()
-		hLocal.Write(M)
-
-		//encode
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		toSplit := M
-		if mLen == 0 {
-			toSplit = []byte{0} // an empty M can not be split
-		}
-		shards, _ := RSEncoder.Split(toSplit)
-		RSEncoder.Encode(shards)
-		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
-		copy(M1, shards)
-		for j := uint32(0); j < p.N; j++ {
-			//encapsulate, append the length of M at the end of hash
-			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
-			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
-			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
-
-			/*
-				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
-				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
-				// t+1 RBCReady messages and t+1 matching RBCEcho messages
-				if p.PID == 0 || p.PID == 1 {
-					if index != uint32(2) {
-						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-					}
-				} else {
-					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-				}
-			*/
-		}
-
-	}()
-
-	//handle Echo Message, line 11-12, Algo 4 in RBC paper
-	go func() {
-		var hasReceivedEcho = make(map[uint32]bool) //only the first RBCEcho of each party counts
-		for {
-			m := <-p.GetMessage("RBCEcho", ID)
-			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
-				continue
-			}
-			hasReceivedEcho[m.Sender] = true
-			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCEcho
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := string(payloadMessage.Hash)
-			mi := string(payloadMessage.M)
-
-			mutexEchoMap.Lock()
-			_, ok1 := EchoMessageMap[hash]
-			if ok1 {
-				//ok1 denotes that the map of hash exists
-				counter, ok2 := EchoMessageMap[hash][mi]
-				if ok2 {
-					//ok2 denotes that the map of (hash,M) exists, then increase the counter
-					EchoMessageMap[hash][mi] = counter + 1
-				} else {
-					//else establish the map of (hash,M) and set it as 1
-					EchoMessageMap[hash][mi] = 1
-				}
-			} else {
-				//else establish the map of (hash,M) and set it as 1
-				EchoMessageMap[hash] = make(map[string]int)
-				EchoMessageMap[hash][mi] = 1
-			}
-
-			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
-			mutex.Lock()
-			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
-			}
-			mutex.Unlock() //TODO: move this unlock into if statement
-			mutexEchoMap.Unlock()
-			//these may have been the t+1 matching RBCEcho messages that a RBCReady waits for
-			sendReadyIfMatched(hash)
-		}
-	}()
-
-	//handle RBCReady messages
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCReady", ID)
-			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
-				continue
-			} else {
-				hasReceivedReady[m.Sender] = true
-			}
-			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCReady
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := payloadMessage.Hash
-			hashString := string(hash)
-			mJ := payloadMessage.M
-			j := m.Sender //sender's pid, i.e., the index of the sender
-
-			mutexReadyMap.Lock()
-			//avoid the replay attack
-
-			//
-			_, ok := T[hashString]
-			if ok {
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			} else {
-				T[hashString] = make([]mReceived, 0)
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			}
-
-			// upon receiving |T| >= 2t+1 = n-t
-			if uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStartChan <- hashString
-			}
-			mutexReadyMap.Unlock()
-
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			sendReadyIfMatched(hashString)
-
-			//FIXME: kill this for loop when the RBC message is reconstructed
-			// isRec := <-RecDone
-			// if isRec {
-			// 	break
-			// }
-		}
-	}()
-
-	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	//up to t of them may be wrong, then further ones are needed
-	for hash := range RSDecStartChan {
-		mutexReadyMap.Lock()
-		var mReceivedTemp = make([]mReceived, len(T[hash]))
-		copy(mReceivedTemp, T[hash])
-		mutexReadyMap.Unlock()
-
-		mReconstructed, ok := p.rsReconstruct(mReceivedTemp, []byte(hash))
-		if ok {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
-		log.Printf("[party %v] needs more shards to reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	}
-	return nil
-}
-
-//rsReconstruct finds the message with the given hash (followed by the message's length), whose shards are among
-//the received ones. It tries the possible sets of correct shards until the hash fits.
-func (p *HonestParty) rsReconstruct(received []mReceived, hash []byte) ([]byte, bool) {
-	dataShards := int(p.N - (p.F + 1))
-	//the first 256/8 bytes in hash are the hash value
-	if len(hash) < 256/8 {
-		return nil, false
-	}
-	//the last several bytes in hash are the length of M' (see line 9, Algo 4 in RBC paper)
-	mLen := utils.BytesToInt(hash[256/8:])
-
-	//a shard of another length is wrong
-	shardLen := (mLen + dataShards - 1) / dataShards
-	if mLen == 0 {
-		shardLen = 1
-	}
-	var candidates []mReceived
-	for _, r := range received {
-		if len(r.mj) == shardLen {
-			candidates = append(candidates, r)
-		}
-	}
-
-	RSEncoder, err := reedsolomon.New(dataShards, int(p.F+1))
-	if err != nil {
-		return nil, false
-	}
-	chosen := make([]mReceived, 0, dataShards)
-	var try func(next int) ([]byte, bool)
-	try = func(next int) ([]byte, bool) {
-		if len(chosen) == dataShards {
-			var M = make([][]byte, p.N)
-			for _, r := range chosen {
-				M[r.j] = r.mj
-			}
-			if RSEncoder.ReconstructData(M) != nil {
-				return nil, false
-			}
-			//parse M and remove the padding zeros
-			var mReconstructed = make([]byte, 0, dataShards*shardLen)
-			for i := 0; i < dataShards; i++ {
-				mReconstructed = append(mReconstructed, M[i]...)
-			}
-			mReconstructed = mReconstructed[0:mLen]
-			hNew := sha256.Sum256(mReconstructed)
-			return mReconstructed, bytes.Equal(hNew[:], hash[:256/8])
-		}
-		for i := next; i <= len(candidates)-(dataShards-len(chosen)); i++ {
-			chosen = append(chosen, candidates[i])
-			M, ok := try(i + 1)
-			chosen = chosen[:len(chosen)-1]
-			if ok {
-				return M, true
-			}
-		}
-		return nil, false
-	}
-	return try(0)
-}
+package party
+
+import (
+	"bytes"
+	"crypto/sha256"
+	"log"
+	"sync"
+
+	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
+	"github.com/klauspost/reedsolomon"
+	"google.golang.org/protobuf/proto"
+)
+
+// received message shard (RS code) in RBC
+type mReceived struct {
+	j  int
+	mj []byte
+}
+
+//RBC propose
+func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
+	if err != nil {
+		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
+	}
+	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
+}
+
+func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
+	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
+}
+
+//RBCReceive takes part in an RBC instance whose sender may be any party, and returns the delivered message
+func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	return p.rbcReceive(ID, func(proposer uint32) bool { return true })
+}
+
+//RBCReceiveFrom takes part in the RBC instance of the given sender: proposals by others are not its messages
+func (p *HonestParty) RBCReceiveFrom(ID []byte, sender uint32) *protobuf.Message {
+	return p.rbcReceive(ID, func(proposer uint32) bool { return proposer == sender })
+}
+
+func (p *HonestParty) rbcReceive(ID []byte, isSender func(uint32) bool) *protobuf.Message {
+	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
+	var mLen int                 // the length of M_i
+	//here we ignore the validator function P(.)
+
+	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
+	var EchoMessageMap = make(map[string]map[string]int)
+
+	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
+	var T = make(map[string][]mReceived)
+
+	var isReadySent = false
+	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
+	var mutexEchoMap sync.Mutex
+	var mutexReadyMap sync.Mutex
+
+	var RSDecStartChan = make(chan string, p.N) //hashes with at least 2t+1 RS shards, once per further shard
+
+	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
+	for i := uint32(0); i < p.N; i++ {
+		hasReceivedReady[i] = false
+	}
+
+	//send RBCReady upon t+1 RBCReady and t+1 matching RBCEcho messages with this hash (line 13-15, Algo 4)
+	sendReadyIfMatched := func(hash string) {
+		mutexReadyMap.Lock()
+		readyNumber := uint32(len(T[hash]))
+		mutexReadyMap.Unlock()
+		if readyNumber < p.F+1 {
+			return
+		}
+		mutexEchoMap.Lock()
+		defer mutexEchoMap.Unlock()
+		for mi, counter := range EchoMessageMap[hash] {
+			if uint32(counter) < p.F+1 {
+				continue
+			}
+			mutex.Lock()
+			if !isReadySent {
+				isReadySent = true
+				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+				if err != nil {
+					log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
+				}
+				// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
+			}
+			mutex.Unlock()
+		}
+	}
+
+	//handle RBCPropose message
+	go func() {
+		m := <-p.GetMessage("RBCPropose", ID)
+		for !isSender(m.Sender) {
+			m = <-p.GetMessage("RBCPropose", ID)
+		}
+		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
+		M := m.Data
+		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
+		hLocal := sha256.New()
+		hLocal.Write(M)
+
+		//encode
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		toSplit := M
+		if mLen == 0 {
+			toSplit = []byte{0} // an empty M can not be split
+		}
+		shards, _ := RSEncoder.Split(toSplit)
+		RSEncoder.Encode(shards)
+		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
+		copy(M1, shards)
+		for j := uint32(0); j < p.N; j++ {
+			//encapsulate, append the length of M at the end of hash
+			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
+			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
+			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
+
+			/*
+				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
+				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
+				// t+1 RBCReady messages and t+1 matching RBCEcho messages
+				if p.PID == 0 || p.PID == 1 {
+					if index != uint32(2) {
+						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+					}
+				} else {
+					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+				}
+			*/
+		}
+
+	}()
+
+	//handle Echo Message, line 11-12, Algo 4 in RBC paper
+	go func() {
+		var hasReceivedEcho = make(map[uint32]bool) //only the first RBCEcho of each party counts
+		for {
+			m := <-p.GetMessage("RBCEcho", ID)
+			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
+			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCEcho
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := string(payloadMessage.Hash)
+			mi := string(payloadMessage.M)
+
+			mutexEchoMap.Lock()
+			_, ok1 := EchoMessageMap[hash]
+			if ok1 {
+				//ok1 denotes that the map of hash exists
+				counter, ok2 := EchoMessageMap[hash][mi]
+				if ok2 {
+					//ok2 denotes that the map of (hash,M) exists, then increase the counter
+					EchoMessageMap[hash][mi] = counter + 1
+				} else {
+					//else establish the map of (hash,M) and set it as 1
+					EchoMessageMap[hash][mi] = 1
+				}
+			} else {
+				//else establish the map of (hash,M) and set it as 1
+				EchoMessageMap[hash] = make(map[string]int)
+				EchoMessageMap[hash][mi] = 1
+			}
+
+			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
+			mutex.Lock()
+			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
+				isReadySent = true
+				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+				if err != nil {
+					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+				}
+				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
+			}
+			mutex.Unlock() //TODO: move this unlock into if statement
+			mutexEchoMap.Unlock()
+			//these may have been the t+1 matching RBCEcho messages that a RBCReady waits for
+			sendReadyIfMatched(hash)
+		}
+	}()
+
+	//handle RBCReady messages
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCReady", ID)
+			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
+				continue
+			} else {
+				hasReceivedReady[m.Sender] = true
+			}
+			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCReady
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := payloadMessage.Hash
+			hashString := string(hash)
+			mJ := payloadMessage.M
+			j := m.Sender //sender's pid, i.e., the index of the sender
+
+			mutexReadyMap.Lock()
+			//avoid the replay attack
+
+			//
+			_, ok := T[hashString]
+			if ok {
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			} else {
+				T[hashString] = make([]mReceived, 0)
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			}
+
+			// upon receiving |T| >= 2t+1 = n-t
+			if uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecStartChan <- hashString
+			}
+			mutexReadyMap.Unlock()
+
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			sendReadyIfMatched(hashString)
+
+			//FIXME: kill this for loop when the RBC message is reconstructed
+			// isRec := <-RecDone
+			// if isRec {
+			// 	break
+			// }
+		}
+	}()
+
+	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
+	//up to t of them may be wrong, then further ones are needed
+	for hash := range RSDecStartChan {
+		mutexReadyMap.Lock()
+		var mReceivedTemp = make([]mReceived, len(T[hash]))
+		copy(mReceivedTemp, T[hash])
+		mutexReadyMap.Unlock()
+
+		mReconstructed, ok := p.rsReconstruct(mReceivedTemp, []byte(hash))
+		if ok {
+			var replyMessage protobuf.Message
+			proto.Unmarshal(mReconstructed, &replyMessage)
+			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+			return &replyMessage
+		}
+		log.Printf("[party %v] needs more shards to reconstruct the message, RBC instance ID: %s", p.PID, ID)
+	}
+	return nil
+}
+
+//rsReconstruct finds the message with the given hash (followed by the message's length), whose shards are among
+//the received ones. It tries the possible sets of correct shards until the hash fits.
+func (p *HonestParty) rsReconstruct(received []mReceived, hash []byte) ([]byte, bool) {
+	dataShards := int(p.N - (p.F + 1))
+	//the first 256/8 bytes in hash are the hash value
+	if len(hash) < 256/8 {
+		return nil, false
+	}
+	//the last several bytes in hash are the length of M' (see line 9, Algo 4 in RBC paper)
+	mLen := utils.BytesToInt(hash[256/8:])
+
+	//a shard of another length is wrong
+	shardLen := (mLen + dataShards - 1) / dataShards
+	if mLen == 0 {
+		shardLen = 1
+	}
+	var candidates []mReceived
+	for _, r := range received {
+		if len(r.mj) == shardLen {
+			candidates = append(candidates, r)
+		}
+	}
+
+	RSEncoder, err := reedsolomon.New(dataShards, int(p.F+1))
+	if err != nil {
+		return nil, false
+	}
+	chosen := make([]mReceived, 0, dataShards)
+	var try func(next int) ([]byte, bool)
+	try = func(next int) ([]byte, bool) {
+		if len(chosen) == dataShards {
+			var M = make([][]byte, p.N)
+			for _, r := range chosen {
+				M[r.j] = r.mj
+			}
+			if RSEncoder.ReconstructData(M) != nil {
+				return nil, false
+			}
+			//parse M and remove the padding zeros
+			var mReconstructed = make([]byte, 0, dataShards*shardLen)
+			for i := 0; i < dataShards; i++ {
+				mReconstructed = append(mReconstructed, M[i]...)
+			}
+			mReconstructed = mReconstructed[0:mLen]
+			hNew := sha256.Sum256(mReconstructed)
+			return mReconstructed, bytes.Equal(hNew[:], hash[:256/8])
+		}
+		for i := next; i <= len(candidates)-(dataShards-len(chosen)); i++ {
+			chosen = append(chosen, candidates[i])
+			M, ok := try(i + 1)
+			chosen = chosen[:len(chosen)-1]
+			if ok {
+				return M, true
+			}
+		}
+		return nil, false
+	}
+	return try(0)
+}
-- 
2.43.0


From 57abdf0f15a530c1e4d5c34ec25317232564c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 43/43] fix: the node program knows the role names that its
 script gives

---
 cmd/DyCAPs/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/DyCAPs/main.go b/cmd/DyCAPs/main.go
index 8e4fe6d..d67f3a2 100644
--- a/cmd/DyCAPs/main.go
+++ b/cmd/DyCAPs/main.go
@@ -36,8 +36,8 @@ func main() {
 	} else if *option1 == "2" {
 		sk, pk := party.SigKeyGenFix(uint32(*N), uint32(2**F+1))
 		skNew, pkNew := party.SigKeyGenFix_New(uint32(*N), uint32(2**F+1))
-		switch *option2 {
-		case "oldCommittee":
+		switch *option2 { //test_multiCommittee.sh uses currentCommitee and newCommitee
+		case "oldCommittee", "currentCommitee":
 			OutputLog, err := os.OpenFile(*metadataPath+"/exeLogOld"+strconv.Itoa(*id), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0777)
 			if err != nil {
 				log.Fatalf("error opening file: %v", err)
@@ -72,7 +72,7 @@ func main() {
 			fmt.Fprintf(f, "ShareReduceLatencyOld, %d\n", p.ShareReduceEnd_old.Sub(p.ShareReduceStart_old).Nanoseconds())
 
 			time.Sleep(20000 * time.Second)
-		case "newCommittee":
+		case "newCommittee", "newCommitee":
 			OutputLog, err := os.OpenFile(*metadataPath+"/exeLogNew"+strconv.Itoa(*id), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0777)
 			if err != nil {
 				log.Fatalf("error opening file: %v", err)
-- 
2.43.0

