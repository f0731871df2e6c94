From a04d9dd67fb2f07d4a77afc60c197cf370ffc0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 01/16] fix: updating a leaf-layer vertex left its commitment
 without the new sum

The second update of a vertex above the leaves replaced the entry at index
len(values) instead of the sum entry, and took the new sum for the old one, so
the commitment no longer matched the stored values and proofs failed.
---
 verkle/tree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..4a14ea7 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -401,6 +401,7 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	new := descendants[index].(int64)
 	newVal := c.NewZrFromInt(new)
 
+	oldSum := v.sum
 	v.sum = updateSum(v.sum, oldVal, newVal)
 
 	// Update index with new value
@@ -413,15 +414,15 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 		}
 	}
 
-	// Artificially append the sum
-	m = append(m, v.sum)
+	// The commitment still holds the previous sum
+	m[t.PP.N-2] = oldSum
 
 	// Update index with new value
 	pp.Update(t.PP, v.V, m, newVal, index)
 	v.values[uint16(index)] = newVal
 
 	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	pp.Update(t.PP, v.V, m, v.sum, t.PP.N-2)
 
 	return key
 }
-- 
2.43.0


From db901ea0fa2dcd8b938b4e64028d7d0e78ee3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 02/16] fix: Root() kept returning the first root it had read

The tree wrote to the underlying DB and not through DBMemorizeRoot, so the
memorized root was never refreshed by later updates.
---
 pol/pol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..c616b9c 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -54,8 +54,12 @@ func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint
 	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
 	tree.PP = pp.PPPP
 
+	// The tree has to write through the memorized root, otherwise it goes stale
+	memorizeRoot := &DBMemorizeRoot{DB: db}
+	tree.DB = memorizeRoot
+
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   memorizeRoot,
 		pp:   pp,
 		tree: tree,
 	}
-- 
2.43.0


From 628799fdaf23a869e35e7be142f984ebe0c4c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 03/16] fix: pad the path of small decimal ids to the full
 length

Only one zero was appended, so ids with leading zeros (and with fanout 3 every
id below 129140163) got a path shorter than the tree is deep.
---
 sparse/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..76ef402 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -150,7 +150,7 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		}
 
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
-- 
2.43.0


From 5b32c71e07864db7a1263633c6fdbe0230dc3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 04/16] fix: reject ids that carry a sign

"+12345678" shared a leaf with "012345678", every "-" decimal id shared one
leaf, and a negative hexadecimal id never terminated.
---
 sparse/tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index 76ef402..b2cfd28 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -10,6 +10,7 @@ import (
 	"math/big"
 	"pol/common"
 	"strconv"
+	"strings"
 )
 
 type Tree struct {
@@ -137,6 +138,9 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
+		if strings.Trim(s, "0123456789") != "" {
+			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
+		}
 		num, err := strconv.ParseInt(s, 10, 32)
 		if err != nil {
 			panic(fmt.Sprintf("%s is not a valid decimal number", s))
@@ -222,7 +226,7 @@ func hash(s string) string {
 
 func convertPathWithFanout(s string, fanOut uint16) []uint16 {
 	n, ok := big.NewInt(0).SetString(s, 16)
-	if !ok {
+	if !ok || strings.ContainsAny(s, "+-") {
 		panic(fmt.Sprintf("failed parsing %s as a hexadecimal number", s))
 	}
 
-- 
2.43.0


From 04deda87cd01828e14c9afdb6752d1478b8ac533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 05/16] fix: verify the number of commitments in a liability
 proof

The liability is opened in the last commitment of the proof, so a provider
could append a commitment of its own and claim any liability against the
genuine root. Too few commitments or range proofs crashed the verifier.
---
 pol/pol.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index c616b9c..e535470 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -132,6 +132,11 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
 
+	// The liability is opened in the last commitment, so there must be exactly one per layer.
+	if len(lp.V) != len(path) || len(lp.RangeProofs) != len(path) {
+		return nil, fmt.Errorf("expected %d commitments and range proofs but got %d and %d", len(path), len(lp.V), len(lp.RangeProofs))
+	}
+
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
 		return nil, fmt.Errorf("root V does not match public known V value")
-- 
2.43.0


From 195180d17ee950d882165e8d17ddeb6cdcf5b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 06/16] fix: bind the digests of a liability proof to the
 aggregated opening

The digests were checked against the vertices below, and the aggregated opening
against the commitments above, but never against each other: any subtree with
the right total could be shown under the genuine root.
---
 pol/pol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index e535470..8199671 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -205,6 +205,15 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
 
+	// The aggregation must open exactly the digests of the hash chain.
+	var exponents common.Vec
+	for i := range lp.W {
+		exponents = append(exponents, pp.RO(publicParams.PPPP, lp.W, i))
+	}
+	if Σ := lp.Digests[:len(lp.W)].InnerProd(exponents); !Σ.Equals(lp.PointProofΣ) {
+		return nil, fmt.Errorf("hash chain aggregation does not correspond to the digests")
+	}
+
 	saStart := time.Now()
 	if err := lp.SumArgumentProof.VerifyAggregated(publicParams.SAPP, lp.V); err != nil {
 		return nil, fmt.Errorf("failed verifying sum argument: %v", err)
-- 
2.43.0


From 63db30b58da98c4f7cfad05f8e06dbeee4b6120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 07/16] fix: reject negative sums and liabilities

Exponentiation in the target group ignores the sign of the exponent, so a proof
of liability (or total) x also verified for -x.
---
 pol/pol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 8199671..c839b39 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -243,6 +243,9 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		return nil, detectedRangeProofErr.Load().(error)
 	}
 
+	if lp.LiabilityProof.Sum < 0 {
+		return nil, fmt.Errorf("negative liability %d", lp.LiabilityProof.Sum)
+	}
 	if err := pp.Verify(publicParams.PPPP, common.IntToZr(lp.LiabilityProof.Sum), lp.LiabilityProof.LiabilityProof, lp.V[len(lp.V)-1], int(path[len(path)-1])); err != nil {
 		return nil, fmt.Errorf("client liability proof is invalid: %v", err)
 	}
@@ -290,6 +293,9 @@ type TotalProof struct {
 }
 
 func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) error {
+	if tp.Sum < 0 {
+		return fmt.Errorf("negative sum %d", tp.Sum)
+	}
 	mi := common.IntToZr(tp.Sum)
 	return pp.Verify(publicParams.PPPP, mi, tp.LiabilityProof, V, publicParams.Fanout)
 }
-- 
2.43.0


From f6d5f6a8f23507f53bea7ad4706d2b1899465ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 08/16] fix: inner product challenge did not depend on the
 statement

The commitment was overwritten by the digest of the parameters before hashing
and the claimed inner product was not hashed at all. With a challenge known in
advance a false inner product can be proven.
---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..a8baf92 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -104,7 +104,8 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	hashPreImage = append(hashPreImage, c.Bytes()...)
+	hashPreImage = append(hashPreImage, pp.Digest...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From 1cf770b361785564a9acaade0b4259e4af7924ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 09/16] fix: chain the challenges of the inner product rounds

The challenge of a round depended on the L and R of that round only, so rounds
could be chosen independently of each other and out of order.
---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a8baf92..0bb4014 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -217,7 +217,8 @@ type nextParams struct {
 func computeNextParams(L *math.G1, R *math.G1, pp *PP, g common.G1v, h common.G1v, P *math.G1) nextParams {
 	n := len(g) / 2
 
-	digest := randomOracle(L, R, pp.Digest)
+	// P depends on all previous rounds
+	digest := randomOracle(L, R, append(P.Bytes(), pp.Digest...))
 	x := common.FieldElementFromBytes(digest)
 	xInverse := x.Copy()
 	xInverse.InvModP(common.GroupOrder)
-- 
2.43.0


From 9c4cdd27bc5e4c55862480ae6d54a12a3074bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 10/16] fix: verification no longer writes to the proof

The verifiers stored the commitment they computed in the proof and then read it
back. Two concurrent verifications of one proof could swap commitments, so that
a valid proof was rejected or a wrong statement accepted.
---
 bp/range.go | 5 +++++
 poe/poe.go  | 5 +++++
 sum/sa.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/bp/range.go b/bp/range.go
index 7e0f9a9..3bce61e 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -84,6 +84,11 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 
 	n := len(pp.Gs)
 
+	// The proof belongs to the caller, who may be verifying it elsewhere as well
+	rpCopy, Π := *rp, *rp.Π
+	rpCopy.Π = &Π
+	rp = &rpCopy
+
 	x := rangeProofRO1(pp, V, rp.W, rp.Q)
 
 	U := pp.F.Mul(rp.γ)
diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..e6b95a5 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,11 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	// The proof belongs to the caller, who may be verifying it elsewhere as well
+	proofCopy, ipp := *proof, *proof.IPP
+	proofCopy.IPP = &ipp
+	proof = &proofCopy
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
diff --git a/sum/sa.go b/sum/sa.go
index a341649..299e5a3 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -183,6 +183,11 @@ func randomOracleCVW(c *math.Zr, V *math.G1, W *math.G1) *math.Zr {
 }
 
 func (proof *Proof) Verify(pp *PP, a *Argument) error {
+	// The proof belongs to the caller, who may be verifying it elsewhere as well
+	proofCopy, π := *proof, *proof.π
+	proofCopy.π = &π
+	proof = &proofCopy
+
 	x := randomOracleCVW(proof.c, a.V, proof.W)
 
 	P := pp.F.Mul(proof.ρ)
-- 
2.43.0


From e880e4f583156025132a8506e72294c55623edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 11/16] fix: reject proofs whose vectors have the wrong length

Too short ones crashed the verifier (for a range proof, in a goroutine, which
ends the process); superfluous elements were ignored.
---
 bp/innerprod.go | 6 ++++++
 bp/ir.go        | 5 +++++
 poe/poe.go      | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 0bb4014..c1e5b0a 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -133,6 +134,11 @@ func (ipa *InnerProdArgument) Prove() *InnerProductProof {
 }
 
 func (ipp *InnerProductProof) Verify(pp *PP) error {
+	// There is one L and one R for each time the vectors can be halved
+	if len(ipp.LRs) != 2*(bits.Len(uint(len(pp.G)))-1) {
+		return fmt.Errorf("wrong number of group elements for vectors of length %d: %d", len(pp.G), len(ipp.LRs))
+	}
+
 	pp, P := computeInstanceSpecificParams(pp, ipp.P, ipp.C)
 	return verify(pp, P, pp.G, pp.H, ipp.LRs, ipp.a, ipp.b)
 }
diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..a6caa9f 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -14,6 +15,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 		panic(fmt.Sprintf("G Public Parameter should be a group vector of length that is power of two but its length is %d", n))
 	}
 
+	if len(Δ) != bits.Len(uint(n))-1 {
+		return nil, nil, fmt.Errorf("wrong number of rounds for a vector of length %d: %d", n, len(Δ))
+	}
+
 	n /= 2
 
 	G := common.G1v(pp.G)
diff --git a/poe/poe.go b/poe/poe.go
index e6b95a5..790f03e 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -74,6 +74,10 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 	proofCopy.IPP = &ipp
 	proof = &proofCopy
 
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.V) {
+		return fmt.Errorf("expected %d commitments but got %d and %d", len(e.V), len(proof.Vaggr), len(proof.Waggr))
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
-- 
2.43.0


From c91c579f9e21134ecd2fe1eb473aff24fbf8dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 12/16] fix: IsPowerOfTwo(0) did not terminate

---
 common/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index f1c29e8..93da320 100644
--- a/common/math.go
+++ b/common/math.go
@@ -496,7 +496,7 @@ func feFrom256Bits(bytes []byte) *fr.Element {
 }
 
 func IsPowerOfTwo(n uint16) bool {
-	if n == 1 {
+	if n == 0 || n == 1 {
 		return false
 	}
 
-- 
2.43.0


From 47dbe5012e34d1c43835d8017cf219c3bd291151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 13/16] fix: Serialize wrote no vertex contents

The tree holds the keys of the vertices and not the vertices themselves, so
every vertex was written as empty. An empty tree crashed.
---
 verkle/tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verkle/tree.go b/verkle/tree.go
index 4a14ea7..41d2658 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -188,7 +188,14 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 }
 
 func (t *Tree) Serialize(out io.Writer) {
+	if t.Tree.Root == nil {
+		return
+	}
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
+		// Inner vertices are kept in the DB under their key
+		if key, isKey := data.(string); isKey {
+			return t.DB.Get([]byte(key))
+		}
 		_, isVertex := data.(*Vertex)
 		if !isVertex {
 			return nil
-- 
2.43.0


From dcd89b69d79a3b7355699ea828dafef1fd87ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 14/16] fix: openings to the negated value were accepted

---
 pp/pointproofs.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..7bd793d 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -116,7 +116,7 @@ func Open(pp *PP, i int, m common.Vec) (mi *math.Zr, π *math.G1) {
 func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	left := common.G1v{C}.InnerProd(common.G2v{pp.G2s[pp.N-i-1]})
 	right := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right.Mul(pp.Gt.Exp(mi))
+	right.Mul(pp.Gt.Exp(reduce(mi)))
 
 	if left.Equals(right) {
 		return nil
@@ -124,6 +124,14 @@ func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	return fmt.Errorf("%v is not an element in index %d in %v", mi, i, C)
 }
 
+// reduce returns x modulo the group order.
+// Exponentiation in the target group ignores the sign of the exponent.
+func reduce(x *math.Zr) *math.Zr {
+	reduced := x.Copy()
+	reduced.Mod(GroupOrder)
+	return reduced
+}
+
 func Update(pp *PP, C *math.G1, m common.Vec, mi *math.Zr, i int) {
 	prevG := pp.G1s[i].Mul(m[i])
 	nextG := pp.G1s[i].Mul(mi)
@@ -157,7 +165,7 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	left := commitments.InnerProd(g2s.Mulv(exponents))
 
 	πg2 := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right := pp.Gt.Exp(Σ)
+	right := pp.Gt.Exp(reduce(Σ))
 	right.Mul(πg2)
 
 	if right.Equals(left) {
-- 
2.43.0


From d22fa2be0832ce79aaa0e2b8a21c19ecd412dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 15/16] fix: MulV shared one zero element among all results, so
 overwriting one entry corrupted later products

---
 common/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index 93da320..25865f8 100644
--- a/common/math.go
+++ b/common/math.go
@@ -330,7 +330,7 @@ func (g1v G1v) MulV(v Vec) G1v {
 	res := make(G1v, len(g1v))
 	for i := 0; i < len(res); i++ {
 		if v[i].Equals(c.NewZrFromInt(0)) {
-			res[i] = zeroG1
+			res[i] = zeroG1.Copy()
 			continue
 		}
 		res[i] = g1v[i].Mul(v[i])
-- 
2.43.0


From 32f8a452b321feb02c43d7fe93d42df2e4e0f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 16/16] fix: pp aggregation coefficients repeated after 256
 openings, so their values could be offset against each other

---
 pp/pointproofs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 7bd793d..e102c43 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -3,6 +3,7 @@ package pp
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 	"pol/common"
 
@@ -178,7 +179,9 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	index := make([]byte, 4)
+	binary.BigEndian.PutUint32(index, uint32(i))
+	h.Write(index)
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0

