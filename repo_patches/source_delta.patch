From 0b5c64872c193dc17738f365e6428630bebe1f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:17 +0000
Subject: [PATCH 01/24] fix: HashBP derives its second challenge from the
 second transcript

The second digest hashed the first buffer again, so y and z were always equal.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..0f9ee2d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 7de057a167ce28c12c74c89b15f669170250d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 02/24] fix: InnerProductProof.Verify no longer overwrites the
 proof it checks

Pprime aliased proof.Params.P and was updated in place, so verifying the same
proof twice rejected it the second time.
---
 bulletproofs/bip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..e19c46c 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,7 +227,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
-    Pprime := proof.Params.P
+    Pprime := new(p256.P256).Multiply(proof.Params.P, new(p256.P256).SetInfinity())
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-- 
2.43.0


From 70656c7d2206f3364614befc5122a7d82aae2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 03/24] fix: P256.Add keeps its left operand when the right one
 is infinity

It returned infinity, so commitments with zero randomness were wrong. Add is
only defined for distinct points: commitments and the verifier, which cannot
know that, now use Multiply. With Add the check of equation (67) also passed
when the two sides were opposite instead of equal.
---
 bulletproofs/bp.go  | 8 ++++----
 crypto/p256/p256.go | 4 ++--
 util/util.go        | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..398b5cc 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -287,7 +287,7 @@ func (proof *BulletProof) Verify() (bool, error) {
     // S^x
     Sx := new(p256.P256).ScalarMult(proof.S, x)
     // A.S^x
-    ASx := new(p256.P256).Add(proof.A, Sx)
+    ASx := new(p256.P256).Multiply(proof.A, Sx)
 
     // g^-z
     mz := bn.Sub(ORDER, z)
@@ -307,12 +307,12 @@ func (proof *BulletProof) Verify() (bool, error) {
     zynz22n, _ := VectorAdd(zyn, z22n)
 
     lP := new(p256.P256)
-    lP.Add(ASx, gpmz)
+    lP.Multiply(ASx, gpmz)
 
     // h'^(z.y^n + z^2.2^n)
     hprimeexp, _ := VectorExp(hprime, zynz22n)
 
-    lP.Add(lP, hprimeexp)
+    lP.Multiply(lP, hprimeexp)
 
     // Compute P - rhs  #################### Condition (67) ######################
 
@@ -322,7 +322,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..d3eeb65 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -77,8 +77,8 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
 
     }
diff --git a/util/util.go b/util/util.go
index 3f7a682..f9be044 100644
--- a/util/util.go
+++ b/util/util.go
@@ -70,7 +70,7 @@ message x, and randomness r, it outputs g^x.h^r.
 func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
     var C = new(p256.P256).ScalarBaseMult(x)
     Hr := new(p256.P256).ScalarMult(h, r)
-    C.Add(C, Hr)
+    C.Multiply(C, Hr)
     return C, nil
 }
 
-- 
2.43.0


From 6a5aee0a579fb9451bccc8523f6c58cb7fc0131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 04/24] fix: P256.Neg negates its argument, not its receiver

---
 crypto/p256/p256.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index d3eeb65..bef3ded 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -64,7 +64,7 @@ func (p *P256) Neg(a *P256) *P256 {
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
-- 
2.43.0


From b7024e11829d3cc0b202c734cd0c3e1a518b94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 05/24] fix: IsPowerOfTwo rejects the most negative int64

math.MinInt64 passed the bit test, and Setup then panicked on it.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 0f9ee2d..7cba23e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -130,5 +130,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From c719c1c7d97311e4e12e93836d4eec14a06b5a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 06/24] fix: bbsignatures.Keygen reports an error on failure,
 not on success

---
 crypto/bbsignatures/bb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..b0b2346 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
-- 
2.43.0


From 23667b7a2f20cefe40e82f280cdeb9e05a9e65af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:51 +0000
Subject: [PATCH 07/24] fix: point doubling in place no longer corrupts the z
 coordinate

Double overwrote c.y before reading a.y for z, so doubling a point into itself,
as Add does for Add(a, a) into a, gave a wrong point.
---
 crypto/bn256/curve.go | 9 +++++----
 crypto/bn256/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..b927942 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -216,6 +216,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t.Add(d, d)
     c.x.Sub(f, t)
 
+    // z is computed before y is overwritten, c and a may be the same point
+    t.Mul(a.y, a.z)
+    t.Mod(t, P)
+    c.z.Add(t, t)
+
     t.Add(C_, C_)
     t2.Add(t, t)
     t.Add(t2, t2)
@@ -224,10 +229,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t2.Mod(t2, P)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
-
     pool.Put(A)
     pool.Put(B)
     pool.Put(C_)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..d7c81e2 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -194,6 +194,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t.Add(d, d)
     c.x.Sub(f, t)
 
+    // z is computed before y is overwritten, c and a may be the same point
+    t.Mul(a.y, a.z, pool)
+    c.z.Add(t, t)
+
     t.Add(C_, C_)
     t2.Add(t, t)
     t.Add(t2, t2)
@@ -201,9 +205,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t2.Mul(e, c.y, pool)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
-
     A.Put(pool)
     B.Put(pool)
     C_.Put(pool)
-- 
2.43.0


From 885c3b02c3481d061d6786b8a7834d5294089339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:51 +0000
Subject: [PATCH 08/24] fix: twistPoint.MakeAffine keeps infinity and restores
 t for affine points

Normalising (for example marshalling) the point at infinity turned it into the
finite pair (0, 0). A point with z = 1 kept whatever t it had, so pairing with
the negative of an affine point gave a wrong value.
---
 crypto/bn256/twist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d7c81e2..4149690 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -237,6 +237,14 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 
 func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
     if c.z.IsOne() {
+        c.t.SetOne()
+        return c
+    }
+
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetZero()
+        c.t.SetZero()
         return c
     }
 
-- 
2.43.0


From cb41c73fa794db236cd94a0511fc6324de4db734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:51 +0000
Subject: [PATCH 09/24] fix: gfP12.MulScalar and Conjugate use their argument
 and return the result

---
 crypto/bn256/gfp12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..dc54e05 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -80,7 +80,7 @@ func (e *gfP12) IsOne() bool {
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
     e.x.Negative(a.x)
     e.y.Set(a.y)
-    return a
+    return e
 }
 
 func (e *gfP12) Negative(a *gfP12) *gfP12 {
@@ -138,8 +138,8 @@ func (e *gfP12) Mul(a, b *gfP12, pool *bnPool) *gfP12 {
 }
 
 func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
-    e.x.Mul(e.x, b, pool)
-    e.y.Mul(e.y, b, pool)
+    e.x.Mul(a.x, b, pool)
+    e.y.Mul(a.y, b, pool)
     return e
 }
 
-- 
2.43.0


From e714ca1ef9af47c3f6754c45dce52068acb77e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:51 +0000
Subject: [PATCH 10/24] fix: GT exponents may be negative, and GT.Exp writes
 its receiver only

GT.ScalarMult exponentiated by the two's complement bits of a negative scalar,
and GT.Exp overwrote its argument and left its receiver alone.
---
 crypto/bn256/bn256.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..d600b31 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -356,18 +356,16 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
-    e.p.Exp(a.p, k, new(bnPool))
+    if k.Sign() >= 0 {
+        e.p.Exp(a.p, k, new(bnPool))
+    } else {
+        e.p.Invert(e.p.Exp(a.p, new(big.Int).Neg(k), new(bnPool)), new(bnPool))
+    }
     return e
 }
 
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
-    var returnValue *GT
-    if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
-    } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
-    }
-    return returnValue
+    return e.ScalarMult(a, k)
 }
 
 func (e *GT) Invert(a *GT) *GT {
-- 
2.43.0


From 03ae924a31a68ab7db95f9568f2dd7b289f53932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:54 +0000
Subject: [PATCH 11/24] fix: ToByteArray returns the minimal encoding of
 -2^(8k-1)

---
 util/byteconversion/conversion.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/conversion.go b/util/byteconversion/conversion.go
index eaa5c59..4e3aa41 100644
--- a/util/byteconversion/conversion.go
+++ b/util/byteconversion/conversion.go
@@ -103,7 +103,12 @@ func ToByteArray(in *big.Int) []byte {
 
         convertedInt := new(big.Int).SetBytes(convertedBytes)
         convertedInt.Add(convertedInt, big.NewInt(1))
-        return convertedInt.Bytes()
+        result := convertedInt.Bytes()
+        if len(result) > length && (result[1]&128) != 0 {
+            // -2^(8k-1) fits in k bytes, the additional sign byte is redundant
+            return result[1:]
+        }
+        return result
     }
 }
 
-- 
2.43.0


From d41f56cadb41c845f75e18d8ee7e2429b850684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 12/24] fix: a lone minus sign is not a valid integer

---
 util/byteconversion/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/parse.go b/util/byteconversion/parse.go
index 0645c12..00b4cbf 100644
--- a/util/byteconversion/parse.go
+++ b/util/byteconversion/parse.go
@@ -64,6 +64,8 @@ func ConvertToBigInt(in []byte) (*big.Int, error) {
 
     s := string(in)
     i := new(big.Int)
-    i.SetString(s, 10)
+    if _, ok := i.SetString(s, 10); !ok && len(in) > 0 {
+        return nil, errInvalidBigInteger
+    }
     return i, nil
 }
-- 
2.43.0


From de3a79b391683fa369fc1be5237a5b077db894de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 13/24] fix: equal G2 elements have equal strings

The Jacobian coordinates were printed as they were, so the challenge computed
from a group element depended on how it had been computed.
---
 crypto/bn256/twist.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 4149690..0c73152 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,6 +65,7 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
+    c.MakeAffine(new(bnPool))
     return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
 }
 
-- 
2.43.0


From 87bac72c7217df44ff52e82acc993f8435e3d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 14/24] fix: CCS08 verifiers recompute the Fiat-Shamir
 challenge

VerifySet and VerifyUL took the challenge from the proof, and it did not depend
on the commitment: anyone could choose it and solve for the other values, for
any committed integer. It now binds the commitment and is checked.
---
 ccs08/ccs08.go | 14 ++++++++++++--
 util/util.go   |  6 ++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..77ecaa2 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -179,7 +179,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = HashSet(proof_out.a, proof_out.C, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -243,7 +243,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash(proof_out.a, proof_out.C, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -266,6 +266,11 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // c == Hash(a, C, D) ?
+    c, _ := HashSet(proof_out.a, proof_out.C, proof_out.D)
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -302,6 +307,11 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // c == Hash(a, C, D) ?
+    c, _ := Hash(proof_out.a, proof_out.C, proof_out.D)
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
diff --git a/util/util.go b/util/util.go
index f9be044..2b1341b 100644
--- a/util/util.go
+++ b/util/util.go
@@ -77,9 +77,10 @@ func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
 /*
 HashSet is responsible for the computing a Zp element given elements from GT and G2.
 */
-func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
+func HashSet(a *bn256.GT, C, D *bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     digest.Write([]byte(a.String()))
+    digest.Write([]byte(C.String()))
     digest.Write([]byte(D.String()))
     output := digest.Sum(nil)
     tmp := output[0:]
@@ -89,11 +90,12 @@ func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G2.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, C, D *bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
+    digest.Write([]byte(C.String()))
     digest.Write([]byte(D.String()))
     output := digest.Sum(nil)
     tmp := output[0:]
-- 
2.43.0


From 10baa323f7ba6dbc6cbc649821b8009aec796b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 15/24] fix: CCS08 proofs do not carry the prover's nonces

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 77ecaa2..64c115a 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -188,6 +188,8 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
     proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
+    // the nonces would reveal x and r
+    proof_out.s, proof_out.t, proof_out.m = nil, nil, nil
     return proof_out, nil
 }
 
@@ -254,6 +256,8 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
         proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
+    // the nonces would reveal x and r
+    proof_out.s, proof_out.t, proof_out.m = nil, nil, nil
     return proof_out, nil
 }
 
-- 
2.43.0


From 6a7b4b8881d21e31eb407bd33db7bce42126670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 16/24] fix: the CCS08 digit count covers the width of the
 range

It was taken from b alone, so with a negative a, or with b <= 0, honest proofs for
values inside [a, b) were rejected.
---
 ccs08/ccs08.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 64c115a..7ce8dbf 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -392,7 +392,7 @@ func (zkrp *ccs08) Setup(a, b int64) error {
         u = 57
         if u != 0 {
             l = 0
-            for i := b; i > 0; i = i / u {
+            for i := uint64(b) - uint64(a); i > 0; i = i / uint64(u) {
                 l = l + 1
             }
             params_out, e := SetupUL(u, l)
-- 
2.43.0


From ce5efe185402ab101b369be481e45c507646012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 17/24] fix: the CCS08 range prover reports the errors of its
 two sub-proofs

---
 ccs08/ccs08.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 7ce8dbf..ebe3f43 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -420,11 +420,17 @@ func (zkrp *ccs08) Prove() error {
     // x - b + ul
     xb := new(big.Int).Sub(zkrp.x, new(big.Int).SetInt64(zkrp.p.b))
     xb.Add(xb, ul)
-    first, _ := ProveUL(xb, zkrp.r, *zkrp.p.p)
+    first, e1 := ProveUL(xb, zkrp.r, *zkrp.p.p)
+    if e1 != nil {
+        return e1
+    }
 
     // x - a
     xa := new(big.Int).Sub(zkrp.x, new(big.Int).SetInt64(zkrp.p.a))
-    second, _ := ProveUL(xa, zkrp.r, *zkrp.p.p)
+    second, e2 := ProveUL(xa, zkrp.r, *zkrp.p.p)
+    if e2 != nil {
+        return e2
+    }
 
     zkrp.proof_out.p1 = first
     zkrp.proof_out.p2 = second
-- 
2.43.0


From 4e2532092c5f97ca55b52c01e987d89cb4233e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 18/24] fix: SetupGeneric rejects ranges wider than 2**32

Such a range was accepted, and then proofs for most of its values were rejected.
---
 bulletproofs/bprp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 7b196a5..b76a43a 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,6 +18,7 @@
 package bulletproofs
 
 import (
+    "errors"
     "math/big"
 )
 
@@ -45,6 +46,9 @@ SetupGeneric is responsible for calling the Setup algorithm for each
 BulletProof.
 */
 func SetupGeneric(a, b int64) (*bprp, error) {
+    if a < b && uint64(b)-uint64(a) > uint64(MAX_RANGE_END) {
+        return nil, errors.New("range can not be wider than 2**32")
+    }
     params := new(bprp)
     params.A = a
     params.B = b
-- 
2.43.0


From 136841599b6727b78de163031364dcaa45b82731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:59 +0000
Subject: [PATCH 19/24] fix: BulletProof.Verify binds the inner product proof
 to its statement

The inner product proof was checked against generators, a commitment and a base
point that it carried itself, so any valid one could be attached: Commit can be
solved for from equation (67), and the range was never checked.
---
 bulletproofs/bp.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 398b5cc..69832ce 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -326,7 +326,21 @@ func (proof *BulletProof) Verify() (bool, error) {
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-    ok, _ := proof.InnerProductProof.Verify()
+    // Its statement is the one that this proof fixes, not one that it brings along
+    ip := proof.InnerProductProof
+    ipParams, err := setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    if err != nil {
+        return false, err
+    }
+    if len(ip.Ls) != len(ip.Rs) || len(ip.Ls) > 62 || int64(1)<<uint(len(ip.Ls)) != params.N {
+        return false, nil
+    }
+    ux, _ := hashIP(ipParams.Gg, ipParams.Hh, proof.Commit, proof.Tprime, params.N)
+    ip.N = params.N
+    ip.U = new(p256.P256).ScalarMult(ipParams.Uu, ux)
+    ip.Params = ipParams
+    ip.Params.P = new(p256.P256).Multiply(proof.Commit, new(p256.P256).ScalarMult(ip.U, proof.Tprime))
+    ok, _ := ip.Verify()
 
     result := c65 && c67 && ok
 
-- 
2.43.0


From ee6aebab4d308a71e0bdb6eab303f717c385b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:59 +0000
Subject: [PATCH 20/24] fix: the Bulletproofs challenges bind the commitment
 and the whole transcript

V was in no challenge, and x did not depend on A and S. A prover could run the
protocol first and solve equation (65) for V, opening to any integer.
---
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 69832ce..2f54040 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := HashBP(V, A, S)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := HashBP(V, A, S, T1, T2)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -244,8 +244,8 @@ Verify returns true if and only if the proof is valid.
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+    y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7cba23e..06d7593 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -49,16 +49,16 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 }
 
 /*
-Hash is responsible for the computing a Zp element given elements from GT and G1.
+HashBP is responsible for the computing two Zp elements given elements from the group.
 */
-func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
-    buffer.WriteString(A.X.String())
-    buffer.WriteString(A.Y.String())
-    buffer.WriteString(S.X.String())
-    buffer.WriteString(S.Y.String())
+    for _, p := range points {
+        buffer.WriteString(p.X.String())
+        buffer.WriteString(p.Y.String())
+    }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
@@ -66,10 +66,10 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
 
     digest2 := sha256.New()
     var buffer2 bytes.Buffer
-    buffer2.WriteString(A.X.String())
-    buffer2.WriteString(A.Y.String())
-    buffer2.WriteString(S.X.String())
-    buffer2.WriteString(S.Y.String())
+    for _, p := range points {
+        buffer2.WriteString(p.X.String())
+        buffer2.WriteString(p.Y.String())
+    }
     buffer2.WriteString(result1.String())
     digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
-- 
2.43.0


From 42f056f76e91ef402805a1e7d19f3583db44e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:20 +0000
Subject: [PATCH 21/24] fix: bbsignatures.Sign returns an error for the message
 -privk

m + privk has no inverse then, and Sign dereferenced nil.
---
 crypto/bbsignatures/bb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index b0b2346..d52293b 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("Error while computing signature.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From 1dfe11ebd43acf93cb23815edfe05a87b45ac929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:45 +0000
Subject: [PATCH 22/24] fix: negation of a G2 point into itself keeps the y
 coordinate

---
 crypto/bn256/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 0c73152..280abc6 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -267,8 +267,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
     c.t.SetZero()
 }
-- 
2.43.0


From 0c9a22aaf996c22ad4c02d29bc559d094c025c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:49 +0000
Subject: [PATCH 23/24] fix: equal G1 elements print identically

---
 crypto/bn256/curve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index b927942..9e0ce91 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -49,7 +49,9 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 
 func (c *curvePoint) String() string {
     c.MakeAffine(new(bnPool))
-    return "(" + c.x.String() + ", " + c.y.String() + ")"
+    x := new(big.Int).Mod(c.x, P)
+    y := new(big.Int).Mod(c.y, P)
+    return "(" + x.String() + ", " + y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
-- 
2.43.0


From 8fb673c658daffbee4df485f7813da74b542b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 24/24] fix: Marshal and String leave the representation of
 their receiver alone

Both brought the receiver to affine form (or reduced it) in place, so two
goroutines that encoded one element at the same time, such as two verifiers of
one proof, could see a half-normalised point: valid proofs were rejected.
---
 crypto/bn256/bn256.go | 10 ++++++++++
 crypto/bn256/curve.go |  4 ++++
 crypto/bn256/twist.go |  4 ++++
 3 files changed, 18 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index d600b31..5bed5e3 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -142,6 +142,10 @@ func (e *G1) Neg(a *G1) *G1 {
 
 // Marshal converts n to a byte slice.
 func (n *G1) Marshal() []byte {
+    // work on a copy: n may be in use elsewhere
+    affine := newCurvePoint(nil)
+    affine.Set(n.p)
+    n = &G1{affine}
     n.p.MakeAffine(nil)
 
     xBytes := new(big.Int).Mod(n.p.x, P).Bytes()
@@ -283,6 +287,10 @@ func (e *G2) Neg(a *G2) *G2 {
 
 // Marshal converts n into a byte slice.
 func (n *G2) Marshal() []byte {
+    // work on a copy: n may be in use elsewhere
+    affine := newTwistPoint(nil)
+    affine.Set(n.p)
+    n = &G2{affine}
     n.p.MakeAffine(nil)
 
     xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
@@ -421,6 +429,8 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
+    // work on a copy: n may be in use elsewhere
+    n = &GT{newGFp12(nil).Set(n.p)}
     n.p.Minimal()
 
     xxxBytes := n.p.x.x.x.Bytes()
diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 9e0ce91..06900e6 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -48,6 +48,10 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 }
 
 func (c *curvePoint) String() string {
+    // work on a copy: c may be in use elsewhere
+    affine := newCurvePoint(nil)
+    affine.Set(c)
+    c = affine
     c.MakeAffine(new(bnPool))
     x := new(big.Int).Mod(c.x, P)
     y := new(big.Int).Mod(c.y, P)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 280abc6..984d13f 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,6 +65,10 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
+    // work on a copy: c may be in use elsewhere
+    affine := newTwistPoint(nil)
+    affine.Set(c)
+    c = affine
     c.MakeAffine(new(bnPool))
     return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
 }
-- 
2.43.0

