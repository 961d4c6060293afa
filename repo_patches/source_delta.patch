From f7895f0ee8342de49e83391c72b6c8962a9e7212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 01/17] fix: hkdf256_expand leaked its buffers when it rejected
 the output length

---
 src/signatures.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..39eb78c 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -98,16 +98,16 @@ int hkdf256_expand(
     size_t N = (L + 32 - 1) / 32; // Round up
     size_t bytesWritten = 0;
 
-    array<uint8_t, 32> T;
-    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
-    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
-
     if(N < 1 || N > 255)
     {
         //throw invalid_argument("assert(N >= 1 && N <= 255)");
         return -3;
     }
 
+    array<uint8_t, 32> T;
+    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
+    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
+
     for(size_t i = 1; i <= N; i++)
     {
         if(i == 1)
@@ -131,6 +131,8 @@ int hkdf256_expand(
         if(to_write <= 0 || to_write > 32)
         {
             //throw invalid_argument("assert(to_write > 0 && to_write <= 32)");
+            free(hmacInput1);
+            free(hmacInput);
             return -4;
         }
         memcpy(okm + bytesWritten, T.data(), to_write);
-- 
2.43.0


From e30bd2302c12c4d61c74603a45b1a74d063de4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 02/17] fix: report a failed allocation in HKDF and key
 derivation instead of using an unfilled buffer

---
 src/signatures.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 39eb78c..e1acaf1 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -1,5 +1,6 @@
 #include <bls12-381/bls12-381.hpp>
 #include "sha256.hpp"
+#include <new>
 #include <set>
 
 using namespace std;
@@ -107,21 +108,34 @@ int hkdf256_expand(
     array<uint8_t, 32> T;
     uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
     uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
+    if(hmacInput1 == NULL || hmacInput == NULL)
+    {
+        free(hmacInput1);
+        free(hmacInput);
+        return -6;
+    }
 
     for(size_t i = 1; i <= N; i++)
     {
+        int r = 0;
         if(i == 1)
         {
             memcpy(hmacInput1, info, infoLen);
             hmacInput1[infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
         }
         else
         {
             memcpy(hmacInput, T.data(), 32);
             memcpy(hmacInput + 32, info, infoLen);
             hmacInput[32 + infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+        }
+        if(r != 0)
+        {
+            free(hmacInput1);
+            free(hmacInput);
+            return r;
         }
         size_t to_write = L - bytesWritten;
         if(to_write > 32)
@@ -188,6 +202,10 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     uint8_t saltLen = 20;
 
     uint8_t *ikmHkdf = reinterpret_cast<uint8_t*>(malloc(seed.size() + 1));
+    if(ikmHkdf == NULL)
+    {
+        throw bad_alloc();
+    }
     memcpy(ikmHkdf, &seed[0], seed.size());
     ikmHkdf[seed.size()] = 0;
 
@@ -203,7 +221,7 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     array<uint64_t, 4> sk;
     while(true)
     {
-        hkdf256_extract_expand(
+        int r = hkdf256_extract_expand(
             okmHkdf.data(),
             L,
             ikmHkdf,
@@ -213,6 +231,12 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
             keyInfoHkdf,
             infoLen + 2
         );
+        if(r != 0)
+        {
+            // never derive a key from an unfilled buffer
+            free(ikmHkdf);
+            throw bad_alloc();
+        }
 
         // Make sure private key is less than the curve order
         array<uint64_t, 6> skBn = scalar::fromBytesBE<6>(span<uint8_t, 48>(okmHkdf.begin(), okmHkdf.end()));
@@ -248,7 +272,10 @@ void ikm_to_lamport_sk(
 {
     // Expands the ikm to 255*HASH_LEN bytes for the lamport sk
     const uint8_t info[1] = {};
-    hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0);
+    if(hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0) != 0)
+    {
+        throw bad_alloc();
+    }
 }
 
 void parent_sk_to_lamport_pk(
-- 
2.43.0


From 60d11547e6ba9db55c8fb92eec79eeb6326d5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 03/17] fix: reject a compressed point whose x coordinate is
 not reduced

The range check ran after the conversion to Montgomery form, which always
yields a reduced value, so x + p was accepted as an encoding of x.
---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..29f6604 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -113,11 +113,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -831,11 +831,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From 1e2ec01c0c5ed21e5f129de626ed3e0cd60a0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 04/17] fix: accept only the canonical compressed encoding of
 infinity

---
 src/g.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 29f6604..7ae667c 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1,4 +1,5 @@
 #include <bls12-381/bls12-381.hpp>
+#include <algorithm>
 
 using namespace std;
 
@@ -105,6 +106,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the encoding of infinity is unique: sign bit and all remaining bits must be zero
+        if(in[0] != 0xC0 || !all_of(in.begin() + 1, in.end(), [](uint8_t v){ return v == 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -818,6 +824,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the encoding of infinity is unique: sign bit and all remaining bits must be zero
+        if(in[0] != 0xC0 || !all_of(in.begin() + 1, in.end(), [](uint8_t v){ return v == 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
-- 
2.43.0


From 20f082dd13313f01ebfb01ec07f221633e8811c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 05/17] fix: hexToBytes read past the end of an empty or one
 character string

---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..93250bb 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From 2e781ab00b002600cdf0da270497fb121815c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 06/17] fix: verification accepted the identity as a public key

With the identity as public key the identity is a valid signature of every
message. KeyValidate of the BLS signature draft rejects it.
---
 src/signatures.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index e1acaf1..78d4552 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -575,7 +575,7 @@ bool verify(
     const g2 hashedPoint = fromMessage(message, CIPHERSUITE_ID);
     pairing::add_pair(v, pubkey, hashedPoint);
 
-    if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
+    if(pubkey.isZero() || !pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
     {
         return false;
     }
@@ -645,7 +645,7 @@ bool aggregate_verify(
 
     for(size_t i = 0; i < pubkeys.size(); i++)
     {
-        if(!pubkeys[i].isOnCurve() || !pubkeys[i].inCorrectSubgroup())
+        if(pubkeys[i].isZero() || !pubkeys[i].isOnCurve() || !pubkeys[i].inCorrectSubgroup())
         {
             return false;
         }
@@ -672,7 +672,7 @@ bool pop_verify(
     array<uint8_t, 96> msg = pubkey.toAffineBytesLE(from_mont::yes);
     const g2 hashedPoint = fromMessage(vector<uint8_t>(msg.begin(), msg.end()), POP_CIPHERSUITE_ID);
 
-    if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
+    if(pubkey.isZero() || !pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
     {
         return false;
     }
-- 
2.43.0


From 444abea3d944df8479bf9c69c9b8f9cce3254312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 07/17] fix: fromMessage hashed an uninitialised buffer when
 the domain separation tag was too long

---
 src/signatures.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 78d4552..44b2007 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -2,6 +2,7 @@
 #include "sha256.hpp"
 #include <new>
 #include <set>
+#include <stdexcept>
 
 using namespace std;
 
@@ -529,7 +530,10 @@ g2 fromMessage(
 )
 {
     uint8_t buf[4 * 64];
-    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    if(xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length()) != 0)
+    {
+        throw std::invalid_argument("domain separation tag must not be longer than 255 bytes");
+    }
 
     array<uint64_t, 8> k = {};
     fp2 t = fp2::zero();
-- 
2.43.0


From ee6210446f9f759c9776c69ab48f470d181a8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 08/17] fix: portable Add64 and Sub64 lost a carry or borrow
 when an operand was all ones

---
 src/arithmetic.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..66fbfa4 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,8 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    // x + y + carry can wrap to exactly x, so comparing the sum with x is not enough
+    uint64_t carryOut = ((x & y) | ((x | y) & ~sum)) >> 63;
     return {sum, carryOut};
 }
 
@@ -456,7 +457,8 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    // x - y - borrow can wrap to exactly x, so comparing the difference with x is not enough
+    uint64_t borrowOut = ((~x & y) | (~(x ^ y) & diff)) >> 63;
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From 351a05dfb2dbd9046871a0916d1d05ff7fc400e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 09/17] fix: portable squaring lost carries into the third word
 of doubled products

---
 src/arithmetic.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index 66fbfa4..0390876 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -548,17 +548,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -569,14 +572,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -587,16 +592,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -606,13 +613,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From 3980085dae282045304fc501bcee388b4130f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 10/17] fix: compress every representation of the identity as
 infinity

toCompressedBytesBE recognised infinity only as (0,0,*). The identity
returned by zero(), and sums that cancel, are (x,y,0) with x or y nonzero;
they were written as ordinary points and read back as another value.
---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index 7ae667c..0150f6e 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -186,7 +186,7 @@ void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(isZero() || (p.x.isZero() && p.y.isZero()))
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
@@ -909,7 +909,7 @@ void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(isZero() || (p.x.isZero() && p.y.isZero()))
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
-- 
2.43.0


From 5ef25672173150eb892076328aad3649d7a2c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 11/17] fix: fp6::mulBy01Assign read its arguments after
 overwriting itself

---
 src/fp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..76830a4 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1025,11 +1025,11 @@ void fp6::mulBy01Assign(const fp2& e0, const fp2& e1)
     t[5] = c0.add(c2);
     t[3] = e0.multiply(t[5]);
     t[3].subtractAssign(t[0]);
-    c2 = t[3].add(t[1]);
     t[4] = e0.add(e1);
     t[5] = c0.add(c1);
     t[4].multiplyAssign(t[5]);
     t[4].subtractAssign(t[0]);
+    c2 = t[3].add(t[1]);
     c1 = t[4].subtract(t[1]);
     c0 = t[2].add(t[0]);
 }
-- 
2.43.0


From 71f8105fda39286f1b81fb7dcc833df908df2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 12/17] fix: miller_loop of an empty list ran off its end

---
 src/pairing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pairing.cpp b/src/pairing.cpp
index 1f98083..e744a04 100644
--- a/src/pairing.cpp
+++ b/src/pairing.cpp
@@ -114,7 +114,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         {
             f = f.square();
         }
-        for(uint64_t j = 0; j <= pairs.size()-1; j++)
+        for(uint64_t j = 0; j < pairs.size(); j++)
         {
             t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
             t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
@@ -123,7 +123,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         if(((g2::cofactorEFF[0] >> i) & 1) == 1)
         {
             k++;
-            for(uint64_t j = 0; j <= pairs.size()-1; j++)
+            for(uint64_t j = 0; j < pairs.size(); j++)
             {
                 t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
                 t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
-- 
2.43.0


From b27be337ede681c312b0a6c77ef7f426b22ccda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 13/17] fix: correct out-of-place fp6 Frobenius map for powers
 congruent to 3

---
 src/fp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index 76830a4..dd84a5a 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,8 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
-            c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            c.c1 = fp2({c1.c1, c1.c0});
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From e639900617c439aa933743189218c4c95fa1780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 14/17] fix: fp12::frobeniusMap must not read past its table
 for powers above 11

The map has order 12; the table of coefficients has twelve entries, and
powers from 12 on were used as index unreduced.
---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index dd84a5a..98519ce 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1488,7 +1488,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1501,7 +1501,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
@@ -1512,7 +1512,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1525,7 +1525,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
-- 
2.43.0


From a28b54690b0c9aa04e81a083717c2e3f9b16a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 15/17] fix: g2::frobeniusMap must not repeat itself power
 times

The map has order 12, so a large power made the call run (practically)
forever for nothing.
---
 src/g.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/g.cpp b/src/g.cpp
index 0150f6e..83760d4 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1229,7 +1229,8 @@ g2 g2::frobeniusMap(int64_t power) const
         fp({0x7bcfa7a25aa30fda, 0xdc17dec12a927e7c, 0x2f088dd86b4ebef1, 0xd1ca2087da74d4a7, 0x2da2596696cebc1d, 0x0e2b7eedbbfd87d2}),
     });
     g2 r = *this;
-    for(; power > 0; power--)
+    // the map has order 12
+    for(power %= 12; power > 0; power--)
     {
         r.x.frobeniusMapAssign(1);
         r.y.frobeniusMapAssign(1);
-- 
2.43.0


From d8b0bd4c20409668680840c7b881d41b20b23f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 16/17] fix: xmd_sh256 must hash the whole message, whatever
 its length

The length was an int: a message of 4 GiB and n bytes had the hash, and
thereby the signature, of its first n bytes; one of 2 GiB was read far
beyond its end.
---
 include/bls12-381/signatures.hpp | 2 +-
 src/signatures.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index 098b539..f05b82b 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -20,7 +20,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 );
diff --git a/src/signatures.cpp b/src/signatures.cpp
index 44b2007..f583c8e 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -475,7 +475,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 )
-- 
2.43.0


From 31fbb27099ffd8624aad64b5c9514235d13bce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 17/17] fix: aggregate_secret_keys of keys that are not reduced
 must not depend on their order

The sum of an unreduced key and the running total may need 257 bits:
whether it was added or std::invalid_argument thrown depended on the
order of the keys. scalar::add put such a carry one word too high.
---
 include/bls12-381/scalar.hpp | 4 ++--
 src/signatures.cpp           | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
diff --git a/src/signatures.cpp b/src/signatures.cpp
index f583c8e..dfda665 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -419,13 +419,14 @@ array<uint64_t, 4> aggregate_secret_keys(std::span<const std::array<uint64_t, 4>
         return {0, 0, 0, 0};
     }
 
-    array<uint64_t, 4> state = {};
+    // one word more than a key: keys that are not reduced may carry
+    array<uint64_t, 5> state = {};
     array<uint64_t, 4> ret = {};
     for(uint64_t i = 0; i < sks.size(); i++)
     {
-        state = scalar::add<4, 4, 4>(ret, sks[i]);
+        state = scalar::add<5, 4, 4>(ret, sks[i]);
         ret.fill(0);
-        array<uint64_t, 4> quotient = {};
+        array<uint64_t, 5> quotient = {};
 
         bn_divn_safe(quotient, ret, state, fp::Q);
     }
-- 
2.43.0

