From 79e116725f1efd955df6a845360561026cc430bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 1/3] fix: undo only the steps before the vector's test step
 when recompressing

hasCollided rotated the working variables for every skipped step too, so for
the 18 vectors tested at step 58 the state was permuted before the walk back
and attacks following them were never detected.
---
 sha1cdblock_generic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index a80148e..29633a4 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -194,24 +194,24 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	// The existing collision detection does not have dvs higher than 65,
 	// start value of i accordingly.
 	for i := uint32(64); i >= 60; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K3 + (m1[i] ^ dm[i]) // m2 = m1 ^ dm.
 		}
 	}
 	for i := uint32(59); i >= 40; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := ((b | c) & d) | (b & c)
 			e -= bits.RotateLeft32(a, 5) + f + shared.K2 + (m1[i] ^ dm[i])
 		}
 	}
 	for i := uint32(39); i >= 20; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K1 + (m1[i] ^ dm[i])
@@ -219,8 +219,8 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	}
 	for i := uint32(20); i > 0; i-- {
 		j := i - 1
-		a, b, c, d, e = b, c, d, e, a
 		if step > j {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30) // undo the rotate left
 			f := b&c | (^b)&d
 			// subtract from e
-- 
2.43.0


From e44598a373d03876c4870651bc06b54ce7268a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:40 +0000
Subject: [PATCH 2/3] fix: keep the collision verdict when saving and restoring
 the state

MarshalBinary dropped it and UnmarshalBinary kept the one of the overwritten
message. A state with a verdict gets its own identifier; the format of other
states does not change.
---
 internal/const.go |  4 +++-
 sha1cd.go         | 13 +++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/const.go b/internal/const.go
index 944a131..82cce97 100644
--- a/internal/const.go
+++ b/internal/const.go
@@ -37,6 +37,8 @@ const (
 	// Currently there are 3 pre-step compression states required: 0, 58, 65.
 	PreStepState = 3
 
-	Magic         = "shacd\x01"
+	Magic = "shacd\x01"
+	// MagicCol identifies the state of a hash that has found a collision.
+	MagicCol      = "shacd\x02"
 	MarshaledSize = len(Magic) + 5*4 + Chunk + 8
 )
diff --git a/sha1cd.go b/sha1cd.go
index 865a995..4c8f44e 100644
--- a/sha1cd.go
+++ b/sha1cd.go
@@ -38,7 +38,11 @@ type digest struct {
 
 func (d *digest) MarshalBinary() ([]byte, error) {
 	b := make([]byte, 0, shared.MarshaledSize)
-	b = append(b, shared.Magic...)
+	if d.col {
+		b = append(b, shared.MagicCol...)
+	} else {
+		b = append(b, shared.Magic...)
+	}
 	b = appendUint32(b, d.h[0])
 	b = appendUint32(b, d.h[1])
 	b = appendUint32(b, d.h[2])
@@ -73,12 +77,17 @@ func appendUint64(b []byte, v uint64) []byte {
 }
 
 func (d *digest) UnmarshalBinary(b []byte) error {
-	if len(b) < len(shared.Magic) || string(b[:len(shared.Magic)]) != shared.Magic {
+	if len(b) < len(shared.Magic) {
+		return errors.New("crypto/sha1: invalid hash state identifier")
+	}
+	magic := string(b[:len(shared.Magic)])
+	if magic != shared.Magic && magic != shared.MagicCol {
 		return errors.New("crypto/sha1: invalid hash state identifier")
 	}
 	if len(b) != shared.MarshaledSize {
 		return errors.New("crypto/sha1: invalid hash state size")
 	}
+	d.col = magic == shared.MagicCol
 	b = b[len(shared.Magic):]
 	b, d.h[0] = consumeUint32(b)
 	b, d.h[1] = consumeUint32(b)
-- 
2.43.0


From c8de4a483c9b4d84814ed3d4de8cc7e1ce7c1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:12 +0000
Subject: [PATCH 3/3] fix: take the end of input from the data pointer in
 blockARM64

R16 was never set: an unlucky value made the block be skipped.
---
 sha1cdblock_arm64.s | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sha1cdblock_arm64.s b/sha1cdblock_arm64.s
index 6376204..73f5a31 100644
--- a/sha1cdblock_arm64.s
+++ b/sha1cdblock_arm64.s
@@ -37,14 +37,14 @@ TEXT ·blockARM64(SB), NOSPLIT, $80-96
 
     LSR     $6, R2, R2
     LSL     $6, R2, R2
-    ADD     R16, R2, R21
+    ADD     R1, R2, R21
 
 	VLD1.P	16(R0), [V0.S4]
 	FMOVS	(R0), F20
 	SUB	$16, R0, R0
 
 loop:
-	CMP     R16, R21
+	CMP     R1, R21
 	BLS     end
 
 	// Load block (p) into 16-bytes vectors.
-- 
2.43.0

