From b50ac6300c948657c90fecb844fae0795d41e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:30 +0000
Subject: [PATCH 1/7] fix: keep the collision verdict across MarshalBinary and
 UnmarshalBinary

---
 internal/const.go |  7 ++++++-
 sha1cd.go         | 13 +++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/const.go b/internal/const.go
index 944a131..49ff9c7 100644
--- a/internal/const.go
+++ b/internal/const.go
@@ -37,6 +37,11 @@ const (
 	// Currently there are 3 pre-step compression states required: 0, 58, 65.
 	PreStepState = 3
 
-	Magic         = "shacd\x01"
+	// Magic identifies a marshaled state.
+	Magic = "shacd\x01"
+	// MagicCollision identifies a marshaled state in which a collision was
+	// found. It must have the same length as Magic.
+	MagicCollision = "shacd\x02"
+
 	MarshaledSize = len(Magic) + 5*4 + Chunk + 8
 )
diff --git a/sha1cd.go b/sha1cd.go
index 865a995..9bd694e 100644
--- a/sha1cd.go
+++ b/sha1cd.go
@@ -38,7 +38,11 @@ type digest struct {
 
 func (d *digest) MarshalBinary() ([]byte, error) {
 	b := make([]byte, 0, shared.MarshaledSize)
-	b = append(b, shared.Magic...)
+	if d.col {
+		b = append(b, shared.MagicCollision...)
+	} else {
+		b = append(b, shared.Magic...)
+	}
 	b = appendUint32(b, d.h[0])
 	b = appendUint32(b, d.h[1])
 	b = appendUint32(b, d.h[2])
@@ -73,7 +77,11 @@ func appendUint64(b []byte, v uint64) []byte {
 }
 
 func (d *digest) UnmarshalBinary(b []byte) error {
-	if len(b) < len(shared.Magic) || string(b[:len(shared.Magic)]) != shared.Magic {
+	if len(b) < len(shared.Magic) {
+		return errors.New("crypto/sha1: invalid hash state identifier")
+	}
+	magic := string(b[:len(shared.Magic)])
+	if magic != shared.Magic && magic != shared.MagicCollision {
 		return errors.New("crypto/sha1: invalid hash state identifier")
 	}
 	if len(b) != shared.MarshaledSize {
@@ -88,6 +96,7 @@ func (d *digest) UnmarshalBinary(b []byte) error {
 	b = b[copy(d.x[:], b):]
 	b, d.len = consumeUint64(b)
 	d.nx = int(d.len % shared.Chunk)
+	d.col = magic == shared.MagicCollision
 	return nil
 }
 
-- 
2.43.0


From ff0ce486b335e324a062ee710c91bedc5300444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:51 +0000
Subject: [PATCH 2/7] fix: do not read an uninitialised register in the arm64
 block function

---
 sha1cdblock_arm64.s | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_arm64.s b/sha1cdblock_arm64.s
index 6376204..ee5b602 100644
--- a/sha1cdblock_arm64.s
+++ b/sha1cdblock_arm64.s
@@ -37,15 +37,13 @@ TEXT ·blockARM64(SB), NOSPLIT, $80-96
 
     LSR     $6, R2, R2
     LSL     $6, R2, R2
-    ADD     R16, R2, R21
 
 	VLD1.P	16(R0), [V0.S4]
 	FMOVS	(R0), F20
 	SUB	$16, R0, R0
 
-loop:
-	CMP     R16, R21
-	BLS     end
+	// Nothing to do without a whole block.
+	CBZ     R2, end
 
 	// Load block (p) into 16-bytes vectors.
 	VLD1.P	16(R1), [V4.B16]
-- 
2.43.0


From af550f703ae71f3b6957bc2d80846c1f70a3edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:55 +0000
Subject: [PATCH 3/7] fix: give the cgo package the same API when cgo is
 disabled

---
 cgo/fallback_no_cgo.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cgo/fallback_no_cgo.go b/cgo/fallback_no_cgo.go
index 2656ed1..1ba9176 100644
--- a/cgo/fallback_no_cgo.go
+++ b/cgo/fallback_no_cgo.go
@@ -10,10 +10,15 @@ import (
 	"github.com/pjbgf/sha1cd/ubc"
 )
 
+const (
+	Size      = sha1cd.Size
+	BlockSize = sha1cd.BlockSize
+)
+
 // CalculateDvMask falls back to github.com/pjbgf/sha1cd/ubc implementation
 // due to CGO being disabled at compilation time.
-func CalculateDvMask(W *[80]uint32) uint32 {
-	return ubc.CalculateDvMask(W)
+func CalculateDvMask(W [80]uint32) uint32 {
+	return ubc.CalculateDvMask(&W)
 }
 
 // CalculateDvMask falls back to github.com/pjbgf/sha1cd implementation
-- 
2.43.0


From 5957b21b533bfcbaa57d252de59b870a46590a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:00 +0000
Subject: [PATCH 4/7] fix: do not hand out the table that collision detection
 uses

---
 sha1cdblock_generic.go | 5 +++--
 ubc/ubc.go             | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index a80148e..444d5b6 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -17,6 +17,9 @@ import (
 
 var forceGeneric bool
 
+// dvs is the private list of disturbance vectors used by checkCollision.
+var dvs = ubc.SHA1_dvs()
+
 // blockGeneric is a portable, pure Go version of the SHA-1 block step.
 // It's used by sha1block_generic.go and tests.
 func blockGeneric(dig *digest, p []byte) {
@@ -149,8 +152,6 @@ func checkCollision(
 	h *[shared.WordBuffers]uint32,
 ) bool {
 	if mask := ubc.CalculateDvMask(m1); mask != 0 {
-		dvs := ubc.SHA1_dvs()
-
 		for i := 0; dvs[i].DvType != 0; i++ {
 			if (mask & ((uint32)(1) << uint32(dvs[i].MaskB))) != 0 {
 				var csState *[shared.WordBuffers]uint32
diff --git a/ubc/ubc.go b/ubc/ubc.go
index bd93205..8f07063 100644
--- a/ubc/ubc.go
+++ b/ubc/ubc.go
@@ -5,6 +5,8 @@ package ubc
 // Based on the C implementation from Marc Stevens and Dan Shumow.
 // https://github.com/cr-marcstevens/sha1collisiondetection
 
+import "slices"
+
 type DvInfo struct {
 	// DvType, DvK and DvB define the DV: I(K,B) or II(K,B) (see the paper).
 	// https://marc-stevens.nl/research/papers/C13-S.pdf
@@ -370,7 +372,8 @@ func not(x uint32) uint32 {
 	return 0
 }
 
-//go:nosplit
+// SHA1_dvs returns a copy of the list of disturbance vectors, which ends with
+// a zero entry. Changing the copy does not affect the collision detection.
 func SHA1_dvs() []DvInfo {
-	return sha1_dvs
+	return slices.Clone(sha1_dvs)
 }
-- 
2.43.0


From b42ce1c3ee74177e59b16c44a76a95f1293a1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:03 +0000
Subject: [PATCH 5/7] fix: undo the compression from step 58 with the registers
 in the right order

hasCollided rotated the registers for the steps it skips, so for the
disturbance vectors with testT 58 it walked back from a permuted state and
could never recognise a near-collision (18 of the 32 vectors).
---
 sha1cdblock_generic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index 444d5b6..f66fc07 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -195,24 +195,24 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	// The existing collision detection does not have dvs higher than 65,
 	// start value of i accordingly.
 	for i := uint32(64); i >= 60; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K3 + (m1[i] ^ dm[i]) // m2 = m1 ^ dm.
 		}
 	}
 	for i := uint32(59); i >= 40; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := ((b | c) & d) | (b & c)
 			e -= bits.RotateLeft32(a, 5) + f + shared.K2 + (m1[i] ^ dm[i])
 		}
 	}
 	for i := uint32(39); i >= 20; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K1 + (m1[i] ^ dm[i])
@@ -220,8 +220,8 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	}
 	for i := uint32(20); i > 0; i-- {
 		j := i - 1
-		a, b, c, d, e = b, c, d, e, a
 		if step > j {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30) // undo the rotate left
 			f := b&c | (^b)&d
 			// subtract from e
-- 
2.43.0


From 442a935efbce3fdfe9e9553edf6a718945c2d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:30 +0000
Subject: [PATCH 6/7] fix: provide a block function on amd64 and arm64 when the
 compiler is not gc

The assembly back ends need gc and the portable one was only built for other
architectures or with noasm, so with gccgo or another compiler the package had
no block function at all on amd64 and arm64.
---
 sha1cdblock_noasm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha1cdblock_noasm.go b/sha1cdblock_noasm.go
index 4444c75..1310ef9 100644
--- a/sha1cdblock_noasm.go
+++ b/sha1cdblock_noasm.go
@@ -1,4 +1,4 @@
-//go:build (!amd64 && !arm64) || noasm
+//go:build (!amd64 && !arm64) || noasm || !gc
 
 package sha1cd
 
-- 
2.43.0


From 291aeaeddc55e8709df9720c3de22a4686f7da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:14 +0000
Subject: [PATCH 7/7] fix: require SSSE3 before using the SHA-NI block function

blockAMD64 shuffles the message bytes with PSHUFB, which is an SSSE3
instruction, but hasSHANI only asked for SSE3. On a processor (or
hypervisor) that reports SHA, AVX and SSE4.1 and masks SSSE3 the first
block raised an illegal instruction instead of falling back to the
generic implementation.
---
 sha1cdblock_amd64.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sha1cdblock_amd64.go b/sha1cdblock_amd64.go
index 6b716ab..2704779 100644
--- a/sha1cdblock_amd64.go
+++ b/sha1cdblock_amd64.go
@@ -14,6 +14,7 @@ var hasSHANI = (runtime.GOARCH == "amd64" &&
 	cpuid.CPU.Supports(cpuid.AVX) &&
 	cpuid.CPU.Supports(cpuid.SHA) &&
 	cpuid.CPU.Supports(cpuid.SSE3) &&
+	cpuid.CPU.Supports(cpuid.SSSE3) &&
 	cpuid.CPU.Supports(cpuid.SSE4))
 
 // blockAMD64 hashes the message p into the current state in h.
-- 
2.43.0

