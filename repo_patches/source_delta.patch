From c3e6297240b249e78d21fe53a9ac059a279bfc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 01/55] fix: event: remove the unsubscribed case from a feed's
 case list

caseList.delete appended cs[:index+1] instead of cs[index+1:], so an
unsubscribed channel stayed in the list (and others were duplicated).
---
 event/feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feed.go b/event/feed.go
index 28e5a8f..9e48d87 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -205,7 +205,7 @@ func (cs caseList) find(channel interface{}) int {
 
 // delete 从 cs 中移除给定的 case。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[:index+1]...)
+	return append(cs[:index], cs[index+1:]...)
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0


From 3798002439545142fe43b1c85ddf3ab61611186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 02/55] fix: event: let FeedOf of an interface type send a nil
 value

reflect.ValueOf(nil interface) is the zero Value, which panics in TrySend.
---
 event/feedof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feedof.go b/event/feedof.go
index 1d001a8..801f8e0 100644
--- a/event/feedof.go
+++ b/event/feedof.go
@@ -72,7 +72,7 @@ func (f *FeedOf[T]) remove(sub *feedOfSub[T]) {
 // Send 同时传送到所有订阅的频道。
 // 它返回值被发送到的订阅者的数量。
 func (f *FeedOf[T]) Send(value T) (nsent int) {
-	rvalue := reflect.ValueOf(value)
+	rvalue := reflect.ValueOf(&value).Elem() // keeps the static type: T may be an interface holding nil
 
 	f.once.Do(f.init)
 	<-f.sendLock
-- 
2.43.0


From abeeee1b86b941df22ed6f00cbed22468c7a4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 03/55] fix: event: Unsubscribe of an ended resubscription must
 not block

The loop ends by itself when the inner subscription ends without error;
sending on the unbuffered unsub channel then blocked forever.
---
 event/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 2ea9897..98146cb 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -103,7 +103,7 @@ func ResubscribeErr(backoffMax time.Duration, fn ResubscribeErrFunc) Subscriptio
 		backoffMax: backoffMax,
 		fn:         fn,
 		err:        make(chan error),
-		unsub:      make(chan struct{}),
+		unsub:      make(chan struct{}, 1), // buffered: the loop may have ended by itself
 	}
 	go s.loop()
 	return s
-- 
2.43.0


From 50cb0c3c10ad54c27238ed863229cfcd190bbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 04/55] fix: event: unsubscribe an inner subscription that
 arrives during Unsubscribe

When Unsubscribe arrived while a resubscribe attempt was running and the
attempt succeeded nevertheless, the new subscription was leaked.
---
 event/subscription.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 98146cb..9d0596a 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -174,7 +174,9 @@ func (s *resubscribeSub) subscribe() Subscription {
 			}
 		case <-s.unsub:
 			cancel()
-			<-subscribed// 避免泄露 s.fn goroutine。
+			if err := <-subscribed; err == nil && sub != nil { // 避免泄露 s.fn goroutine。
+				sub.Unsubscribe() // nobody else will: the attempt succeeded too late
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 26b216735d05743e8f31da16d837dd608179e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 05/55] fix: common/math: PaddedBigBytes pads to the requested
 length

The length argument was ignored (always 8), so U256Bytes did not return
32 bytes.
---
 common/math/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 4d7df93..2d78daf 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -138,10 +138,10 @@ func FirstBitSet(v *big.Int) int {
 // PaddedBigBytes 将大整数编码为大端字节切片。长度
 // 切片至少有 n 个字节。
 func PaddedBigBytes(bigint *big.Int, n int) []byte {
-	if bigint.BitLen()/8 >= 8 {
+	if bigint.BitLen()/8 >= n {
 		return bigint.Bytes()
 	}
-	ret := make([]byte, 8)
+	ret := make([]byte, n)
 	ReadBits(bigint, ret)
 	return ret
 }
-- 
2.43.0


From f65a2ede4e2c2f23da4447f9e1c9cc19f97761d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 06/55] fix: common/math: Exp must not modify its base argument

---
 common/math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/math/big.go b/common/math/big.go
index 2d78daf..4fc6eb0 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -219,6 +219,7 @@ func S256(x *big.Int) *big.Int {
 // 由@karalabe 和@chfast 提供
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base) // the caller's value must survive the squaring below
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From 62d3bb20ed63d97bca0723c07e42ab9653971c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 07/55] fix: common: marshal a 0X-prefixed mixed-case address
 without a doubled prefix

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index cc36bd3..6ff3a9a 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,7 +385,7 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
-	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0x") {
+	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
 	return json.Marshal(fmt.Sprintf("0x%s", ma.original))
-- 
2.43.0


From 14acee4fc484fd26dc053bd8917cf42774a8810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 08/55] fix: common: close the bracket in the invalid-checksum
 text

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index 6ff3a9a..fa914b1 100644
--- a/common/types.go
+++ b/common/types.go
@@ -401,7 +401,7 @@ func (ma *MixedcaseAddress) String() string {
 	if ma.ValidChecksum() {
 		return fmt.Sprintf("%s [chksum ok]", ma.original)
 	}
-	return fmt.Sprintf("%s [chksum INVALID", ma.original)
+	return fmt.Sprintf("%s [chksum INVALID]", ma.original)
 }
 
 // 如果地址具有有效校验和，则 ValidChecksum 返回 true
-- 
2.43.0


From e47906558381c7b33fabde0db7f05081efd5a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 09/55] fix: common: PrettyAge of an exact number of units

An age of exactly one second printed as the empty string, one of exactly
one minute as 60s.
---
 common/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/format.go b/common/format.go
index e5cb82e..2a68c0f 100644
--- a/common/format.go
+++ b/common/format.go
@@ -52,7 +52,7 @@ func (t PrettyAge) String() string {
 	// 返回前累加 3 个分量的精度
 	result, prec := "", 0
 	for _, unit := range ageUnits {
-		if diff > unit.Size{
+		if diff >= unit.Size {
 			result = fmt.Sprintf("%s%d%s", result, diff/unit.Size, unit.Symbol)
 			diff %= unit.Size
 
-- 
2.43.0


From 69789293d27db397ab2a6d08a5cbd95d9612ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 10/55] fix: common/hexutil: DecodeUint64 reports the 64-bit
 range error

strconv.ErrRange was mapped to the error of the platform-dependent Uint.
---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 35ced3d..c6e6941 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -212,7 +212,7 @@ func mapError(err error) error {
 	if err, ok := err.(*strconv.NumError); ok {
 		switch err.Err {
 		case strconv.ErrRange:
-			return ErrUintRange
+			return ErrUint64Range
 		case strconv.ErrSyntax:
 			return ErrSyntax
 		}
-- 
2.43.0


From 161738dcb2ccaef651ceb36eeaba35a01dc03ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 11/55] fix: common/mclock: do not lose a due alarm that is
 rescheduled before it fired

Schedule of a past deadline followed by Schedule of a later one before the
timer ran stopped that timer, so the first deadline was missed.
---
 common/mclock/alarm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/mclock/alarm.go b/common/mclock/alarm.go
index aada3fb..4fbdd06 100644
--- a/common/mclock/alarm.go
+++ b/common/mclock/alarm.go
@@ -66,7 +66,9 @@ func (e *Alarm) schedule(now, newDeadline AbsTime) {
 			// 重新安排。
 			return
 		}
-		e.timer.Stop()
+		if e.timer.Stop() && e.deadline <= now {
+			e.send() // the old deadline has passed, but its timer had not fired yet
+		}
 	}
 
 	// 设置定时器。
-- 
2.43.0


From 7ddab45e9021067aeb05fad66de26cd9a72dcad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 12/55] fix: common/hexutil: decoding an empty number reports
 the empty-string error

DecodeUint64("") and DecodeBig("") claimed the input was "0x".
---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index c6e6941..3bcd891 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -174,7 +174,7 @@ func EncodeBig(bigint *big.Int) string {
  
 func checkNumber(input string) (raw string, err error) {
 	if len(input) == 0 {
-		return "", ErrEmptyNumber
+		return "", ErrEmptyString
 	}
 	if !has0xPrefix(input) {
 		return "", ErrMissingPrefix
-- 
2.43.0


From 123603d34ce8a9608370db1ce3bf3d408e7f87df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 13/55] fix: crypto/sha3: the sponge state has 25 lanes, not 8

With 64 bytes of state the 256-bit variant had rate 0 and divided by zero.
---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 36b90a7..96e892d 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -18,7 +18,7 @@ const sliceSize = 5
 const numLanes = sliceSize * sliceSize
 
 // stateSize 是 SHA3 内部状态的字节大小 (5 * 5 * WSize)
-const stateSize = laneSize * laneSize
+const stateSize = laneSize * numLanes
 
 // 摘要表示校验和的部分评估
 type digest struct {
-- 
2.43.0


From 5ee990ed79326caa585a3953df7b1a35ffee5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 14/55] fix: crypto/sha3: minInt compared a value with itself

---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 96e892d..f8b5ac3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -29,7 +29,7 @@ type digest struct {
 }
 
 func minInt(v1, v2 int) int {
-	if v1 <= v1 {
+	if v1 <= v2 {
 		return v1
 	}
 	return v2
-- 
2.43.0


From de89d90df7851a927f3ce4b52d873491e2105468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 15/55] fix: crypto/sha3: wrong registers in the first unrolled
 Keccak round

The last row of round 1 stored its rotations one register off, so every
digest was wrong.
---
 crypto/sha3/keccakf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/sha3/keccakf.go b/crypto/sha3/keccakf.go
index ad56f08..72f243e 100644
--- a/crypto/sha3/keccakf.go
+++ b/crypto/sha3/keccakf.go
@@ -115,15 +115,15 @@ func keccakF1600(a *[25]uint64) {
 		a[4] = bc4 ^ (bc1 &^ bc0)
 
 		t = a[15] ^ d0
-		bc2 = t<<41 | t>>(64-41)
+		bc3 = t<<41 | t>>(64-41)
 		t = a[21] ^ d1
-		bc3 = t<<2 | t>>(64-2)
+		bc4 = t<<2 | t>>(64-2)
 		t = a[2] ^ d2
-		bc4 = t<<62 | t>>(64-62)
+		bc0 = t<<62 | t>>(64-62)
 		t = a[8] ^ d3
-		bc0 = t<<55 | t>>(64-55)
+		bc1 = t<<55 | t>>(64-55)
 		t = a[14] ^ d4
-		bc1 = t<<39 | t>>(64-39)
+		bc2 = t<<39 | t>>(64-39)
 		a[15] = bc0 ^ (bc2 &^ bc1)
 		a[21] = bc1 ^ (bc3 &^ bc2)
 		a[2] = bc2 ^ (bc4 &^ bc3)
-- 
2.43.0


From 4e8aa4e07b03119c85b43223d1c54d9222bb1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 16/55] fix: crypto: complete the group law on the Koblitz
 curves

Adding a point to itself or to its inverse, any operand or result at
infinity, and scalars whose chain meets those cases (such as N and N+2)
panicked on a nil inverse or gave wrong points. Infinity is written (0,0).
---
 crypto/curve.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/crypto/curve.go b/crypto/curve.go
index cc5c239..5f62ffe 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -49,8 +49,22 @@ func (BitCurve *BitCurve) IsOnCurve(x, y *big.Int) bool {
 	return x3.Cmp(y2) == 0
 }
 
+// zForAffine returns the Jacobian z of an affine point: 0 for the point at
+// infinity, which is written (0,0), and 1 otherwise.
+func zForAffine(x, y *big.Int) *big.Int {
+	z := new(big.Int)
+	if x.Sign() != 0 || y.Sign() != 0 {
+		z.SetInt64(1)
+	}
+	return z
+}
+
 //反转雅可比变换
 func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.Int) {
+	if z.Sign() == 0 {
+		return new(big.Int), new(big.Int) // the point at infinity is written (0,0)
+	}
+
 	zinv := new(big.Int).ModInverse(z, BitCurve.P)
 	zinvsq := new(big.Int).Mul(zinv, zinv)
 
@@ -64,13 +78,20 @@ func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.
 
 //返回 (x1,y1) 和 (x2,y2) 的总和
 func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
-	z := new(big.Int).SetInt64(1)
-	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z, x2, y2, z))
+	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, zForAffine(x1, y1), x2, y2, zForAffine(x2, y2)))
 }
 
 //在雅可比坐标系中取两点 (x1, y1, z1) 和
 // (x2, y2, z2) 并返回它们的总和，也是雅可比形式。
 func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int, *big.Int, *big.Int) {
+	// The formulas below hold for two distinct finite points only.
+	if z1.Sign() == 0 {
+		return x2, y2, z2
+	}
+	if z2.Sign() == 0 {
+		return x1, y1, z1
+	}
+
 	// See http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
 	z1z1 := new(big.Int).Mul(z1, z1)
 	z1z1.Mod(z1z1, BitCurve.P)
@@ -99,6 +120,9 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if r.Sign() == -1 {
 		r.Add(r, BitCurve.P)
 	}
+	if h.Sign() == 0 && r.Sign() == 0 {
+		return BitCurve.doubleJacobian(x1, y1, z1)
+	}
 	r.Lsh(r, 1)
 	v := new(big.Int).Mul(u1, i)
 
@@ -135,8 +159,7 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 
 //返回2*(x,y)
 func (BitCurve *BitCurve) Double(x1, y1 *big.Int) (*big.Int, *big.Int) {
-	z1 := new(big.Int).SetInt64(1)
-	return BitCurve.affineFromJacobian(BitCurve.doubleJacobian(x1, y1, z1))
+	return BitCurve.affineFromJacobian(BitCurve.doubleJacobian(x1, y1, zForAffine(x1, y1)))
 }
 
 func (BitCurve *BitCurve) doubleJacobian(x, y, z *big.Int) (*big.Int, *big.Int, *big.Int) {
@@ -173,7 +196,7 @@ func (BitCurve *BitCurve) doubleJacobian(x, y, z *big.Int) (*big.Int, *big.Int,
 
 // ScalarMult returns k*(Bx,By) where k is a number in big-endian form.
 func (BitCurve *BitCurve) ScalarMult(Bx, By *big.Int, k []byte) (*big.Int, *big.Int) {
-	Bz := new(big.Int).SetInt64(1)
+	Bz := zForAffine(Bx, By)
 	x := Bx
 	y := By
 	z := Bz
-- 
2.43.0


From eeaf62e5b80b6c1dcafb05a13a3776c8f82c721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 17/55] fix: crypto: never generate a key whose public point is
 at infinity

---
 crypto/curve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/curve.go b/crypto/curve.go
index 5f62ffe..f60c9a5 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -249,6 +249,9 @@ func (BitCurve *BitCurve) GenerateKey(rand io.Reader) (priv []byte, x, y *big.In
 		priv[0] &= mask[BitCurve.BitSize%8]
 		priv[1] ^= 0x42
 		x, y = BitCurve.ScalarBaseMult(priv)
+		if x != nil && x.Sign() == 0 && y.Sign() == 0 {
+			x, y = nil, nil // a multiple of the order is no key, try again
+		}
 	}
 
 	return
-- 
2.43.0


From 574dd49b7c446843f6a84c77a1857f70181cc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 18/55] fix: crypto: MnemonicEncode steps through the message
 eight digits at a time

The step was an eighth of the message length, which is right for
64-digit messages only; other lengths panicked or never ended.
---
 crypto/mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/mnemonic.go b/crypto/mnemonic.go
index d43dc8f..9ff2733 100644
--- a/crypto/mnemonic.go
+++ b/crypto/mnemonic.go
@@ -19,7 +19,7 @@ func MnemonicEncode(message string) []string {
 	var out []string
 	n := int64(len(MnemonicWords))
 
-	for i := 0; i < len(message); i += (len(message) / 8) {
+	for i := 0; i < len(message); i += 8 {
 		x := message[i : i+8]
 		bit, _ := strconv.ParseInt(x, 16, 64)
 		w1 := (bit % n)
-- 
2.43.0


From 587748d8ed72371d709b965412ac9fb0a8afa0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 19/55] fix: log: print the key, not the value, as the logfmt
 key

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 6e49762..bca50e1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -169,7 +169,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		if !ok {
 			k, v = errorKey, formatLogfmtValue(k, term)
 		} else {
-			k = escapeString(v)
+			k = escapeString(k)
 		}
 
 		// XXX: 我们可能应该检查你所有的关键字节是否无效
-- 
2.43.0


From d513211aa7e3d5cb96471cc52343d3f85e4ef0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 20/55] fix: log: print origins in the terminal format without
 colours, too

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index bca50e1..e6c545b 100644
--- a/log/format.go
+++ b/log/format.go
@@ -125,7 +125,7 @@ func TerminalFormat(usecolor bool) Format {
 			if color > 0 {
 				fmt.Fprintf(b, "\x1b[%dm%s\x1b[0m[%s|%s]%s %s ", color, lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			} else {
-				fmt.Fprintf(b, "%s[%s] %s ", lvl, r.Time.Format(termTimeFormat), msg)
+				fmt.Fprintf(b, "%s[%s|%s]%s %s ", lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			}
 		} else {
 			if color > 0 {
-- 
2.43.0


From d9da3945c9d0ed60d1bd054ac24e81469b6efe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 21/55] fix: log: end the JSON error object with a newline like
 every other line

With line separation a record that cannot be marshalled was glued to the
next one.
---
 log/format.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/log/format.go b/log/format.go
index e6c545b..e4557c1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -238,7 +238,6 @@ func JSONFormatOrderedEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 		if lineSeparated {
 			b = append(b, '\n')
@@ -278,7 +277,6 @@ func JSONFormatEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 
 		if lineSeparated {
-- 
2.43.0


From 9300038228c34ad85b787b97c322e17e3d267d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 22/55] fix: log: a nil pointer to a terminal-formatted type
 must not panic

---
 log/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/log/format.go b/log/format.go
index e4557c1..ec16187 100644
--- a/log/format.go
+++ b/log/format.go
@@ -343,6 +343,9 @@ func formatLogfmtValue(value interface{}, term bool) string {
 	if term {
 		if s, ok := value.(TerminalStringer); ok {
 			// 提供的自定义终端纵梁，使用它
+			if rv := reflect.ValueOf(value); rv.Kind() == reflect.Ptr && rv.IsNil() {
+				return "nil"
+			}
 			return escapeString(s.TerminalString())
 		}
 	}
-- 
2.43.0


From 09a6fbe15899913693dc14f27e754f16b0b30fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 23/55] fix: log: discard records until a root handler is set

Any package-level log call before SetHandler dereferenced nil.
---
 log/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/root.go b/log/root.go
index eeaab79..ac3bc5b 100644
--- a/log/root.go
+++ b/log/root.go
@@ -10,6 +10,10 @@ var (
 	stderrHandler = StreamHandler(os.Stderr, LogfmtFormat())
 )
 
+func init() {
+	root.SetHandler(DiscardHandler())
+}
+
 // New 返回具有给定上下文的新记录器。
 // New 是 Root().New 的一个方便的别名
 func New(ctx ...interface{}) Logger {
-- 
2.43.0


From b76707de276d995f1d530e96dfc905eff71f12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 24/55] fix: log: completing an odd argument list must not
 write into the caller's slice

---
 log/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/logger.go b/log/logger.go
index 809fb06..95d0962 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -207,7 +207,7 @@ func normalize(ctx []interface{}) []interface{} {
 	// that things are the right length and users can fix bugs
 	// when they see the output looks wrong
 	if len(ctx)%2 != 0 {
-		ctx = append(ctx, nil, errorKey, "Normalized odd number of arguments by adding nil")
+		ctx = append(ctx[:len(ctx):len(ctx)], nil, errorKey, "Normalized odd number of arguments by adding nil")
 	}
 
 	return ctx
-- 
2.43.0


From 144899da293be5cf060afd104f9a14fd1b306d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 25/55] fix: rlp: accept the "tail" struct tag

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 12a7185..823fd4f 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -172,7 +172,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			if ts.Tail {
 				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
 			}
-		case "tali":
+		case "tail":
 			ts.Tail = true
 			if field.Index != lastPublic {
 				return ts, TagError{Field: name, Tag: t, Err: "must be on last field"}
-- 
2.43.0


From d0e247d716502d9aa64594683bae1fed2af3524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 26/55] fix: rlp: required fields are an error after an
 optional one, not without one

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 823fd4f..91d74d6 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -135,7 +135,7 @@ func ProcessFields(allFields []Field) ([]Field, []Tags, error) {
 			}
 			anyOptional = true
 		} else {
-			if !anyOptional {
+			if anyOptional {
 				msg := fmt.Sprintf("must be optional because preceding field %q is optional", firstOptionalName)
 				return nil, nil, TagError{Field: name, Err: msg}
 			}
-- 
2.43.0


From 8f18dc8bbd43d0303ed77ab2106f7f7cce95c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 27/55] fix: rlp: separate the field name in tag errors

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 91d74d6..7f6b8ee 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -92,7 +92,7 @@ type TagError struct {
 }
 
 func (e TagError) Error() string {
-	field := "field" + e.Field
+	field := "field " + e.Field
 	if e.StructType != "" {
 		field = e.StructType + "." + e.Field
 	}
-- 
2.43.0


From 2048e82edba79a7b21bf220bb4d4b4061e508c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 28/55] fix: internal/cmdtest: give NewTestCmd its body

---
 internal/cmdtest/test_cmd.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/cmdtest/test_cmd.go b/internal/cmdtest/test_cmd.go
index 5d90705..3fb91f4 100644
--- a/internal/cmdtest/test_cmd.go
+++ b/internal/cmdtest/test_cmd.go
@@ -19,7 +19,9 @@ import (
 	"github.com/docker/docker/pkg/reexec"
 )
 
-func NewTestCmd(t *testing.T, data interface{})
+func NewTestCmd(t *testing.T, data interface{}) *TestCmd {
+	return &TestCmd{T: t, Data: data}
+}
 
 type TestCmd struct {
 	// 为方便起见，所有测试方法均可用。
-- 
2.43.0


From 6b804c564008ac348e6b4c2f2575e6f58617d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 29/55] fix: internal/cmdtest: ExpectRegexp walks the submatch
 indices in pairs

---
 internal/cmdtest/test_cmd.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/cmdtest/test_cmd.go b/internal/cmdtest/test_cmd.go
index 3fb91f4..6645e12 100644
--- a/internal/cmdtest/test_cmd.go
+++ b/internal/cmdtest/test_cmd.go
@@ -155,8 +155,11 @@ func (tt *TestCmd) ExpectRegexp(regex string) (*regexp.Regexp, []string) {
 	}
 	tt.Logf("Match stdout text:\n%s", output)
 	var submatches []string
-	for i := 0; i < len(matches); i++ {
-		submatch := string(output[matches[i]:matches[i+1]])
+	for i := 0; i < len(matches); i += 2 {
+		var submatch string
+		if matches[i] >= 0 {
+			submatch = string(output[matches[i]:matches[i+1]])
+		}
 		submatches = append(submatches, submatch)
 	}
 	return re, submatches
-- 
2.43.0


From be96030f1ff1939cb8dfe7518889a2c8938b922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 30/55] fix: event: sending nil on a Feed must not leave it
 locked

---
 event/feed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/event/feed.go b/event/feed.go
index 9e48d87..d3df614 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -111,6 +111,7 @@ func (f *Feed) remove(sub *feedSub) {
 // 它返回值被发送到的订阅者的数量。
 func (f *Feed) Send(value interface{}) (nsent int) {
 	rvalue := reflect.ValueOf(value)
+	rtype := rvalue.Type() // panics for nil, which must not happen while holding the locks
 
 	f.once.Do(f.init)
 	<-f.sendLock
@@ -120,10 +121,10 @@ func (f *Feed) Send(value interface{}) (nsent int) {
 	f.sendCases = append(f.sendCases, f.inbox...)
 	f.inbox = nil
 
-	if !f.typecheck(rvalue.Type()) {
+	if !f.typecheck(rtype) {
 		f.sendLock <- struct{}{}
 		f.mu.Unlock()
-		panic(feedTypeError{op: "Send", got: rvalue.Type(), want: f.etype})
+		panic(feedTypeError{op: "Send", got: rtype, want: f.etype})
 	}
 	f.mu.Unlock()
 
-- 
2.43.0


From 2ba56407be1fe2cb46f45995b85d98dacc7eab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 31/55] Revert "fix: internal/cmdtest: ExpectRegexp walks the
 submatch indices in pairs"

This reverts commit 6b804c564008ac348e6b4c2f2575e6f58617d7a7.
---
 internal/cmdtest/test_cmd.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/internal/cmdtest/test_cmd.go b/internal/cmdtest/test_cmd.go
index 6645e12..3fb91f4 100644
--- a/internal/cmdtest/test_cmd.go
+++ b/internal/cmdtest/test_cmd.go
@@ -155,11 +155,8 @@ func (tt *TestCmd) ExpectRegexp(regex string) (*regexp.Regexp, []string) {
 	}
 	tt.Logf("Match stdout text:\n%s", output)
 	var submatches []string
-	for i := 0; i < len(matches); i += 2 {
-		var submatch string
-		if matches[i] >= 0 {
-			submatch = string(output[matches[i]:matches[i+1]])
-		}
+	for i := 0; i < len(matches); i++ {
+		submatch := string(output[matches[i]:matches[i+1]])
 		submatches = append(submatches, submatch)
 	}
 	return re, submatches
-- 
2.43.0


From 177e2ca24a0b1d1fefc64fca71c171e12f8cf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 32/55] Revert "fix: internal/cmdtest: give NewTestCmd its
 body"

This reverts commit 2048e82edba79a7b21bf220bb4d4b4061e508c4e.
---
 internal/cmdtest/test_cmd.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/cmdtest/test_cmd.go b/internal/cmdtest/test_cmd.go
index 3fb91f4..5d90705 100644
--- a/internal/cmdtest/test_cmd.go
+++ b/internal/cmdtest/test_cmd.go
@@ -19,9 +19,7 @@ import (
 	"github.com/docker/docker/pkg/reexec"
 )
 
-func NewTestCmd(t *testing.T, data interface{}) *TestCmd {
-	return &TestCmd{T: t, Data: data}
-}
+func NewTestCmd(t *testing.T, data interface{})
 
 type TestCmd struct {
 	// 为方便起见，所有测试方法均可用。
-- 
2.43.0


From 6f509cbeaed60e4db8b61766cc6cc82794101ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 33/55] fix: log: a nil lazy function is invalid, not a panic

---
 log/handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/log/handler.go b/log/handler.go
index 82a60f6..cdb2c90 100644
--- a/log/handler.go
+++ b/log/handler.go
@@ -281,7 +281,7 @@ func LazyHandler(h Handler) Handler {
 func evaluateLazy(lz Lazy) (interface{}, error) {
 	t := reflect.TypeOf(lz.Fn)
 
-	if t.Kind() != reflect.Func {
+	if t == nil || t.Kind() != reflect.Func {
 		return nil, fmt.Errorf("INVALID_LAZY, not func: %+v", lz.Fn)
 	}
 
@@ -294,6 +294,9 @@ func evaluateLazy(lz Lazy) (interface{}, error) {
 	}
 
 	value := reflect.ValueOf(lz.Fn)
+	if value.IsNil() {
+		return nil, fmt.Errorf("INVALID_LAZY, nil func: %+v", lz.Fn)
+	}
 	results := value.Call([]reflect.Value{})
 	if len(results) == 1 {
 		return results[0].Interface(), nil
-- 
2.43.0


From 87da0d7cbdf0cb2210c151611813da2f97ba761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 34/55] fix: rlp: the "nil" tag takes its kind from the element
 type, not the pointer

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 7f6b8ee..807aeef 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -161,7 +161,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			}
 			switch t {
 			case "nil":
-				ts.NilKind = field.Type.DefaultNilValue()
+				ts.NilKind = field.Type.Elem.DefaultNilValue()
 			case "nilString":
 				ts.NilKind = NilKindString
 			case "nilList":
-- 
2.43.0


From 31ffec09dae3990df039063e18d2c901899f3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:28 +0000
Subject: [PATCH 35/55] fix: rlpgen: convert values of named basic types

---
 rlp/rlpgen/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index fdfa357..1412139 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -164,8 +164,11 @@ type basicOp struct {
 	decUseBitSize bool       // if true, result bit size is appended to decMethod
 }
 
-func (*buildContext) makeBasicOp(typ *types.Basic) (op, error) {
+func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error) {
 	op := basicOp{typ: typ}
+	if name != nil {
+		op.typ = name
+	}
 	kind := typ.Kind()
 	switch {
 	case kind == types.Bool:
@@ -659,7 +662,7 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		// Default pointer handling.
 		return bctx.makePtrOp(typ.Elem(), tags)
 	case *types.Basic:
-		return bctx.makeBasicOp(typ)
+		return bctx.makeBasicOp(name, typ)
 	case *types.Struct:
 		return bctx.makeStructOp(name, typ)
 	case *types.Slice:
-- 
2.43.0


From 8fb8d3cc5a827f8239babe6002dc123bc6291c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 36/55] fix: rlpgen: convert the zero check of named booleans

---
 rlp/rlpgen/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index f24e4fb..a245f0e 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -52,6 +52,9 @@ func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 		k := typ.Kind()
 		switch {
 		case k == types.Bool:
+			if vtyp != typ {
+				return fmt.Sprintf("bool(%s)", v)
+			}
 			return v
 		case k >= types.Uint && k <= types.Complex128:
 			return fmt.Sprintf("%s != 0", v)
-- 
2.43.0


From d51324a51b742a77f49808678a2103844b993648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 37/55] fix: rlpgen: no panic on the predeclared type error

---
 rlp/rlpgen/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index a245f0e..b4627c4 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -81,7 +81,7 @@ func isBigInt(typ types.Type) bool {
 		return false
 	}
 	name := named.Obj()
-	return name.Pkg().Path() == "math/big" && name.Name() == "Int"
+	return name.Pkg() != nil && name.Pkg().Path() == "math/big" && name.Name() == "Int"
 }
 
 // isByte 检查 'typ' 的底层类型是否为 uint8。
-- 
2.43.0


From 6d6655f1e174cb48e4b093a2b4be8d19521c7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 38/55] fix: rlpgen: looking up an alias is an error, not a
 panic

---
 rlp/rlpgen/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/main.go b/rlp/rlpgen/main.go
index e01dba7..bfd3ac3 100644
--- a/rlp/rlpgen/main.go
+++ b/rlp/rlpgen/main.go
@@ -143,5 +143,9 @@ func lookupType(scope *types.Scope, name string) (*types.Named, error) {
 	if !ok {
 		return nil, errors.New("not a type")
 	}
-	return typ.Type().(*types.Named), nil
+	named, ok := typ.Type().(*types.Named)
+	if !ok {
+		return nil, errors.New("not a defined type")
+	}
+	return named, nil
 }
\ No newline at end of file
-- 
2.43.0


From affeca28cad1d47105003d2960fbac656bb8d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 39/55] fix: rlpgen: report optional fields of non-comparable
 struct types

---
 rlp/rlpgen/gen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 1412139..c37b141 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -481,6 +481,11 @@ func (bctx *buildContext) makeStructOp(named *types.Named, typ *types.Struct) (o
 			return nil, err
 		}
 		typ := typ.Field(field.Index).Type()
+		if tag.Optional {
+			if _, ok := resolveUnderlying(typ).(*types.Struct); ok && !types.Comparable(typ) {
+				return nil, fmt.Errorf("field %s: optional field of non-comparable type %v", field.Name, typ)
+			}
+		}
 		elem, err := bctx.makeOp(nil, typ, tags[i])
 		if err != nil {
 			return nil, fmt.Errorf("field %s: %v", field.Name, err)
-- 
2.43.0


From 2271727558ff7ab7bb1da51f79c841894d974be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 40/55] fix: rlpgen: report recursive types instead of
 overflowing the stack

---
 rlp/rlpgen/gen.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index c37b141..d2e8b39 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -34,6 +34,7 @@ type buildContext struct {
 	rawValueType *types.Named
 
 	typeToStructCache map[types.Type]*rlpstruct.Type
+	visiting          map[*types.Named]bool // named types being processed by makeOp
 }
 
 func newBuildContext(packageRLP *types.Package) *buildContext {
@@ -42,6 +43,7 @@ func newBuildContext(packageRLP *types.Package) *buildContext {
 	rawv := packageRLP.Scope().Lookup("RawValue").Type()
 	return &buildContext{
 		typeToStructCache: make(map[types.Type]*rlpstruct.Type),
+		visiting:          make(map[*types.Named]bool),
 		encoderIface:      enc.(*types.Interface),
 		decoderIface:      dec.(*types.Interface),
 		rawValueType:      rawv.(*types.Named),
@@ -64,6 +66,7 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 
 	// Resolve named types to their underlying type, but keep the name.
 	name := types.TypeString(typ, nil)
+	key := typ
 	for {
 		utype := typ.Underlying()
 		if utype == typ {
@@ -79,7 +82,7 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 		IsEncoder: bctx.isEncoder(typ),
 		IsDecoder: bctx.isDecoder(typ),
 	}
-	bctx.typeToStructCache[typ] = t
+	bctx.typeToStructCache[key] = t
 
 	// Assign element type.
 	switch typ.(type) {
@@ -649,6 +652,11 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 			return nil, fmt.Errorf("type %v implements rlp.Decoder with non-pointer receiver", typ)
 		}
 		// TODO: same check for encoder?
+		if bctx.visiting[typ] {
+			return nil, fmt.Errorf("recursive type %v is not supported", typ)
+		}
+		bctx.visiting[typ] = true
+		defer delete(bctx.visiting, typ)
 		return bctx.makeOp(typ, typ.Underlying(), tags)
 	case *types.Pointer:
 		if isBigInt(typ.Elem()) {
-- 
2.43.0


From 3845595ba3ab2589370827ac63bae4a114bb2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 41/55] fix: rlpgen: decode pointers to pointers and to named
 slice types

---
 rlp/rlpgen/gen.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index d2e8b39..08e0c17 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -411,6 +411,12 @@ func (op ptrOp) genWrite(ctx *genContext, v string) string {
 
 func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	result, code := op.elem.genDecode(ctx)
+	if op.elemNeedsVar() {
+		// The element value can't be addressed, or has the underlying type.
+		elemV := ctx.temp()
+		code += fmt.Sprintf("var %s %s = %s\n", elemV, types.TypeString(op.elemTyp, ctx.qualify), result)
+		result = elemV
+	}
 	if !op.nilOK {
 		// If nil pointers are not allowed, we can just decode the element.
 		return "&" + result, code
@@ -441,6 +447,20 @@ func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	return resultV, b.String()
 }
 
+// elemNeedsVar reports whether the decoded element must be assigned to a variable of the
+// element type before its address can be taken.
+func (op ptrOp) elemNeedsVar() bool {
+	switch elem := op.elem.(type) {
+	case ptrOp:
+		return true
+	case sliceOp:
+		return !types.Identical(elem.typ, op.elemTyp)
+	case basicOp:
+		return !types.Identical(elem.typ, op.elemTyp)
+	}
+	return false
+}
+
 // structOp handles struct types.
 type structOp struct {
 	named          *types.Named
-- 
2.43.0


From 1d95062f9b30706dfa04c6ee7e98bc8ad2b07239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 42/55] fix: rlpgen: report slices and arrays of named byte
 types

---
 rlp/rlpgen/gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 08e0c17..710ee6c 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -701,12 +701,18 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 	case *types.Slice:
 		etyp := typ.Elem()
 		if isByte(etyp) && !bctx.isEncoder(etyp) {
+			if !types.Identical(etyp, types.Typ[types.Uint8]) {
+				return nil, fmt.Errorf("unhandled slice of named byte type: %v", typ)
+			}
 			return bctx.makeByteSliceOp(typ), nil
 		}
 		return bctx.makeSliceOp(typ)
 	case *types.Array:
 		etyp := typ.Elem()
 		if isByte(etyp) && !bctx.isEncoder(etyp) {
+			if !types.Identical(etyp, types.Typ[types.Uint8]) {
+				return nil, fmt.Errorf("unhandled array of named byte type: %v", typ)
+			}
 			return bctx.makeByteArrayOp(name, typ), nil
 		}
 		return nil, fmt.Errorf("unhandled array type: %v", typ)
-- 
2.43.0


From c1ced60233c9cdd174af576584794f4ca61d601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 43/55] fix: rlpgen: encode slices of structs without fields

---
 rlp/rlpgen/gen.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 710ee6c..2fbc510 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -637,13 +637,32 @@ func (op sliceOp) genWrite(ctx *genContext, v string) string {
 
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%s := w.List()\n", listMarker)
-	fmt.Fprintf(&b, "for _, %s := range %s {\n", iterElemV, v)
+	if readsValue(op.elemOp) {
+		fmt.Fprintf(&b, "for _, %s := range %s {\n", iterElemV, v)
+	} else {
+		fmt.Fprintf(&b, "for range %s {\n", v)
+	}
 	fmt.Fprint(&b, elemCode)
 	fmt.Fprintf(&b, "}\n")
 	fmt.Fprintf(&b, "w.ListEnd(%s)\n", listMarker)
 	return b.String()
 }
 
+// readsValue reports whether the encoder code of o uses the value at all.
+// It does not for structs which have no fields.
+func readsValue(o op) bool {
+	s, ok := o.(structOp)
+	if !ok || len(s.optionalFields) > 0 {
+		return true
+	}
+	for _, f := range s.fields {
+		if readsValue(f.elem) {
+			return true
+		}
+	}
+	return false
+}
+
 func (op sliceOp) genDecode(ctx *genContext) (string, string) {
 	var sliceV = ctx.temp() // holds the output slice
 	elemResult, elemCode := op.elemOp.genDecode(ctx)
-- 
2.43.0


From 82efd5196aa9fb8c36b3bc61705fac367698b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 44/55] fix: rpc: pass the call arguments to the method

---
 rpc/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpc/service.go b/rpc/service.go
index 83e80c0..427c04b 100644
--- a/rpc/service.go
+++ b/rpc/service.go
@@ -172,6 +172,7 @@ func (c *callback) call(ctx context.Context, method string, args []reflect.Value
 	if c.hasCtx {
 		fullargs = append(fullargs, reflect.ValueOf(ctx))
 	}
+	fullargs = append(fullargs, args...)
 
 	// 在运行回调时捕获 panic。
 	defer func() {
-- 
2.43.0


From 0f986a76daa0c2308da7626320708fdc167547a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 45/55] fix: rpc: omit the empty method of responses

---
 rpc/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/json.go b/rpc/json.go
index ccd364e..f6d434c 100644
--- a/rpc/json.go
+++ b/rpc/json.go
@@ -31,7 +31,7 @@ type subscriptionResult struct {
 type jsonrpcMessage struct {
 	Version string          `json:"jsonrpc,omitempty"`
 	ID      json.RawMessage `json:"id,omitempty"`
-	Method  string          `json:"method, omitempty"`
+	Method  string          `json:"method,omitempty"`
 	Params  json.RawMessage `json:"params,omitempty"`
 	Error   *jsonError      `json:"error,omitempty"`
 	Result  json.RawMessage `json:"result,omitempty"`
-- 
2.43.0


From 66ffeb59b9e02aa9e772294b251758e65f5a91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 46/55] fix: rpc: seed the id generator with all eight random
 bytes

---
 rpc/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index 8c5a61d..ad10b12 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -37,7 +37,7 @@ func randomIDGenerator() func() ID {
 	var buf = make([]byte, 8)
 	var seed int64
 	if _, err := crand.Read(buf); err == nil {
-		seed = int64(binary.BigEndian.Uint16(buf))
+		seed = int64(binary.BigEndian.Uint64(buf))
 	} else {
 		seed = int64(time.Now().Nanosecond())
 	}
-- 
2.43.0


From afcc0e5924b7406bbc93292bb9ec0bd26e193691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 47/55] fix: rpc: a failed client subscription must not block
 until its error is read

---
 rpc/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index ad10b12..4969070 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -220,7 +220,7 @@ func newClientSubscription(c *Client, namespace string, channel reflect.Value) *
 		quit:        make(chan error),
 		forwardDone: make(chan struct{}),
 		unsubDone:   make(chan struct{}),
-		err:         make(chan error),
+		err:         make(chan error, 1),
 	}
 	return sub
 }
-- 
2.43.0


From efd4af68f519260456123d8ade6e59a822968a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 48/55] fix: rpc: Notifier.Closed returns the channel of the
 connection

---
 rpc/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index 4969070..e2461ff 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -125,7 +125,7 @@ func (n *Notifier) Notify(id ID, data interface{}) error {
 // Closed 返回一个在 RPC 连接关闭时关闭的通道。
 // 弃用：使用订阅错误通道
 func (n *Notifier) Closed() <-chan interface{} {
-	return n.h.conn.closed
+	return n.h.conn.closed()
 }
 
 // takeSubscription 返回订阅（如果已经创建）。没有订阅可以
-- 
2.43.0


From 3aa57d35ec5dda8450a3fa245725e47d0c90acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 49/55] fix: rpc: let the message dispatch of the handler
 compile

---
 rpc/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpc/handler.go b/rpc/handler.go
index 5577a11..4e311dc 100644
--- a/rpc/handler.go
+++ b/rpc/handler.go
@@ -3,7 +3,7 @@ package rpc
 import (
 	"context"
 	"encoding/json"
-	"log"
+	"flychain/log"
 	"reflect"
 	"strconv"
 	"strings"
@@ -239,6 +239,7 @@ func (h *handler) handlerImmediate(msg *jsonrpcMessage) bool {
 			h.handleSubscriptionResult(msg)
 			return true
 		}
+		return false
 	case msg.isResponse():
 		h.handleResponse(msg)
 		h.log.Trace("Handled RPC response", "reqid", idForLog{msg.ID}, "duration", time.Since(start))
-- 
2.43.0


From 6570774a81731803d4d352276422aaf5e3ae459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 50/55] fix: rpc: request operations refer to client
 subscriptions

---
 rpc/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/client.go b/rpc/client.go
index b53d6b7..d4c3d0f 100644
--- a/rpc/client.go
+++ b/rpc/client.go
@@ -100,5 +100,5 @@ type requestOp struct {
 	ids []json.RawMessage
 	err error
 	resp chan *jsonrpcMessage // 最多接收 len(ids) 个响应
-	sub *ClientSub
+	sub *ClientSubscription
 }
-- 
2.43.0


From d8c2c0dcdab5ba8a797abc3b749c7df2c4a469c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 51/55] fix: rpc: start a client subscription when the server
 accepted it

---
 rpc/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpc/handler.go b/rpc/handler.go
index 4e311dc..a12fb3e 100644
--- a/rpc/handler.go
+++ b/rpc/handler.go
@@ -280,8 +280,9 @@ func (h *handler) handleResponse(msg *jsonrpcMessage) {
 	defer close(op.resp)
 	if msg.Error != nil {
 		op.err = msg.Error
+		return
 	}
-	if op.err = json.Unmarshal(msg.Result, &op.sub.subid); op.err != nil {
+	if op.err = json.Unmarshal(msg.Result, &op.sub.subid); op.err == nil {
 		go op.sub.run()
 		h.clientSubs[op.sub.subid] = op.sub
 	}
-- 
2.43.0


From 6a8ceff8b68654e2c58c94c45784e60836a517c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 52/55] fix: rpc: forward null notifications to channels of
 interface type

---
 rpc/subscription.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index e2461ff..9f575b6 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -313,7 +313,7 @@ func (sub *ClientSubscription) forward() (unsubscribeServer bool, err error) {
 			chosen, recv, _ = reflect.Select(cases[:2])
 		} else {
 			// 非空缓冲区，发送第一个排队的项目。
-			cases[2].Send = reflect.ValueOf(buffer.Front().Value)
+			cases[2].Send = buffer.Front().Value.(reflect.Value)
 			chosen, recv, _ = reflect.Select(cases)
 		}
 
@@ -344,10 +344,10 @@ func (sub *ClientSubscription) forward() (unsubscribeServer bool, err error) {
 	}
 }
 
-func (sub *ClientSubscription) unmarshal(result json.RawMessage) (interface{}, error) {
+func (sub *ClientSubscription) unmarshal(result json.RawMessage) (reflect.Value, error) {
 	val := reflect.New(sub.etype)
 	err := json.Unmarshal(result, val.Interface())
-	return val.Elem().Interface(), err
+	return val.Elem(), err
 }
 
 func (sub *ClientSubscription) requestUnsubscribe() error {
-- 
2.43.0


From 6dcac15a9659894a59a605a9b71a945b7b08506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 53/55] fix: rlpgen imports packages of the same name under
 different names

---
 rlp/rlpgen/gen.go | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 2fbc510..8648c95 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -98,14 +98,19 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 // file and assigns unique names of temporary variables.
 type genContext struct {
 	inPackage   *types.Package
-	imports     map[string]struct{}
+	imports     map[string]string // path -> name, empty if the package is not renamed
+	names       map[string]string // name -> path of the package, empty for other names
 	tempCounter int
 }
 
 func newGenContext(inPackage *types.Package) *genContext {
 	return &genContext{
 		inPackage: inPackage,
-		imports:   make(map[string]struct{}),
+		names: map[string]string{
+			"io": "io", "rlp": pathOfPackageRLP, // used by all methods
+			"obj": "", "w": "", "_w": "", "dec": "", "err": "", // variables
+		},
+		imports:   make(map[string]string),
 	}
 }
 
@@ -123,8 +128,36 @@ func (ctx *genContext) addImport(path string) {
 	if path == ctx.inPackage.Path() {
 		return // avoid importing the package that we're generating in.
 	}
-	// TODO: renaming?
-	ctx.imports[path] = struct{}{}
+	ctx.imports[path] = ""
+}
+
+// importName returns the name of an imported package in the generated code.
+// Packages are renamed if their name is in use already.
+func (ctx *genContext) importName(pkg *types.Package) string {
+	name, ok := ctx.imports[pkg.Path()]
+	if ok && name == "" {
+		return pkg.Name()
+	} else if ok {
+		return name
+	}
+	name = pkg.Name()
+	for i := 2; ctx.nameInUse(name, pkg.Path()); i++ {
+		name = fmt.Sprintf("%s%d", pkg.Name(), i)
+	}
+	ctx.names[name] = pkg.Path()
+	ctx.imports[pkg.Path()] = ""
+	if name != pkg.Name() {
+		ctx.imports[pkg.Path()] = name
+	}
+	return name
+}
+
+// nameInUse reports whether name already means something other than the package at path.
+func (ctx *genContext) nameInUse(name, path string) bool {
+	if used, ok := ctx.names[name]; ok {
+		return used != path
+	}
+	return ctx.inPackage.Scope().Lookup(name) != nil || types.Universe.Lookup(name) != nil
 }
 
 // importsList returns all packages that need to be imported.
@@ -142,9 +175,7 @@ func (ctx *genContext) qualify(pkg *types.Package) string {
 	if pkg.Path() == ctx.inPackage.Path() {
 		return ""
 	}
-	ctx.addImport(pkg.Path())
-	// TODO: renaming?
-	return pkg.Name()
+	return ctx.importName(pkg)
 }
 
 type op interface {
@@ -794,7 +825,7 @@ func (bctx *buildContext) generate(typ *types.Named, encoder, decoder bool) ([]b
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "package %s\n\n", pkg.Name())
 	for _, imp := range ctx.importsList() {
-		fmt.Fprintf(&b, "import %q\n", imp)
+		fmt.Fprintf(&b, "import %s %q\n", ctx.imports[imp], imp)
 	}
 	if encoder {
 		fmt.Fprintln(&b)
-- 
2.43.0


From 6917a12d9c3398582c5f7d4291084ddad459e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 54/55] fix: rpc: calls of variadic methods failed as crashed

---
 rpc/service.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpc/service.go b/rpc/service.go
index 427c04b..1489ebb 100644
--- a/rpc/service.go
+++ b/rpc/service.go
@@ -185,7 +185,12 @@ func (c *callback) call(ctx context.Context, method string, args []reflect.Value
 		}
 	}()
 	// Run the callback
-	results := c.fn.Call(fullargs)
+	var results []reflect.Value
+	if c.fn.Type().IsVariadic() {
+		results = c.fn.CallSlice(fullargs) // the last argument is a slice
+	} else {
+		results = c.fn.Call(fullargs)
+	}
 	if len(results) == 0 {
 		return nil, nil 
 	}
-- 
2.43.0


From 6b1debecc6e560ef01507cbb4f421ae20d49e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 55/55] fix: rpc: registering a nil service panicked

---
 rpc/service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpc/service.go b/rpc/service.go
index 1489ebb..a2ad433 100644
--- a/rpc/service.go
+++ b/rpc/service.go
@@ -42,6 +42,9 @@ type callback struct {
 
 func (r *serviceRegistry) registerName(name string, rcvr interface{}) error {
 	rcvrVal := reflect.ValueOf(rcvr)
+	if !rcvrVal.IsValid() {
+		return fmt.Errorf("no service to register as %q", name)
+	}
 	if name == "" {
 		return fmt.Errorf("no service name for type %s", rcvrVal.Type().String())
 	}
-- 
2.43.0

