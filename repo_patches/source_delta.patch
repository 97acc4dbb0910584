From 6123e20e4ab0792dfaa5870a98925c03a3b3b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 01/57] fix: do not range check the exponent of a special value

---
 util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util.go b/util.go
index 0b78071..11edf20 100644
--- a/util.go
+++ b/util.go
@@ -26,6 +26,12 @@ func (z *Big) norm() *Big {
 
 // fix check for overflow, underflow, and clamping.
 func (c Context) fix(z *Big) *Big {
+	// Special values do not have an exponent: z.exp is whatever was there
+	// before z became special.
+	if z.isSpecial() {
+		return z
+	}
+
 	adj := z.adjusted()
 
 	if adj > c.emax() {
-- 
2.43.0


From 73f6ec05fa123054fc1fdda8cc4fb0e75b22684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 02/57] fix: Float64 of -Infinity is -Inf

---
 big.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index ff4d9cd..268bd51 100644
--- a/big.go
+++ b/big.go
@@ -711,8 +711,10 @@ func (x *Big) Float64() (f float64, ok bool) {
 
 	if !x.IsFinite() {
 		switch x.form {
-		case pinf, ninf:
-			return math.Inf(int(x.form & signbit)), true
+		case pinf:
+			return math.Inf(+1), true
+		case ninf:
+			return math.Inf(-1), true
 		case snan, qnan:
 			return math.NaN(), true
 		case ssnan, sqnan:
-- 
2.43.0


From bf2f02e32ee47f1cbea9b9cbfbf4f1684ae92495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 03/57] fix: QuoRem of 0 / 0 is NaN, not Infinity

---
 big_ctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big_ctx.go b/big_ctx.go
index 3535589..eae2683 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2501,6 +2501,7 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 				// 0 / 0
 				z.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
 				r.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
+				return z, r
 			}
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
-- 
2.43.0


From 706173a2effd1039a6f4e3095def5897902b7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 04/57] fix: set the exponents of QuoRem's results, and allow z
 to alias x

---
 big_ctx.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index eae2683..169185a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2495,7 +2495,9 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 	}
 
 	sign := (x.form & signbit) ^ (y.form & signbit)
+	xsign := x.form & signbit // copy in case z == x
 	if x.IsFinite() && y.IsFinite() {
+		exp := min(x.exp, y.exp) // exponent of the remainder.
 		if y.isZero() {
 			if x.isZero() {
 				// 0 / 0
@@ -2506,15 +2508,18 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
 			r.Context.Conditions |= DivisionByZero
-			return z.SetInf(sign != 0), r.SetInf(x.Signbit())
+			return z.SetInf(sign != 0), r.SetInf(xsign != 0)
 		}
 		if x.isZero() {
 			// 0 / y
-			z.setZero((x.form^y.form)&signbit, 0)
-			r.setZero(x.form, y.exp-x.exp)
+			z.setZero(sign, 0)
+			r.setZero(xsign, exp)
 			return c.fix(z), c.fix(r)
 		}
-		return c.quorem(z, r, x, y)
+		z, r = c.quorem(z, r, x, y)
+		z.exp = 0
+		r.exp = exp
+		return z, r
 	}
 
 	// NaN / NaN
@@ -2531,12 +2536,12 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			return z, r.Set(z)
 		}
 		// ±Inf / y
-		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
+		return z.SetInf(sign != 0), r.SetInf(xsign != 0)
 	}
 	// x / ±Inf
 	z.Context.Conditions |= Clamped
 	z.setZero(sign, c.etiny())
-	r.setZero(x.form&signbit, 0)
+	r.setZero(xsign, 0)
 	return z, r
 }
 
-- 
2.43.0


From 7acb09f72e845f9a789bfcda6a77d73197b8bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 05/57] fix: QuoRem's remainder follows Rem for infinities and
 division by zero

---
 big_ctx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 169185a..a74c4ca 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2507,8 +2507,8 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			}
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
-			r.Context.Conditions |= DivisionByZero
-			return z.SetInf(sign != 0), r.SetInf(xsign != 0)
+			z.SetInf(sign != 0)
+			return z, r.setNaN(InvalidOperation|DivisionByZero, qnan, remx0)
 		}
 		if x.isZero() {
 			// 0 / y
@@ -2536,12 +2536,13 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			return z, r.Set(z)
 		}
 		// ±Inf / y
-		return z.SetInf(sign != 0), r.SetInf(xsign != 0)
+		z.SetInf(sign != 0)
+		return z, r.setNaN(InvalidOperation, qnan, reminfy)
 	}
 	// x / ±Inf
+	c.Set(r, x)
 	z.Context.Conditions |= Clamped
 	z.setZero(sign, c.etiny())
-	r.setZero(xsign, 0)
 	return z, r
 }
 
-- 
2.43.0


From 56f22484ba3de57af18f5d192a66530594854d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 06/57] fix: Rem keeps the remainder's exponent when z aliases
 an operand

---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index a74c4ca..6598c50 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2751,8 +2751,9 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
 		var tmp Big
+		exp := min(x.exp, y.exp) // copy in case z == x or z == y
 		_, z = c.quorem(&tmp, z, x, y)
-		z.exp = min(x.exp, y.exp)
+		z.exp = exp
 		tmp.exp = 0
 		if tmp.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
-- 
2.43.0


From 7f993757c6d9bdd836877a7b14cd18b63c8d50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 07/57] fix: Asin, Atan, and Atan2 read x's sign before
 overwriting z

---
 big_ctx.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 6598c50..16ee7db 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -380,11 +380,8 @@ func (c Context) Asin(z, x *Big) *Big {
 	}
 
 	if cmp1 == 0 {
-		c.pi2(z)
-		if x.Signbit() {
-			z.SetSignbit(true)
-		}
-		return z
+		neg := x.Signbit() // copy in case z == x
+		return c.pi2(z).SetSignbit(neg)
 	}
 
 	ctx := c.dup()
@@ -428,9 +425,8 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
-		c.pi2(z)
-		z.form |= x.form & signbit
-		return z
+		neg := x.Signbit() // copy in case z == x
+		return c.pi2(z).SetSignbit(neg)
 	}
 
 	ctx := c.dup()
@@ -636,8 +632,9 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		ctx.atan2Specials(z, x, y)
 		z.form |= sb
 	default:
+		xneg := x.Signbit() // copy in case z == x
 		ctx.Atan(z, ctx.Quo(z, y, x))
-		if x.Sign() < 0 {
+		if xneg {
 			pi := ctx.pi(getDec(ctx))
 			if z.Sign() <= 0 {
 				ctx.Add(z, z, pi)
-- 
2.43.0


From c4721084269da40608447f0bca847fc45e5d4302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 08/57] fix: Atan2 of a NaN y is NaN

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 16ee7db..3829a7f 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -617,7 +617,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, atan) {
+	if z.checkNaNs(y, x, atan2) {
 		return z
 	}
 
-- 
2.43.0


From bf794c397325d332b696f166ba08f6956a5f6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 09/57] fix: Cos, Log, and NextPlus report their own NaN
 payloads

---
 big_ctx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3829a7f..a9da738 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -704,7 +704,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, sin) {
+	if z.checkNaNs(x, x, cos) {
 		return z
 	}
 
@@ -1223,7 +1223,7 @@ func (c Context) Log(z, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, log10) {
+	if z.checkNaNs(x, x, log) {
 		return z
 	}
 	if logSpecials(z, x) {
@@ -1808,7 +1808,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.checkNaNs(x, x, nextplus) {
 		return z
 	}
 
-- 
2.43.0


From b50cfccd930c128348c0ff334d456a85f173f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 10/57] fix: Pow with an integer power reads x and y before
 overwriting z

---
 big_ctx.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index a9da738..645f782 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2046,12 +2046,11 @@ func (c Context) powInt(z, x, y *Big) *Big {
 	} else {
 		x0.Copy(x)
 	}
-	z.SetUint64(1)
-	sign := x.Signbit()
-
+	// Read x and y before writing to z in case z == x or z == y.
 	y0 := y.Int(nil)
-	sign = sign && y0.Bit(0) == 1
+	sign := x.Signbit() && y0.Bit(0) == 1
 	y0.Abs(y0)
+	z.SetUint64(1)
 	for y0.Sign() != 0 {
 		if y0.Bit(0) != 0 {
 			ctx.Mul(z, z, x0)
@@ -2078,8 +2077,8 @@ func (c Context) powInt(z, x, y *Big) *Big {
 func (c Context) powUint64(z, x *Big, y uint64) *Big {
 	x0 := getDec(c).Copy(x)
 
+	sign := x.Signbit() && y&1 == 1 // before writing to z in case z == x
 	z.SetUint64(1)
-	sign := x.Signbit() && y&1 == 1
 	for y != 0 {
 		if y&1 != 0 {
 			c.Mul(z, z, x0)
-- 
2.43.0


From 5ee90943b8377d559b574d264594b04fe08eab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 11/57] fix: do not read a decimal after returning it to the
 pool

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 645f782..8052728 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2064,8 +2064,8 @@ func (c Context) powInt(z, x, y *Big) *Big {
 		y0.Rsh(y0, 1)
 		ctx.Mul(x0, x0, x0)
 		if x0.IsNaN(0) {
-			putDec(x0)
 			z.Context.Conditions |= x0.Context.Conditions
+			putDec(x0)
 			return z.SetNaN(false)
 		}
 	}
@@ -2092,8 +2092,8 @@ func (c Context) powUint64(z, x *Big, y uint64) *Big {
 		y >>= 1
 		c.Mul(x0, x0, x0)
 		if x0.IsNaN(0) {
-			putDec(x0)
 			z.Context.Conditions |= x0.Context.Conditions
+			putDec(x0)
 			return z.SetNaN(false)
 		}
 	}
-- 
2.43.0


From 6232573feecc9e80f9ef4238c9e0420115c0399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 12/57] fix: Pow with an integer power ignores conditions of
 prior operations, keeps the sign of an overflow

---
 big_ctx.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 8052728..8a3cbd2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2054,10 +2054,11 @@ func (c Context) powInt(z, x, y *Big) *Big {
 	for y0.Sign() != 0 {
 		if y0.Bit(0) != 0 {
 			ctx.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
+			if !z.IsFinite() {
+				break
+			}
+			if z.Sign() == 0 {
 				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
 				break
 			}
 		}
@@ -2082,10 +2083,11 @@ func (c Context) powUint64(z, x *Big, y uint64) *Big {
 	for y != 0 {
 		if y&1 != 0 {
 			c.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
+			if !z.IsFinite() {
+				break
+			}
+			if z.Sign() == 0 {
 				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
 				break
 			}
 		}
-- 
2.43.0


From 1019facac200598c909d27eaa0159eb023601705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 13/57] fix: Tan of an aliased operand

---
 big_ctx.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 8a3cbd2..50c47c7 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3105,6 +3105,11 @@ func (c Context) Tan(z, x *Big) *Big {
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
+	if z == x {
+		x = getDec(c).Copy(x)
+		defer putDec(x)
+	}
+
 	x0, ok := ctx.prepTan(z, x)
 	if !ok {
 		z.Context.Conditions |= InvalidOperation
@@ -3150,11 +3155,6 @@ func (c Context) Tan(z, x *Big) *Big {
 }
 
 func (c Context) prepTan(z, x *Big) (*Big, bool) {
-	if z == x {
-		x = getDec(c)
-		defer putDec(x)
-	}
-
 	if pi2 := c.pi2(z); x.CmpAbs(pi2) >= 0 {
 		// For tan to work correctly the input must be in (-2pi,
 		// 2pi)
-- 
2.43.0


From 7848b40556f6567f3c9ae5742789fb132e942552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 14/57] fix: Pow of zero to a negative power is +Infinity

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 50c47c7..c6b26d7 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1984,7 +1984,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 			}
 			if y.Signbit() {
 				// 0 ** -y = +Inf
-				return z.SetInf(true)
+				return z.SetInf(false)
 			}
 			// 0 ** y = 0
 			return z.SetUint64(0)
-- 
2.43.0


From 65f3f48543f559aca8fdc77fe5706945451d8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 15/57] fix: SetFloat of zero clears a prior NaN, Infinity,
 sign, and scale

---
 big.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/big.go b/big.go
index 268bd51..404ad86 100644
--- a/big.go
+++ b/big.go
@@ -1473,11 +1473,10 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 
 	neg := x.Signbit()
 	if x.Sign() == 0 {
+		z.setZero(0, 0)
 		if neg {
 			z.form |= signbit
 		}
-		z.compact = 0
-		z.precision = 1
 		return z
 	}
 
-- 
2.43.0


From ea3242f63c085d1c12acb8222889cd906b354efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 16/57] fix: SetFloat of 2^64-1

---
 big.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 404ad86..81f680d 100644
--- a/big.go
+++ b/big.go
@@ -1490,7 +1490,7 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 		}
 	}
 
-	if mant, acc := x0.Uint64(); acc == big.Exact {
+	if mant, acc := x0.Uint64(); acc == big.Exact && mant != c.Inflated {
 		z.compact = mant
 		z.precision = arith.Length(mant)
 	} else {
-- 
2.43.0


From 476c660c5409343bb73ee827ed04d830e83cb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 17/57] fix: FMA neither obeys stale conditions nor loses new
 ones

---
 big_ctx.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index c6b26d7..79d82ff 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1182,12 +1182,17 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 	if z == u {
 		z0 = WithContext(c)
 	}
+	// Start from a clean slate so that we only see the conditions the
+	// multiplication raises.
+	conds := z.Context.Conditions
+	z0.Context.Conditions = 0
 	c.mul(z0, x, y)
-	if z0.Context.Conditions&InvalidOperation != 0 {
-		return z.setShared(z0)
+	if z0.Context.Conditions&InvalidOperation == 0 {
+		c.Add(z0, z0, u)
 	}
-	c.Add(z0, z0, u)
-	return z.setShared(z0)
+	z.setShared(z0)
+	z.Context.Conditions = conds | z0.Context.Conditions
+	return z
 }
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
-- 
2.43.0


From 97839d8584ab5e6588784f786d8a58169ba8e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 18/57] fix: NextMinus and NextPlus check their Context, allow
 aliasing, and keep prior conditions

---
 big_ctx.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 79d82ff..1c396a4 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1783,6 +1783,9 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.checkNaNs(x, x, nextminus) {
 		return z
 	}
@@ -1796,10 +1799,10 @@ func (c Context) NextMinus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	conds := z.Context.Conditions
 	c.RoundingMode = ToNegativeInf
-	c.Set(z, x)
 	c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	z.Context.Conditions = conds
 	return z
 }
 
@@ -1813,6 +1816,9 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.checkNaNs(x, x, nextplus) {
 		return z
 	}
@@ -1826,10 +1832,10 @@ func (c Context) NextPlus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	conds := z.Context.Conditions
 	c.RoundingMode = ToPositiveInf
-	c.Set(z, x)
 	c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	z.Context.Conditions = conds
 	return z
 }
 
-- 
2.43.0


From 5ca8c49a6222ce3054df71a60281cdfa310096a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 19/57] fix: the result of an overflow follows the sign and the
 RoundingMode

---
 util.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/util.go b/util.go
index 11edf20..eb10576 100644
--- a/util.go
+++ b/util.go
@@ -43,19 +43,20 @@ func (c Context) fix(z *Big) *Big {
 			return z
 		}
 
-		switch m := c.RoundingMode; m {
-		case ToNearestAway, ToNearestEven, ToNearestTowardZero:
-			z.SetInf(z.Signbit())
-		case AwayFromZero:
-			// OK
-		case ToZero:
-			z.exp = c.emax() - prec + 1
-		case ToPositiveInf, ToNegativeInf:
-			if m == ToPositiveInf == z.Signbit() {
-				z.exp = c.emax() - prec + 1
-			} else {
-				z.SetInf(false)
+		neg := z.Signbit()
+		switch m := c.RoundingMode; {
+		case m == ToZero,
+			m == ToPositiveInf && neg,
+			m == ToNegativeInf && !neg:
+			// The largest finite number.
+			if prec == UnlimitedPrecision {
+				prec = z.Precision()
 			}
+			maxfor(&z.unscaled, prec, +1)
+			z.SetBigMantScale(&z.unscaled, -(c.emax() - prec + 1))
+			z.SetSignbit(neg)
+		default:
+			z.SetInf(neg)
 		}
 		z.Context.Conditions |= Overflow | Inexact | Rounded
 		return z
-- 
2.43.0


From ed4e93ea0bcc820b8cc89f447e4c28e1f7dca88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 20/57] fix: detect an overflow caused by rounding

---
 big_ctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 1c396a4..cc8b547 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2829,6 +2829,10 @@ func (c Context) round(z *Big) *Big {
 	c.shiftr(z, uint64(shift))
 	z.exp += shift
 	z.Context.Conditions |= Rounded
+	if z.adjusted() > c.emax() {
+		// Rounding carried into a new digit.
+		return c.fix(z)
+	}
 	return z
 }
 
-- 
2.43.0


From 0703cd7a1b908d420210fa2f5569220be3284511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 21/57] fix: Quo checks the scale of its result

---
 big_ctx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index cc8b547..084ebe0 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2251,7 +2251,13 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		// 0 / y
 		return c.fix(z.setZero(sign, x.exp-y.exp))
 	}
+	return c.fix(c.quo(z, x, y))
+}
 
+// quo sets z to x / y where both x and y are finite and non-zero.
+//
+// It does not check that the result is within the Context's limits.
+func (c Context) quo(z, x, y *Big) *Big {
 	var (
 		ideal = x.exp - y.exp // preferred exponent.
 		m     = c.RoundingMode
-- 
2.43.0


From a1c799598358d0cd967663a98f632e0334f40910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 22/57] fix: round a subnormal result according to the
 RoundingMode

---
 big_ctx.go | 11 +++++------
 util.go    |  9 +++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 084ebe0..bf8c582 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2868,14 +2868,13 @@ func (c Context) shiftl(z *Big, n uint64) {
 }
 
 func (c Context) shiftr(z *Big, n uint64) bool {
-	if zp := uint64(z.Precision()); n >= zp {
-		z.compact = 0
-		z.precision = 1
-		return n == zp
+	if z.isZero() {
+		return true
 	}
 
-	if z.isZero() {
-		return false
+	if zp := uint64(z.Precision()); n > zp {
+		// z is less than a tenth of the new unit no matter how large n is.
+		n = zp + 1
 	}
 
 	m := c.RoundingMode
diff --git a/util.go b/util.go
index eb10576..a26c5c9 100644
--- a/util.go
+++ b/util.go
@@ -75,11 +75,12 @@ func (c Context) fix(z *Big) *Big {
 
 		z.Context.Conditions |= Subnormal
 		if z.exp < tiny {
-			if c.shiftr(z, uint64(tiny-z.exp)) {
-				z.compact = 1
-			}
+			shift := uint64(tiny - z.exp)
 			z.exp = tiny
-			z.Context.Conditions |= Underflow
+			if !c.shiftr(z, shift) {
+				z.Context.Conditions |= Underflow
+			}
+			z.Context.Conditions |= Rounded
 			if z.isZero() {
 				z.Context.Conditions |= Clamped
 			}
-- 
2.43.0


From 83594470c13bcb0b93fe5bbafc8d0b98c1bc85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 23/57] fix: Exp with the default precision

---
 big_ctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big_ctx.go b/big_ctx.go
index bf8c582..1b990b2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -920,6 +920,7 @@ func (c Context) Exp(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
+	c = c.dup() // a Precision of 0 means DefaultPrecision
 	z = c.exp(z, x)
 	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
 		s := c.Precision - z.Precision()
-- 
2.43.0


From 77778a35cfa4930501d149ddcad575bc74908c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 24/57] fix: Atan sums its series with its working precision

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1b990b2..669ddfc 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -440,7 +440,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
-	result := BinarySplitDynamic(c,
+	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
 		func(_ uint64) *Big { return one.get() },
-- 
2.43.0


From 6b3f97e2cfe933b96654520615b22ba128d712d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 25/57] fix: operations validate and use the explicit Context,
 not the receiver's

---
 big_ctx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 669ddfc..7b7fafd 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -14,7 +14,7 @@ func (c Context) Abs(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if !z.invalidContext(z.Context) && !z.checkNaNs(x, x, absvalue) {
+	if !z.invalidContext(c) && !z.checkNaNs(x, x, absvalue) {
 		c.finish(z.copyAbs(x))
 	}
 	return z
@@ -1165,7 +1165,7 @@ func (e *expg) Term() Term {
 // Floor sets z to the greatest integer value less than or equal
 // to x and returns z.
 func (c Context) Floor(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
 		return z
 	}
 	c.RoundingMode = ToNegativeInf
@@ -1198,7 +1198,7 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
 func (c Context) Hypot(z, p, q *Big) *Big {
-	if z.CheckNaNs(p, q) {
+	if z.invalidContext(c) || z.checkNaNs(p, q, 0) {
 		return z
 	}
 
@@ -1983,7 +1983,7 @@ func (c Context) piChudnovskyBrothers(z *Big) *Big {
 
 // Pow sets z to x**y and returns z.
 func (c Context) Pow(z, x, y *Big) *Big {
-	if z.CheckNaNs(x, y) {
+	if z.invalidContext(c) || z.checkNaNs(x, y, 0) {
 		return z
 	}
 
@@ -2892,7 +2892,7 @@ func (c Context) shiftr(z *Big, n uint64) bool {
 
 // Sqrt sets z to the square root of x and returns z.
 func (c Context) Sqrt(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
 		return z
 	}
 
@@ -3093,7 +3093,7 @@ func (c Context) Sub(z, x, y *Big) *Big {
 		return c.Set(z, x)
 	}
 	// x - ±Inf
-	return z.Neg(y)
+	return c.Neg(z, y)
 }
 
 // Tan returns the tangent, in radians, of x.
-- 
2.43.0


From cbf3ebc326b37484310d5de15458bb5dda8b1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 26/57] fix: Set, SetRat, SetString, RoundToInt, E, and Pi
 reject an invalid Context

---
 big_ctx.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 7b7fafd..8e8a017 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -867,6 +867,9 @@ func (c Context) Ceil(z, x *Big) *Big {
 
 // E sets z to the mathematical constant e and returns z.
 func (c Context) E(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if c.Precision <= constPrec {
 		return c.Set(z, _E.get())
 	}
@@ -1858,6 +1861,9 @@ func (c Context) pi(z *Big) *Big {
 
 // Pi sets z to the mathematical constant pi and returns z.
 func (c Context) Pi(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.pi(z)
 }
 
@@ -2845,6 +2851,9 @@ func (c Context) round(z *Big) *Big {
 
 // RoundToInt rounds z down to an integral value.
 func (c Context) RoundToInt(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.isSpecial() || z.exp >= 0 {
 		return z
 	}
@@ -2991,12 +3000,18 @@ func (c Context) sqrt3(z *Big) *Big {
 //
 // The result might be rounded, even if z == x.
 func (c Context) Set(z, x *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.finish(z.Copy(x))
 }
 
 // SetRat sets z to to the possibly rounded value of x and
 // returns z.
 func (c Context) SetRat(z *Big, x *big.Rat) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if x.IsInt() {
 		return c.finish(z.SetBigMantScale(x.Num(), 0))
 	}
@@ -3014,6 +3029,9 @@ func (c Context) SetString(z *Big, s string) (*Big, bool) {
 	if _, ok := z.SetString(s); !ok {
 		return nil, false
 	}
+	if z.invalidContext(c) {
+		return z, true
+	}
 	return c.finish(z), true
 }
 
-- 
2.43.0


From dc227c9ed3088d9172986e0518ee605ae78b0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 27/57] fix: round E to the Context's precision

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 8e8a017..3dd1ae2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -894,7 +894,7 @@ func (c Context) E(z *Big) *Big {
 		prev.Copy(sum)
 		ctx.Add(sum, sum, term)
 	}
-	return ctx.Set(z, sum)
+	return c.Set(z, sum)
 }
 
 // Exp sets z to e**x and returns z.
-- 
2.43.0


From 9133de66593b178d6794451dba770c22a710ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 28/57] fix: Sqrt of an aliased -0 keeps its sign

---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3dd1ae2..f749a8c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2908,7 +2908,8 @@ func (c Context) Sqrt(z, x *Big) *Big {
 	ideal := -((-x.Scale() - (-x.Scale() & 1)) / 2)
 	if xs := x.Sign(); xs <= 0 {
 		if xs == 0 {
-			return z.SetMantScale(0, ideal).CopySign(z, x)
+			neg := x.Signbit() // copy in case z == x
+			return z.SetMantScale(0, ideal).SetSignbit(neg)
 		}
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
-- 
2.43.0


From 5233df7ef5395b71c3cb7e7400e79918becf610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 29/57] fix: undefined results panic in Go mode like any other
 operation

---
 big_ctx.go | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index f749a8c..5af4927 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -329,8 +329,7 @@ func (c Context) Acos(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -375,8 +374,7 @@ func (c Context) Asin(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -709,8 +707,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	ctx := c.dup()
@@ -718,8 +715,7 @@ func (c Context) Cos(z, x *Big) *Big {
 
 	negXSq, halved, ok := ctx.prepCosine(z, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	ctx.Precision += halved
@@ -1280,8 +1276,7 @@ func logSpecials(z, x *Big) bool {
 			z.SetInf(true)
 		} else {
 			// log -x is undefined.
-			z.Context.Conditions |= InvalidOperation
-			z.SetNaN(false)
+			z.setNaN(InvalidOperation, qnan, 0)
 		}
 		return true
 	}
@@ -1997,8 +1992,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s == 0 {
 			if y.Sign() == 0 {
 				// 0 ** 0 is undefined
-				z.Context.Conditions |= InvalidOperation
-				return z.SetNaN(false)
+				return z.setNaN(InvalidOperation, qnan, 0)
 			}
 			if y.Signbit() {
 				// 0 ** -y = +Inf
@@ -2010,8 +2004,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
 			// -x ** y.vvv is undefined
 			// -x ** ±Inf is undefined
-			z.Context.Conditions |= InvalidOperation
-			return z.SetNaN(false)
+			return z.setNaN(InvalidOperation, qnan, 0)
 		}
 	}
 
@@ -2083,9 +2076,9 @@ func (c Context) powInt(z, x, y *Big) *Big {
 		y0.Rsh(y0, 1)
 		ctx.Mul(x0, x0, x0)
 		if x0.IsNaN(0) {
-			z.Context.Conditions |= x0.Context.Conditions
+			conds := x0.Context.Conditions
 			putDec(x0)
-			return z.SetNaN(false)
+			return z.setNaN(conds, qnan, 0)
 		}
 	}
 	putDec(x0)
@@ -2112,9 +2105,9 @@ func (c Context) powUint64(z, x *Big, y uint64) *Big {
 		y >>= 1
 		c.Mul(x0, x0, x0)
 		if x0.IsNaN(0) {
-			z.Context.Conditions |= x0.Context.Conditions
+			conds := x0.Context.Conditions
 			putDec(x0)
-			return z.SetNaN(false)
+			return z.setNaN(conds, qnan, 0)
 		}
 	}
 	putDec(x0)
@@ -2911,8 +2904,7 @@ func (c Context) Sqrt(z, x *Big) *Big {
 			neg := x.Signbit() // copy in case z == x
 			return z.SetMantScale(0, ideal).SetSignbit(neg)
 		}
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// Already checked for negative numbers.
@@ -3059,8 +3051,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// sin(inf) = NaN
 		// sin(NaN) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -3138,8 +3129,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// tan(NaN) = NaN
 		// tan(inf) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	ctx := c.dup()
@@ -3152,8 +3142,7 @@ func (c Context) Tan(z, x *Big) *Big {
 
 	x0, ok := ctx.prepTan(z, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// tan(x) = sign(x)*sqrt(1/cos(x)^2-1)
-- 
2.43.0


From 34e905b0096a1fb781548ff5e40ac7290e6b993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 30/57] fix: parse out-of-range and incomplete exponents

---
 scan.go | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/scan.go b/scan.go
index 69f9a25..06b5d9f 100644
--- a/scan.go
+++ b/scan.go
@@ -80,6 +80,15 @@ func (z *Big) scan(r io.ByteScanner) error {
 		case Underflow:
 			z.xflow(MinScale, false, neg)
 		case Overflow:
+			if z.isZero() {
+				// The scale of a zero cannot overflow.
+				z.exp = MaxScale
+				z.Context.Conditions |= Clamped
+				if neg {
+					z.form |= signbit
+				}
+				return nil
+			}
 			z.xflow(MinScale, true, neg)
 		case ConversionSyntax:
 			z.form = qnan
@@ -300,6 +309,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 
 	ch, err = r.ReadByte()
 	if err != nil {
+		if err == io.EOF {
+			return ConversionSyntax
+		}
 		return err
 	}
 	var neg bool
@@ -318,6 +330,8 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 
 	var exp uint64
+	digits := false
+	xflow := false
 	for {
 		ch, err := r.ReadByte()
 		if err != nil {
@@ -333,27 +347,42 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		if d >= 10 {
 			return ConversionSyntax
 		}
+		digits = true
+		// Keep scanning after the exponent is found to be out of range: the
+		// rest of the input has to be valid, too.
+		if xflow {
+			continue
+		}
 		const cutoff = math.MaxUint64/10 + 1
 		if exp >= cutoff {
-			return ConversionSyntax
+			xflow = true
+			continue
 		}
 		exp *= 10
 
 		v := exp + uint64(d)
 		if v < exp || v > max {
-			if neg {
-				return Underflow
-			}
-			return Overflow
+			xflow = true
+			continue
 		}
 		exp = v
 	}
+	if !digits {
+		return ConversionSyntax
+	}
 
 	if neg {
-		z.exp -= int(exp)
-	} else {
-		z.exp += int(exp)
+		// z.exp <= 0, so the difference might wrap.
+		if v := z.exp - int(exp); v <= z.exp && !xflow {
+			z.exp = v
+			return nil
+		}
+		return Underflow
+	}
+	if xflow {
+		return Overflow
 	}
+	z.exp += int(exp)
 	return nil
 }
 
-- 
2.43.0


From 573eb99a91b4b9f877d41b2d353550e69e154e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 31/57] fix: a decimal string has at least one digit

---
 scan.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scan.go b/scan.go
index 06b5d9f..f26a6f7 100644
--- a/scan.go
+++ b/scan.go
@@ -277,6 +277,10 @@ Loop:
 		}
 	}
 
+	if len(buf) == 0 {
+		return ConversionSyntax // no digits
+	}
+
 	if big || z.compact == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
-- 
2.43.0


From 08fcf7017045102136d69952ad7f8dfa980dffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 32/57] fix: the digits before a syntax error are not a NaN
 payload

---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index f26a6f7..197d3b1 100644
--- a/scan.go
+++ b/scan.go
@@ -44,7 +44,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 	if err != nil {
 		switch err {
 		case ConversionSyntax:
-			z.form = qnan
+			z.SetNaN(false)
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -66,7 +66,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 			z.form = qnan
 			return io.ErrUnexpectedEOF
 		case ConversionSyntax:
-			z.form = qnan
+			z.SetNaN(false)
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -91,7 +91,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 			}
 			z.xflow(MinScale, true, neg)
 		case ConversionSyntax:
-			z.form = qnan
+			z.SetNaN(false)
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
-- 
2.43.0


From bb149c6cccb23664c3990c0d8e6ca005608b3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 33/57] fix: malformed strings set ConversionSyntax, even if
 incomplete

---
 big.go  | 4 ++++
 scan.go | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index 81f680d..5b1efe2 100644
--- a/big.go
+++ b/big.go
@@ -1666,6 +1666,10 @@ var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|(i
 // SetString will only return (nil, false) if a library error
 // occurs. In general, it safe to ignore the bool result.
 func (z *Big) SetString(s string) (*Big, bool) {
+	if s == "" {
+		z.Context.Conditions |= ConversionSyntax
+		return z.SetNaN(false), true
+	}
 	if err := z.scan(strings.NewReader(s)); err != nil {
 		return nil, false
 	}
diff --git a/scan.go b/scan.go
index 197d3b1..b6a456a 100644
--- a/scan.go
+++ b/scan.go
@@ -124,6 +124,9 @@ func scanSign(r io.ByteScanner) (bool, error) {
 func (z *Big) scanForm(r io.ByteScanner) (form, error) {
 	ch, err := r.ReadByte()
 	if err != nil {
+		if err == io.EOF {
+			return 0, ConversionSyntax // a lone sign
+		}
 		return 0, err
 	}
 
@@ -152,7 +155,7 @@ func (z *Big) scanForm(r io.ByteScanner) (form, error) {
 		ch, err := r.ReadByte()
 		if err != nil {
 			if err == io.EOF {
-				return 0, io.ErrUnexpectedEOF
+				return 0, ConversionSyntax
 			}
 			return 0, err
 		}
@@ -208,7 +211,7 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			if i == len("inf") {
 				return inf, nil
 			}
-			return 0, io.ErrUnexpectedEOF
+			return 0, ConversionSyntax
 		}
 		if ch != s[i] && ch != s[i]-('a'-'A') {
 			return 0, ConversionSyntax
-- 
2.43.0


From b68cba46d9d26c7a91336618986102cc8dd64b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 34/57] fix: Regexp matches signed infinities and Infinity

---
 big.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 5b1efe2..20d3436 100644
--- a/big.go
+++ b/big.go
@@ -1638,7 +1638,7 @@ func (z *Big) SetScale(scale int) *Big {
 
 // Regexp matches any valid string representing a decimal that
 // can be passed to SetString.
-var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|(inf(infinity)?))|([+-]?([sq]?nan\d*))`)
+var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|([+-]?inf(inity)?))|([+-]?([sq]?nan\d*))`)
 
 // SetString sets z to the value of s and returns z.
 //
-- 
2.43.0


From 991511a43a000af8e477d6fe5b4d1862544d1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 35/57] fix: postgres: scanning a malformed string is an error

---
 sql/postgres/decimal.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index 1c0734a..e72002c 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -80,16 +80,27 @@ func (d *Decimal) Scan(val interface{}) error {
 	}
 	switch t := val.(type) {
 	case string:
-		if _, ok := d.V.SetString(t); !ok {
-			if err := d.V.Context.Err(); err != nil {
-				return err
-			}
-			return fmt.Errorf("Decimal.Scan: invalid syntax: %q", t)
-		}
-		return nil
+		return d.scan(t)
 	case []byte:
-		return d.V.UnmarshalText(t)
+		return d.scan(string(t))
 	default:
 		return fmt.Errorf("Decimal.Scan: unknown value: %#v", val)
 	}
 }
+
+func (d *Decimal) scan(s string) error {
+	// Only consider a syntax error raised by this string.
+	ctx := &d.V.Context
+	conds := ctx.Conditions
+	ctx.Conditions &^= decimal.ConversionSyntax
+	_, ok := d.V.SetString(s)
+	ok = ok && ctx.Conditions&decimal.ConversionSyntax == 0
+	ctx.Conditions |= conds
+	if ok {
+		return nil
+	}
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	return fmt.Errorf("Decimal.Scan: invalid syntax: %q", s)
+}
-- 
2.43.0


From 918dcba78dd7a9fd848488b83431edaca3e183dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 36/57] fix: Quantize keeps the requested scale when rounding
 carries

---
 big_ctx.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 5af4927..aa67991 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2190,7 +2190,7 @@ func (c Context) Quantize(z *Big, n int) *Big {
 			// shift < 0
 		} else if yc, ok := arith.Pow10(uint64(-shift)); ok {
 			z.quo(m, z.compact, neg, yc, 0)
-			return z
+			return c.quantized(z, n)
 		}
 		z.unscaled.SetUint64(z.compact)
 		z.compact = cst.Inflated
@@ -2203,6 +2203,19 @@ func (c Context) Quantize(z *Big, n int) *Big {
 		var r big.Int
 		z.quoBig(m, &z.unscaled, neg, arith.BigPow10(uint64(-shift)), 0, &r)
 	}
+	return c.quantized(z, n)
+}
+
+// quantized restores the exponent, n, of a quantized decimal if rounding it
+// carried into a new digit.
+func (c Context) quantized(z *Big, n int) *Big {
+	if shift := z.exp - n; shift > 0 {
+		if z.Precision()+shift > c.precision() {
+			return z.setNaN(InvalidOperation, qnan, quantprec)
+		}
+		c.shiftl(z, uint64(shift))
+		z.exp = n
+	}
 	return z
 }
 
-- 
2.43.0


From 14b727c7f12f540edc20475e9056e0f062a7e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 37/57] fix: formatting with a precision considers every
 discarded digit

---
 format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index 8a34100..b1f36b4 100644
--- a/format.go
+++ b/format.go
@@ -32,6 +32,8 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 		return b[:prec]
 	}
 
+	// Whether the discarded digits after the first are all zero.
+	exact := allZeros(b[prec+1:])
 	b = b[:prec+1]
 	i := prec - 1
 
@@ -50,7 +52,7 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 			b[i]++
 		}
 	case ToNearestEven:
-		if b[i+1] > '5' || b[i+1] == '5' && b[i]%2 != 0 {
+		if b[i+1] > '5' || b[i+1] == '5' && (!exact || b[i]%2 != 0) {
 			b[i]++
 		}
 	case ToNearestAway:
@@ -58,7 +60,7 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 			b[i]++
 		}
 	case ToNearestTowardZero:
-		if b[i+1] > '5' {
+		if b[i+1] > '5' || b[i+1] == '5' && !exact {
 			b[i]++
 		}
 	}
-- 
2.43.0


From 004f5c71be922816c9e33282765a3a7473669e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 38/57] fix: Compose is exact, and Decompose checks both ends
 of the exponent

---
 decomposer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/decomposer.go b/decomposer.go
index d2b1d48..2bfae69 100644
--- a/decomposer.go
+++ b/decomposer.go
@@ -53,7 +53,7 @@ func (z *Big) Decompose(buf []byte) (form byte, negative bool, coefficient []byt
 	if !z.IsFinite() {
 		panic("expected number to be finite")
 	}
-	if z.exp > math.MaxInt32 {
+	if z.exp > math.MaxInt32 || z.exp < math.MinInt32 {
 		panic("exponent exceeds max size")
 	}
 	exponent = int32(z.exp)
@@ -89,8 +89,6 @@ func (z *Big) Compose(form byte, negative bool, coefficient []byte, exponent int
 	bigc := &big.Int{}
 	bigc.SetBytes(coefficient)
 	z.SetBigMantScale(bigc, -int(exponent))
-	if negative {
-		z.Neg(z)
-	}
+	z.SetSignbit(negative)
 	return nil
 }
-- 
2.43.0


From e1412cb66fc7555b04f1df87bccf94b132a5dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 39/57] fix: postgres: Value rounds a copy, to
 MaxFractionalDigits

---
 sql/postgres/decimal.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index e72002c..9526698 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -62,17 +62,27 @@ func (d *Decimal) Value() (driver.Value, error) {
 		}
 		// Rounding down the integral part automatically chops off the fractional
 		// part.
-		return v.Round(MaxIntegralDigits).String(), nil
+		return dup(v).Round(MaxIntegralDigits).String(), nil
 	}
 	if sl > MaxFractionalDigits {
 		if !d.Round {
 			return nil, &LengthError{Part: "fractional", N: sl, max: MaxFractionalDigits}
 		}
-		v.Round(dl - (sl - MaxFractionalDigits))
+		ctx := decimal.Context{
+			Precision:    dl + 1, // the rounded value may have one more digit
+			RoundingMode: v.Context.RoundingMode,
+		}
+		v = ctx.Quantize(dup(v), MaxFractionalDigits)
 	}
 	return v.String(), nil
 }
 
+// dup returns a copy of x so that rounding it does not modify the caller's
+// decimal.
+func dup(x *decimal.Big) *decimal.Big {
+	return decimal.WithContext(x.Context).Copy(x)
+}
+
 // Scan implements sql.Scanner.
 func (d *Decimal) Scan(val interface{}) error {
 	if d.V == nil {
-- 
2.43.0


From 7484321fe47af3322d989e3404d0cb0995c91ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 40/57] fix: Ceil keeps the sign of a NaN, and does not round
 to the Context's precision

---
 big_ctx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index aa67991..99b821d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -857,8 +857,11 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	// ceil(x) = -floor(-x)
-	return c.Neg(z, c.Floor(z, z.CopyNeg(x)))
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
+		return z
+	}
+	c.RoundingMode = ToPositiveInf
+	return c.RoundToInt(z.Copy(x))
 }
 
 // E sets z to the mathematical constant e and returns z.
-- 
2.43.0


From 86bf8bbb15e1662efec4024d1780edbb09e7b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 41/57] fix: compare with the integer exactly: Acos and Asin of
 1 < |x| < 2 are NaN, of 0E+5 are not

---
 big.go     | 50 ++++----------------------------------------------
 big_ctx.go |  4 ++--
 2 files changed, 6 insertions(+), 48 deletions(-)

diff --git a/big.go b/big.go
index 20d3436..1c8b74a 100644
--- a/big.go
+++ b/big.go
@@ -394,56 +394,14 @@ func (x *Big) CmpAbs(y *Big) int {
 	return cmp(x, y, true)
 }
 
+// cmpInt compares x and y, where x is not NaN.
 func cmpInt(x *Big, y int64) int {
-	switch {
-	case x.Signbit() && y >= 0:
-		return -1
-	case !x.Signbit() && y < 0:
-		return +1
-	default:
-		return cmpAbsInt(x, y)
-	}
+	return cmp(x, new(Big).SetMantScale(y, 0), false)
 }
 
+// cmpAbsInt compares |x| and |y|, where x is not NaN.
 func cmpAbsInt(x *Big, y int64) int {
-	u := uint64(y)
-
-	// Same scales, so compare straight across.
-	if x.exp == 0 {
-		// If the scales are the same and x x is not compact,
-		// then by definition it's larger than y.
-		if !x.isCompact() {
-			return +1
-		}
-		return arith.Cmp(x.compact, u)
-	}
-
-	// Signs are the same and the scales differ. Compare the
-	// lengths of their integral parts; if they differ in length
-	// one number is larger.
-	// E.g.: 1234.01
-	//       1230011
-	xl := x.adjusted()
-	yl := arith.Length(u) - 1
-	if xl != yl {
-		if xl < yl {
-			return -1
-		}
-		return +1
-	}
-
-	// The length of the integral parts match. Rescale x, then
-	// compare straight across.
-	t, ok := scalex(x.compact, x.exp)
-	if !ok {
-		if x.exp > 0 {
-			// Overflow.
-			return +1
-		}
-		// Underflow.
-		return -1
-	}
-	return arith.Cmp(t, u)
+	return cmp(x, new(Big).SetMantScale(y, 0), true)
 }
 
 // cmp is the implementation for both Cmp and CmpAbs.
diff --git a/big_ctx.go b/big_ctx.go
index 99b821d..3b02543 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -430,8 +430,8 @@ func (c Context) Atan(z, x *Big) *Big {
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
-	// when x <-1 we use -atan(-x) instead
-	if cmpInt(x, -1) < 0 {
+	// when x < 0 we use -atan(-x) instead
+	if x.Signbit() {
 		z.CopyNeg(x)       //       -x
 		ctx.Atan(z, z)     //  atan(-x)
 		return c.Neg(z, z) // -atan(-x)
-- 
2.43.0


From 23d6e1827ef3774907cddfedc2e69234b4c25495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 42/57] fix: Log and Log10 overflow to -Infinity for small
 operands

---
 big_ctx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3b02543..f0e2bb3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1308,14 +1308,15 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 	}
 
 	t := int64(x.adjusted())
-	if t < 0 {
+	neg := t < 0
+	if neg {
 		t = -t - 1
 	}
 	t *= 2
 
 	if arith.Length(arith.Abs(t))-1 > c.emax() {
 		z.Context.Conditions |= Overflow | Inexact | Rounded
-		return z.SetInf(t < 0)
+		return z.SetInf(neg)
 	}
 
 	// Argument reduction:
-- 
2.43.0


From d37f31ef9f5444f1d547d03a49c376eb254572b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 43/57] fix: Lentz and Wallis use the explicit Context, not the
 result's

---
 continued_frac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continued_frac.go b/continued_frac.go
index b996b49..0eb836a 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -82,7 +82,7 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	a.Copy(t.B)
 	b.SetUint64(1)
 
-	ctx := z.Context
+	ctx := c
 	if c, ok := g.(Contexter); ok {
 		ctx = c.Context()
 	}
@@ -216,7 +216,7 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 	C.Copy(f)
 	D.SetUint64(0)
 
-	ctx := z.Context
+	ctx := c
 	if c, ok := g.(Contexter); ok {
 		ctx = c.Context()
 	}
-- 
2.43.0


From 2c6a420e7c8bc7fea1e69ad8bd509a3f6af3aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 44/57] fix: QuoRem copies a NaN quotient to the remainder,
 whatever the remainder's own Context

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index f0e2bb3..3749240 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2558,14 +2558,14 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 	// NaN / y
 	// x / NaN
 	if z.checkNaNs(x, y, division) {
-		return z, r.Set(z)
+		return z, r.Copy(z)
 	}
 
 	if x.form&inf != 0 {
 		if y.form&inf != 0 {
 			// ±Inf / ±Inf
 			z.setNaN(InvalidOperation, qnan, quoinfinf)
-			return z, r.Set(z)
+			return z, r.Copy(z)
 		}
 		// ±Inf / y
 		z.SetInf(sign != 0)
-- 
2.43.0


From c71b2c823941d9b5453a31a72696e07d28764c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 45/57] fix: Big.Round leaves its receiver alone for n <= 0, as
 documented

---
 big.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big.go b/big.go
index 1c8b74a..8e83a39 100644
--- a/big.go
+++ b/big.go
@@ -1333,6 +1333,9 @@ func (z *Big) Rem(x, y *Big) *Big {
 // occur if n <= 0. The result of Round will always be in the
 // interval [⌊10**p⌋, z] where p = the precision of z.
 func (z *Big) Round(n int) *Big {
+	if n <= 0 {
+		return z
+	}
 	ctx := z.Context
 	ctx.Precision = n
 	return ctx.Round(z)
-- 
2.43.0


From 9f2e8ba6f69e927d14231ab3afc138b7fe37d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 46/57] fix: CmpTotal and CmpTotalAbs order equal values by
 sign, then exponent

---
 big.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index 8e83a39..94eb001 100644
--- a/big.go
+++ b/big.go
@@ -549,7 +549,16 @@ func (x *Big) CmpTotal(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.Cmp(y)
+	if r := x.Cmp(y); r != 0 {
+		return r
+	}
+	if xn := x.Signbit(); xn != y.Signbit() {
+		if xn {
+			return -1 // -0 < +0
+		}
+		return +1
+	}
+	return x.cmpExp(y)
 }
 
 // CmpTotalAbs is like CmpTotal but instead compares the absolute
@@ -570,7 +579,23 @@ func (x *Big) CmpTotalAbs(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.CmpAbs(y)
+	if r := x.CmpAbs(y); r != 0 {
+		return r
+	}
+	return x.cmpExp(y)
+}
+
+// cmpExp compares the exponents of x and y, which are equal in value and not
+// NaN.
+func (x *Big) cmpExp(y *Big) int {
+	switch {
+	case !x.IsFinite() || x.exp == y.exp:
+		return 0
+	case x.exp < y.exp:
+		return -1
+	default:
+		return +1
+	}
 }
 
 func (x *Big) ordTotal(abs bool) (r int) {
-- 
2.43.0


From 174e8c01251099402d50fdd4e7d47c673201913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 47/57] fix: a zero is neither normal nor subnormal

---
 big.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big.go b/big.go
index 94eb001..cb3cee1 100644
--- a/big.go
+++ b/big.go
@@ -1039,14 +1039,14 @@ func (x *Big) IsFinite() bool {
 	return x.form & ^signbit == 0
 }
 
-// IsNormal reports whether x is normal.
+// IsNormal reports whether x is normal. A zero is neither normal nor subnormal.
 func (x *Big) IsNormal() bool {
-	return x.IsFinite() && x.adjusted() >= x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() >= x.Context.emin()
 }
 
 // IsSubnormal reports whether x is subnormal.
 func (x *Big) IsSubnormal() bool {
-	return x.IsFinite() && x.adjusted() < x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() < x.Context.emin()
 }
 
 // IsInf reports whether x is an infinity according to sign.
-- 
2.43.0


From 6c8efef0aa203e7f85cc7b0228cdaf1651cfa31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 48/57] fix: Quo rounds against the divisor, not against the
 quotient that overwrote it

---
 big_ctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 3749240..fe86563 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2422,6 +2422,10 @@ func (z *Big) quoBig(
 	z.compact = cst.Inflated
 	z.form = xneg ^ yneg
 
+	if y == &z.unscaled || y == r {
+		// y is needed to round the quotient.
+		y = new(big.Int).Set(y)
+	}
 	q, r := z.unscaled.QuoRem(x, y, r)
 	if r.Sign() == 0 {
 		z.norm()
-- 
2.43.0


From 50e5b37079086d503621d4bc3281552a684e2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 49/57] fix: Quo rounds a subnormal quotient once, and signals
 Underflow for it

---
 big_ctx.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index fe86563..4eece34 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2268,9 +2268,40 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		// 0 / y
 		return c.fix(z.setZero(sign, x.exp-y.exp))
 	}
+	if p := c.precision(); p < MaxPrecision && x.adjusted()-y.adjusted() <= c.emin() {
+		return c.quoTiny(z, x, y)
+	}
 	return c.fix(c.quo(z, x, y))
 }
 
+// quoTiny sets z to x / y where both x and y are finite and non-zero, and the
+// quotient might be subnormal.
+//
+// A subnormal number has fewer than c.precision() digits, so rounding the
+// quotient to c.precision() digits first would round it twice.
+func (c Context) quoTiny(z, x, y *Big) *Big {
+	conds := z.Context.Conditions
+	z.Context.Conditions = 0
+
+	ctx := c
+	ctx.Precision = c.precision() + 1
+	ctx.RoundingMode = ToZero
+	ctx.quo(z, x, y)
+
+	if z.Context.Conditions&Inexact != 0 && !z.isSpecial() {
+		// Make sure z does not look like an exact number or a tie.
+		if z.isCompact() {
+			if z.compact%5 == 0 {
+				z.compact++
+			}
+		} else if new(big.Int).Rem(&z.unscaled, cst.FiveInt).Sign() == 0 {
+			arith.Add(&z.unscaled, &z.unscaled, 1)
+		}
+	}
+	z.Context.Conditions |= conds
+	return c.round(c.fix(z))
+}
+
 // quo sets z to x / y where both x and y are finite and non-zero.
 //
 // It does not check that the result is within the Context's limits.
-- 
2.43.0


From 40dae1abcac0d8b08ea0a249651f1332a017dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 50/57] fix: Int64 and Uint64 of numbers less than 1e-19

Truncating such a number gives zero, which fits: the conversion failed only
because 10**-scale itself does not fit into a uint64.
---
 util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index a26c5c9..a5951de 100644
--- a/util.go
+++ b/util.go
@@ -189,7 +189,8 @@ func scalex(x uint64, scale int) (sx uint64, ok bool) {
 	}
 	p, ok := arith.Pow10(uint64(-scale))
 	if !ok {
-		return 0, false
+		// x < 10^-scale
+		return 0, true
 	}
 	return x / p, true
 }
-- 
2.43.0


From d53866f9d071f194a9bca0461ecc0b2f515a1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 51/57] fix: Log10 of numbers that are a power of ten modulo
 2^64

---
 internal/arith/pow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/arith/pow.go b/internal/arith/pow.go
index 0c175d6..63900dc 100644
--- a/internal/arith/pow.go
+++ b/internal/arith/pow.go
@@ -67,7 +67,7 @@ func PowOfTenBig(x *big.Int) bool {
 			return false
 		}
 	}
-	return PowOfTen(q.Uint64())
+	return q.IsUint64() && PowOfTen(q.Uint64())
 }
 
 // PowOfTen reports whether x is a power of 10.
-- 
2.43.0


From 1ee73d80fc5e30cdd40bc2fafcb47976f89386da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:40 +0000
Subject: [PATCH 52/57] fix: text after infinity is not a numeric string

---
 scan.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scan.go b/scan.go
index b6a456a..15afb14 100644
--- a/scan.go
+++ b/scan.go
@@ -217,6 +217,14 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 	}
+
+	// Nothing may follow.
+	if _, err := r.ReadByte(); err != io.EOF {
+		if err != nil {
+			return 0, err
+		}
+		return 0, ConversionSyntax
+	}
 	return inf, nil
 }
 
-- 
2.43.0


From efddb0cf5fcbb6f39b99b3540b55ecd6fcfe32dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 53/57] fix: formatted numbers that carry into a new digit

---
 big.go    |  1 +
 format.go | 15 ++++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/big.go b/big.go
index cb3cee1..a45dafb 100644
--- a/big.go
+++ b/big.go
@@ -861,6 +861,7 @@ func (x *Big) Format(s fmt.State, c rune) {
 			prec = 0
 		} else {
 			// %f's precision means "number of digits after the radix"
+			f.fixed = true
 			if x.exp > 0 {
 				f.prec += (x.exp + x.Precision())
 			} else {
diff --git a/format.go b/format.go
index b1f36b4..72fe883 100644
--- a/format.go
+++ b/format.go
@@ -133,6 +133,7 @@ type formatter struct {
 	}
 	sign  byte  // leading '+' or ' ' flag
 	prec  int   // total precision
+	fixed bool  // prec follows from the number of digits after the radix
 	width int   // min width
 	n     int64 // cumulative number of bytes written to w
 }
@@ -212,7 +213,12 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		}
 		orig := len(b)
 		b = roundString(b, x.Context.RoundingMode, !neg, f.prec)
-		exp = int(x.exp) + orig - len(b)
+		exp = int(x.exp) + orig - f.prec
+		if len(b) > f.prec && !f.fixed {
+			// We carried into a new digit.
+			b = b[:f.prec]
+			exp++
+		}
 	} else if f.prec < 0 {
 		f.prec = -f.prec
 		exp = -f.prec
@@ -285,12 +291,7 @@ func (f *formatter) formatPlain(b []byte, exp int) {
 	default:
 		f.WriteString(zeroRadix)
 		io.CopyN(f, zeroReader{}, -int64(radix))
-
-		end := len(b)
-		if f.prec < end {
-			end = f.prec
-		}
-		f.Write(b[:end])
+		f.Write(b)
 	}
 }
 
-- 
2.43.0


From 29528a0a487f338e577dd2712728246c48c552d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 54/57] fix: %f of numbers less than a unit in the last place

---
 format.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/format.go b/format.go
index 72fe883..a1c5c5a 100644
--- a/format.go
+++ b/format.go
@@ -205,12 +205,14 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		b   []byte
 		exp int
 	)
-	if f.prec > 0 {
+	if f.prec > 0 || f.fixed {
 		if x.isCompact() {
 			b = formatCompact(x.compact)
 		} else {
 			b = formatUnscaled(&x.unscaled)
 		}
+	}
+	if f.prec > 0 {
 		orig := len(b)
 		b = roundString(b, x.Context.RoundingMode, !neg, f.prec)
 		exp = int(x.exp) + orig - f.prec
@@ -219,11 +221,20 @@ func (f *formatter) format(x *Big, format format, e byte) {
 			b = b[:f.prec]
 			exp++
 		}
-	} else if f.prec < 0 {
+	} else {
 		f.prec = -f.prec
 		exp = -f.prec
-	} else {
-		b = []byte{'0'}
+		if f.fixed {
+			// x is less than 10**-f.prec, so it rounds to either zero or one
+			// unit in the last place.
+			pre := "0"
+			if x.adjusted()+1 < exp {
+				pre = "00"
+			}
+			b = roundString(append([]byte(pre), b...), x.Context.RoundingMode, !neg, 1)
+		} else {
+			b = []byte{'0'}
+		}
 	}
 
 	// "Next, the adjusted exponent is calculated; this is the exponent, plus
-- 
2.43.0


From 1fda3a9052ea430c9f248791ec413523de82283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 55/57] fix: zero with a width in Go mode

---
 format.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/format.go b/format.go
index a1c5c5a..f3ad7f7 100644
--- a/format.go
+++ b/format.go
@@ -185,12 +185,7 @@ func (f *formatter) format(x *Big, format format, e byte) {
 
 	if x.isZero() && o == Go {
 		// Go mode prints zeros different than GDA.
-		if f.width == noWidth {
-			f.WriteByte('0')
-		} else {
-			f.WriteString("0.")
-			io.CopyN(f, zeroReader{}, int64(f.width))
-		}
+		f.WriteByte('0')
 		return
 	}
 
-- 
2.43.0


From e8b16c5156b2654e8485b3ccf6bfe3e17ac6c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 56/57] fix: padding with zeros, and to the right

---
 big.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index a45dafb..ae94076 100644
--- a/big.go
+++ b/big.go
@@ -808,7 +808,7 @@ func (x *Big) Format(s fmt.State, c rune) {
 	var (
 		hash    = s.Flag('#')
 		dash    = s.Flag('-')
-		lpZero  = s.Flag('0')
+		lpZero  = s.Flag('0') && !dash && x.IsFinite()
 		lpSpace = width != noWidth && !dash && !lpZero
 		plus    = s.Flag('+')
 		space   = s.Flag(' ')
@@ -917,12 +917,22 @@ func (x *Big) Format(s fmt.State, c rune) {
 		return
 	}
 
+	var str string
+	if tmpbuf {
+		str = f.w.(*strings.Builder).String()
+	}
+
 	// Need padding out to width.
 	if f.n < int64(width) {
 		switch pad := int64(width) - f.n; {
 		case dash:
 			io.CopyN(s, spaceReader{}, pad)
 		case lpZero:
+			// The zeros go between the sign, if any, and the digits.
+			if str != "" && (str[0] == '-' || str[0] == '+' || str[0] == ' ') {
+				io.WriteString(s, str[:1])
+				str = str[1:]
+			}
 			io.CopyN(s, zeroReader{}, pad)
 		case lpSpace:
 			io.CopyN(s, spaceReader{}, pad)
@@ -931,7 +941,7 @@ func (x *Big) Format(s fmt.State, c rune) {
 
 	if tmpbuf {
 		// fmt's internal state type implements stringWriter I think.
-		io.WriteString(s, f.w.(*strings.Builder).String())
+		io.WriteString(s, str)
 	}
 }
 
-- 
2.43.0


From f59c52f5aaf4205287279d7880d6989b9a5c4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:20 +0000
Subject: [PATCH 57/57] fix: Float: infinities keep their sign

---
 big.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big.go b/big.go
index ae94076..95adac2 100644
--- a/big.go
+++ b/big.go
@@ -760,7 +760,7 @@ func (x *Big) Float(z *big.Float) *big.Float {
 			z.SetRat(x.Rat(nil))
 		}
 	case pinf, ninf:
-		z.SetInf(x.form == pinf)
+		z.SetInf(x.form == ninf)
 	default: // snan, qnan, ssnan, sqnan:
 		z.SetUint64(0)
 	}
-- 
2.43.0

