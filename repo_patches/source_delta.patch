From 094a6744eb0de8de8835b3d16eca0bf60f51af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 01/44] fix: NaN in either operand of unpacked +,*,/ gives NaN

With only the second operand NaN the first operand was returned (1+NaN == 1).
---
 include/unpacked.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index b794ebd..3eeb734 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -327,7 +327,7 @@ struct Unpacked
     // UnpackedDualSel(*,NaN)
     // UnpackedDualSel(NaN,*)
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -389,7 +389,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator*(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -432,7 +432,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator/(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
 
     // 9 more cases
     switch (UnpackedDualSel(a.type, b.type))
-- 
2.43.0


From 368f5db13e905d771e4a869a6841419bf0460086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 02/44] fix: unpacked operator!= returned the value of
 operator==

---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 3eeb734..999d58e 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -228,7 +228,7 @@ struct Unpacked
   constexpr bool operator!=(const Unpacked &u) const
   {
     // nan != nan ALWAYS
-    return type == NaN || u.type == NaN ? true : (*this == u);
+    return !(*this == u);
   }
 
   constexpr Unpacked operator-() const
-- 
2.43.0


From 3c6db500a82f2bae65202fc21bd8dffed298cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 03/44] fix: negating an unpacked zero, infinity or NaN turned
 it into a regular number

---
 include/unpacked.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 999d58e..18ba0ef 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -233,7 +233,9 @@ struct Unpacked
 
   constexpr Unpacked operator-() const
   {
-    return Unpacked(exponent, fraction, !negativeSign);
+    return type == Regular
+               ? Unpacked(exponent, fraction, !negativeSign)
+               : Unpacked(type, type == Infinity && !negativeSign);
   }
 
   CONSTEXPR14 Unpacked inv() const
-- 
2.43.0


From d57e80eb281bc06f4784a20bb4f242dc6fb118dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 04/44] fix: a finite value divided by infinity is zero, not
 infinity

---
 include/unpacked.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/unpacked.h b/include/unpacked.h
index 18ba0ef..8fc697e 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -459,6 +459,7 @@ struct Unpacked
     case UnpackedDualSel(Infinity, Infinity):
       return nan();
     case UnpackedDualSel(Zero, Infinity):
+    case UnpackedDualSel(Regular, Infinity):
       return zero();
     case UnpackedDualSel(Zero, Regular):
     case UnpackedDualSel(Infinity, Zero):
-- 
2.43.0


From 9cb35a7bbc5440eb5e9c672caabbf09f6eb961ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 05/44] fix: unpacked addition shifted by more than the
 fraction width

Aligning operands whose exponents differ by FT_bits or more is undefined
(2^64+1 evaluated as 2^65 with a 64 bit fraction on x86).
---
 include/unpacked.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 8fc697e..091921d 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -344,10 +344,11 @@ struct Unpacked
           (FT_leftmost_bit >> 1) |
           (a.fraction >> 2); // denormalized and shifted right
       POSIT_LUTYPE bfrac1 = (FT_leftmost_bit >> 1) | (b.fraction >> 2);
+      // an operand further away than the fraction width contributes nothing
       POSIT_LUTYPE afrac = dir < 0
-                               ? (afrac1 >> -dir)
+                               ? (dir <= -FT_bits ? 0 : afrac1 >> -dir)
                                : afrac1; // denormalized and shifted right
-      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (bfrac1 >> dir);
+      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (dir >= FT_bits ? 0 : bfrac1 >> dir);
 
       // 1.xxxx => 0.1xxxxx => 0.0k 1 xxxx
       //
-- 
2.43.0


From b54541173f80fb65fc8aec59d4159a80865f4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 06/44] fix: normalisation of a fraction of 1 shifted by the
 full width

---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 091921d..46aec99 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -98,7 +98,7 @@ struct Unpacked
     else
     {
       int k = findbitleftmostC(fraction);
-      return Unpacked(exponent - k, fraction << (k + 1), negativeSign);
+      return Unpacked(exponent - k, (fraction << k) << 1, negativeSign);
     }
   }
 
-- 
2.43.0


From e51f78ac6a2c31229969cf2151848e20c5b3ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 07/44] fix: negation and absolute value of the top code leave
 the posit range

NaN (or the unsigned infinity) is its own two's complement in totalbits; when
the holder is wider -v is not a posit any more (-NaN of a 12 bit posit in
int16_t was 2048), and for int32_t the negation overflows.
---
 include/posit.h     | 7 +++----
 include/posit10.hpp | 4 ++--
 include/posit12.hpp | 4 ++--
 include/posit8.hpp  | 4 ++--
 include/positf.h    | 7 +++----
 5 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 665384a..c65a273 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -335,10 +335,10 @@ public:
 	/// absolute value
 	/// TODO: use (v ^ mask) - mask   OR (x+mask)^nasj
 	/// where int const mask = v >> sizeof(int) * CHAR_BIT - 1;
-	constexpr Posit abs()  const { return Posit(DeepInit(),pcabs(v));  }  // could be >= infinity because infinity is sign symmetric
+	constexpr Posit abs()  const { return v < 0 ? neg() : *this;  }  // could be >= infinity because infinity is sign symmetric
 
 	/// negation
-	constexpr Posit neg()  const { return Posit(DeepInit(),-v); }; 
+	constexpr Posit neg()  const { return Posit(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; 
 
 	/// 1/x
 	CONSTEXPR14 Posit inv()  const;
@@ -901,8 +901,7 @@ namespace std
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
 	inline CONSTEXPR14 Posit<T,totalbits,esbits,FT,positspec> abs(Posit<T,totalbits,esbits,FT,positspec> z) 
 	{
-		using PP=Posit<T,totalbits,esbits,FT,positspec>;
-		return PP(PP::DeepInit(),pcabs(z.v));
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
diff --git a/include/posit10.hpp b/include/posit10.hpp
index 42161f1..006d713 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -97,7 +97,7 @@ public:
 	posit10 twice() const;
 	posit10 exp2() const { return posit10(DeepInit(),posit10ns::opexp2[uu()]); }
 	posit10 square() const { return posit10(DeepInit(),posit10ns::opsquare[uu()]); }
-	posit10 operator-() const { return posit10(DeepInit(),-v);  }
+	posit10 operator-() const { return posit10(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  }
 
 #if 0
 //	friend posit10 operator+(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),a.v<0? -posit10ns::opadd[(-a).uu()*1024+(-b).uu()] : posit10ns::opadd[a.uu()*1024+b.uu()]); }
@@ -162,7 +162,7 @@ namespace std
 {
 	inline posit10 abs(posit10 z) 
 	{
-		return posit10(posit10::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 	inline posit10 min(const posit10 &a, const posit10 & b)
diff --git a/include/posit12.hpp b/include/posit12.hpp
index 9a39672..0638956 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -80,7 +80,7 @@ public:
 	posit12 twice() const;
 	posit12 exp2() const { return posit12(DeepInit(),posit12ns::opexp2[uu()]); }
 	posit12 square() const { return posit12(DeepInit(),posit12ns::opsquare[uu()]); }
-	posit12 operator-() const { return posit12(DeepInit(),-v);  }
+	posit12 operator-() const { return posit12(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  }
 
 	friend bool operator<(posit12 a, posit12 b) { return a.v < b.v; }
 	friend bool operator>(posit12 a, posit12 b) { return a.v > b.v; }
@@ -141,7 +141,7 @@ namespace std
 {
 	inline posit12 abs(posit12 z) 
 	{
-		return posit12(posit12::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 
diff --git a/include/posit8.hpp b/include/posit8.hpp
index 7881222..ae933ca 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -88,7 +88,7 @@ public:
 	posit8 twice() const;
 	posit8 exp2() const { return posit8(DeepInit(),posit8ns::opexp2[uu()]); }
 	posit8 square() const { return posit8(DeepInit(),posit8ns::opsquare[uu()]); }
-	posit8 operator-() const { return posit8(DeepInit(),-v);  }
+	posit8 operator-() const { return posit8(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  }
 
 	friend bool operator<(posit8 a, posit8 b) { return a.v < b.v; }
 	friend bool operator>(posit8 a, posit8 b) { return a.v > b.v; }
@@ -157,7 +157,7 @@ namespace std
 {
 	inline posit8 abs(posit8 z) 
 	{
-		return posit8(posit8::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 	inline posit8 min(posit8 a, posit8 b)
diff --git a/include/positf.h b/include/positf.h
index e9462ee..ce4692c 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -85,8 +85,8 @@ public:
 
 	constexpr UnpackedT unpack() const { return PPT(typename PPT::DeepInit(),v).unpack(); }
 
-	constexpr PositF abs()  const { return PositF(DeepInit(),(v < 0 ? -v : v));  }  // could be >= infinity because infinity is sign symmetric
-	constexpr PositF neg()  const { return PositF(DeepInit(),-v); }; 
+	constexpr PositF abs()  const { return v < 0 ? neg() : *this;  }  // could be >= infinity because infinity is sign symmetric
+	constexpr PositF neg()  const { return PositF(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; 
 	PositF inv()  const { return PositF(1/(FFT)unpack());}
 
 	// SFINAE optionally: template<typename U = T, class = typename std::enable_if<withnan, U>::type>
@@ -228,8 +228,7 @@ namespace std
 	template <class T,int totalbits, int esbits, class FFT, PositSpec positspec>
 	inline CONSTEXPR14 PositF<T,totalbits,esbits,FFT,positspec> abs(PositF<T,totalbits,esbits,FFT,positspec> z) 
 	{
-		using PP=PositF<T,totalbits,esbits,FFT,positspec>;
-		return PP(PP::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FFT, PositSpec positspec>
-- 
2.43.0


From 54a825a69c58346e540a63c9bc90122dd81c2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 08/44] fix: pack_low with an extreme regime

Halving the smallest posit gave zero (or garbage with a full int32_t holder)
because the regime left the representable range, and for totalbits equal to
the holder size exponent and fraction were shifted by the holder width or more.
---
 include/posit.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index c65a273..509ad8f 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -716,6 +716,14 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::pack_low(UnpackedLow x)
 	auto exp = x.exp;
 	auto reg = x.regime;
 
+    // regimes outside of the representable range saturate
+    constexpr int maxreg = totalbits - (positspec == PositSpec::WithNanInf ? 3 : 2);
+    constexpr int minreg = -(totalbits - 2);
+    if(reg > maxreg)
+    	reg = maxreg;
+    else if(reg < minreg)
+    	reg = minreg;
+
     // for reg>=0: 1 0[reg+1] => size is reg+2 
     // for reg <0: 0[-reg] 0  => size is reg+1
     auto rs = -reg+1 > reg+2 ? -reg+1:reg+2; //std::max(-reg + 1, reg + 2);  MSVC issue
@@ -725,7 +733,10 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::pack_low(UnpackedLow x)
     POSIT_UTYPE regbits = reg < 0 ? (PT::POSIT_HOLDER_MSB >> -reg) : (PT::POSIT_MASK << (PT::POSIT_HOLDER_SIZE-(reg+1))); // reg+1 bits on the left
 	POSIT_UTYPE eexp = msb_exp<POSIT_UTYPE,PT::POSIT_HOLDER_SIZE,esbits,(esbits == 00)>()(exp);
 	POSIT_UTYPE fraction =  x.fraction;
-	POSIT_STYPE p = ((fraction >> (rs+es+1)) | (eexp >> (rs+1)) | (regbits>>1)) >> (sizeof(T)*8-totalbits);
+	// exponent and fraction are dropped when sign and regime fill the holder
+	POSIT_UTYPE fbits = rs+es+1 >= (int)PT::POSIT_HOLDER_SIZE ? 0 : fraction >> (rs+es+1);
+	POSIT_UTYPE ebits = rs+1 >= (int)PT::POSIT_HOLDER_SIZE ? 0 : eexp >> (rs+1);
+	POSIT_STYPE p = (fbits | ebits | (regbits>>1)) >> (sizeof(T)*8-totalbits);
 	//std::cout << "incoming " << x << std::endl;
 	//std::cout << "fraction before " << std::bitset<sizeof(FT)*8>(x.fraction) << " and " << " after " << std::bitset<sizeof(POSIT_UTYPE)*8>(fraction) << " residual exponent " << exp << " from " << eexponent <<  " and regime " << reg << std::endl;
 	//std::cout << "output sign " << std::bitset<sizeof(T)*8>(p) << " then " << std::bitset<sizeof(T)*8>(-p) << std::endl; 
-- 
2.43.0


From 350fb856e17fc72d9a457ac177020f5092e89aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 09/44] fix: reciprocal of zero and infinity

inv() returned zero for zero and infinity for infinity instead of 1/0 and 1/inf.
---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 509ad8f..0c5ecd6 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -598,7 +598,7 @@ template <class T, int totalbits, int esbits, class FT, PositSpec positspec>
 CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::inv() const -> Posit
 {
 	auto u = unpack_low();
-	if(u.fraction == 0)
+	if(u.type == UnpackedT::Regular && u.fraction == 0)
 	{
 		// 2^(R scale + E) with E unsigned
 		// becomes -R scale + (scale-E)
-- 
2.43.0


From 929522ee17667e49ad5ee74d7e081b774f9efd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 10/44] fix: next() left the finite range at the maximum and
 stuck at the lowest value

next() of the largest posit was NaN/infinity while the lowest one had no successor.
---
 include/posit.h  | 2 +-
 include/positf.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 0c5ecd6..9c4f541 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -351,7 +351,7 @@ public:
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr Posit next() const { return Posit(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr Posit next() const { return Posit(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
diff --git a/include/positf.h b/include/positf.h
index ce4692c..6aa95d7 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -97,7 +97,7 @@ public:
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr PositF prev() const { return PositF(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr PositF next() const { return PositF(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr PositF next() const { return PositF(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
-- 
2.43.0


From 6de18c44402f0c581f9a6c234d63a2e5740dd97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 11/44] fix: POSIT_HALF of posits narrower than their holder

onehalf() of Posit<int16_t,12,2,...> was 0x3f80 instead of 0x380.
---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 9c4f541..9fcf590 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -90,7 +90,7 @@ struct PositTrait
 
 		// 1/2
 		// 00 1[esbits+1] 0[N-2-esbitis-1]
-		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE( (POSIT_UTYPE(-1) >> (totalbits-esbits-1))) << (totalbits-3-esbits);
+		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE( (POSIT_UTYPE(-1) >> (POSIT_HOLDER_SIZE-esbits-1))) << (totalbits-3-esbits);
 		
 		// max value below Infinity
 		// 1[holder-total] 1 0[total-1]
-- 
2.43.0


From 097ed4111f476d6081f85fe899fe8b7ddebd5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 12/44] fix: unpacking floats into narrow fraction or exponent
 types

The raw exponent was truncated to ET (infinity and large values became garbage
in 5..7 bit posits held by int8_t) and infinity/NaN and zero/denormal were told
apart after truncating the fraction to FT (a NaN with a small payload became
infinity, small denormals became zero). A denormal with only the lowest
fraction bit set was shifted by the full width.
---
 include/unpacked.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 46aec99..a46cbe0 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -542,12 +542,13 @@ template <class Trait>
 CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
     typename Trait::holder_t value)
 {
-  ET rawexp = bitset_getT(value, Trait::fraction_bits, Trait::exponent_bits);
+  // not ET: it can be narrower than the exponent of the float
+  const int rawexp = bitset_getT(value, Trait::fraction_bits, Trait::exponent_bits);
   type = Regular;
   negativeSign =
       value & (((typename Trait::holder_t)1) << (Trait::data_bits - 1));
-  exponent = rawexp - Trait::exponent_bias; // ((un.u >> Trait::fraction_bits)
-                                            // & Trait::exponent_mask)
+  int unbiased = rawexp - Trait::exponent_bias; // ((un.u >> Trait::fraction_bits)
+                                                // & Trait::exponent_mask)
 
   // std::cout  << "un.u is " << std::hex <<un.u << " for " << value <<
   // std::endl;  std::cout << std::dec << "float trait: fraction bits " <<
@@ -557,9 +558,10 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   // exponent  << " " << std::dec << exponent << " fraction " << std::hex <<
   // fraction << std::endl;
 
-  // fractional part is LSB of the holder_t and of length
-  fraction = cast_right_to_left<typename Trait::holder_t, Trait::fraction_bits,
-                                FT, FT_bits>()(value);
+  // fractional part is LSB of the holder_t: keep it left aligned and complete
+  // (FT can be narrower) until specials and denormals have been told apart
+  typename Trait::holder_t hfraction =
+      value << (Trait::data_bits - Trait::fraction_bits);
 
   // if(FT_bits < Trait::fraction_bits)
   //	fraction = bitset_getT(value,0,Trait::fraction_bits) >>
@@ -571,7 +573,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   // biased: -max, -max+1, ..., max, max+1 === 0, min, ..., max, infinity
   if (rawexp == ((1 << Trait::exponent_bits) - 1)) // AKA 128 for single
   {
-    if (fraction == 0)
+    if (hfraction == 0)
     {
       type = Infinity;
     }
@@ -583,7 +585,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   else if (rawexp == 0)
   {
     // normalized
-    if (!Trait::with_denorm || fraction == 0)
+    if (!Trait::with_denorm || hfraction == 0)
     {
       type = Zero;
       negativeSign = false; // don't care signed zero
@@ -591,12 +593,20 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
     // denormalized
     else
     {
-      int k = findbitleftmostC(fraction);
-      exponent -= k;
-      fraction <<= (k + 1);
+      int k = findbitleftmostC(hfraction);
+      unbiased -= k;
+      hfraction <<= k;
+      hfraction <<= 1;
       //std::cout << typeid(Trait).name() << "unpacking: denormalized (rawexp=0,fraction=" <<  (int)tmp << ") unpacked as  (exp=" << exponent << ",fraction=" << (int)fraction << ")"<< std::endl;
     }
   }
+  // a narrow exponent type saturates
+  exponent = sizeof(ET) < sizeof(int)
+                 ? clamp<int>(unbiased, std::numeric_limits<ET>::min(),
+                              std::numeric_limits<ET>::max())
+                 : unbiased;
+  fraction = cast_msb<typename Trait::holder_t, Trait::data_bits, FT, FT_bits>()(
+      hfraction);
   return *this;
 }
 
-- 
2.43.0


From 0bfd5a45e94c531bc768b63af2473d35967eecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 13/44] fix: biased exponent overflows an 8 bit exponent type
 when packing floats

(float)Posit<int8_t,6,1,...>(3) was 0.
---
 include/unpacked.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index a46cbe0..b00a9d7 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -714,8 +714,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
     break;
   }
 
-  largest_type<ET, typename int_least_bits<Trait::exponent_bits>::signed_type> fexp =
-      exponent;
+  largest_type<ET, int> fexp = exponent;
   fexp += Trait::exponent_bias;
 
   // left aligned
-- 
2.43.0


From f232155c7951c1ea7ff0fbf459bf980fb8df7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 14/44] fix: packing of denormals

The test on with_denorm was inverted: formats with denormals flushed them to
zero and formats without produced them. The alignment shift was unbounded,
a negative underflow gave the smallest negative denormal or -0 where the
positive one gave 0, and the last fraction bit was dropped with a narrow FT.
---
 include/unpacked.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index b00a9d7..cfe76b3 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -637,7 +637,9 @@ struct fraction_bit_extract<abits, AT, bbits, BT, false, msb>
 {
   static constexpr BT packdenorm(AT fraction)
   {
-    return ((BT)(msb | (fraction >> 1)) << (bbits - abits));
+    // the hidden one takes the top bit, no fraction bit is lost if there is room
+    return ((BT)msb << (bbits - abits)) |
+           ((((BT)fraction) << (bbits - abits)) >> 1);
   }
 
   static constexpr BT pack(AT fraction)
@@ -730,7 +732,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   }
   else if (fexp < 1)
   {
-    if (Trait::with_denorm)
+    if (!Trait::with_denorm)
       return 0;
     else
     {
@@ -749,7 +751,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
                                        (FT_bits > Trait::fraction_bits),
                                        FT_leftmost_bit>::packdenorm(fraction);
       // use denormalization
-      ffracbits >>= -fexp;
+      ffracbits = -fexp >= Trait::data_bits ? 0 : ffracbits >> -fexp;
       //std::cout << typeid(Trait).name()<< "pack - denormalized (exp=" << exponent << ",fraction=" << (int)fraction << ") means rawexp=" << fexp << " results in fraction=" << (int)ffracbits << "\n";
     }
   }
@@ -765,12 +767,8 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   typename Trait::holder_t value =
       ffracbits | fexpbits | (negativeSign ? Trait::signbit : 0);
 
-  // don't underflow to zero?
-  if (value != 0 && (value << 1) == 0)
-  {
-    value++;
-  }
-  return value;
+  // underflow gives the unsigned zero
+  return (ffracbits | fexpbits) == 0 ? 0 : value;
 }
 
 template <class SrcTrait, class DstTrait, class FT>
-- 
2.43.0


From 751548dc518b5e754af0197f5f913656afe8ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 15/44] fix: conversion to integers and fixed point

(int)1.5 shifted the fraction by the full width (-2147483647 on x86) and 2^31
wrapped to the lowest integer instead of saturating.
---
 include/unpacked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index cfe76b3..69b403c 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -667,7 +667,7 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     break;
   }
   constexpr int intbits = Trait::totalbits - Trait::fraction_bits;
-  if (exponent >= intbits)
+  if (exponent >= intbits - 1)
   {
     return negativeSign ? std::numeric_limits<typename Trait::value_t>::lowest()
                         : std::numeric_limits<typename Trait::value_t>::max();
@@ -694,7 +694,7 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     // - exponent==-Trait::fraction_bits ==> 1 | 0
     // - exponent==intbits-1 ==> 0x8000000 | (F >> 1)
     ST r = (ST(1) << (exponent + Trait::fraction_bits)) |
-           (ST)(f >> (intbits - exponent));
+           (exponent == -Trait::fraction_bits ? 0 : (ST)(f >> (intbits - exponent)));
     return negativeSign ? -r : r;
   }
 }
-- 
2.43.0


From dd24b74c9692f0ba2c5a14ceeff1797698440bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 16/44] fix: unpacking the lowest integer overflowed in its
 absolute value

---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 69b403c..676ee92 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -512,7 +512,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfixed(
     using UT = typename int_least_bits<sizeof(typename Trait::value_t)*8>::unsigned_type;
     type = Regular;
     negativeSign = nx < 0;
-    UT x = pcabs(nx);
+    UT x = nx < 0 ? UT(0) - UT(nx) : UT(nx);
     const int p = Trait::totalbits - findbitleftmostC(x) - 1; // 31->0,0->31
     exponent = (p - Trait::fraction_bits);
     UT ux = p == 0 ? 0 : (x << (Trait::totalbits - p));
-- 
2.43.0


From 5eede0957d2d964425562033e03a2a1c190a51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 17/44] fix: printing an unpacked number left the stream in
 decimal mode

---
 include/unpacked.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/unpacked.h b/include/unpacked.h
index 676ee92..2fd2b00 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -475,6 +475,7 @@ struct Unpacked
 #ifndef FPGAHLS
   friend std::ostream &operator<<(std::ostream &ons, Unpacked const &o)
   {
+    const auto flags = ons.flags();
     switch (o.type)
     {
     case Unpacked::Regular:
@@ -496,6 +497,7 @@ struct Unpacked
       ons << "up(0)";
       break;
     }
+    ons.flags(flags);
     return ons;
   }
 #endif
-- 
2.43.0


From 627e411eaf1249e3fe883f70df574ca44a79f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 18/44] fix: the raw value of 8 bit posits was printed as a
 character

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 9fcf590..d53da3d 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -575,7 +575,7 @@ std::ostream & operator << (std::ostream & ons, Posit<T,totalbits,esbits,FT,posi
 	ons.setf(std::ios::dec, std::ios::basefield);
 	if(f == std::ios::hex)
 	{
-		ons << o.v;
+		ons << typename printableinttype<T>::type(o.v);
 	}
 	else if(f == std::ios::dec)
 	{
-- 
2.43.0


From 9f2d28a16653372551268a8831076d188b776d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 19/44] fix: numeric_limits announced an infinity for posits
 without it

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index d53da3d..62204e7 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -957,7 +957,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
-- 
2.43.0


From d10b03f6dd48ab2b136bf52e65c17a4cc48b5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 20/44] fix: std::sqrt of a posit did not compile and would
 have returned the absolute value

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 62204e7..e55ac36 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -919,7 +919,7 @@ namespace std
 	inline CONSTEXPR14 Posit<T,totalbits,esbits,FT,positspec> sqrt(Posit<T,totalbits,esbits,FT,positspec> z) 
 	{
 		using PP=Posit<T,totalbits,esbits,FT,positspec>;
-		return PP(PP::DeepInit(),pcabs(z.v));
+		return PP(std::sqrt((double)z));
 	}
 
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
-- 
2.43.0


From ccb3e73fdfef4a88c178eb1475628a3e2869ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 21/44] fix: members of PositF that could not be instantiated

unpack_low(), fma() and operator*= did not compile and a default constructed
PositF was uninitialised.
---
 include/positf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index 6aa95d7..7490cdd 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -36,7 +36,7 @@ public:
 	
 	CONSTEXPR14 UnpackedLow unpack_low() const 
 	{ 
-		return PPT(PPT::DeepInit(),v).unpack_low(); 
+		return PPT(typename PPT::DeepInit(),v).unpack_low(); 
 	}
 
 	static CONSTEXPR14 PositF pack_low(UnpackedLow u) 
@@ -64,7 +64,7 @@ public:
 		return unpacked_low2full(x.unpack_low());
 	}
 
-	PositF() {}
+	constexpr PositF() : v(0) {}
 
     friend constexpr bool operator == (const PositF & a, const PositF & u)  { return a.v == u.v; }
     friend constexpr bool operator != (const PositF & a, const PositF & u)  { return a.v != u.v; }
@@ -113,12 +113,12 @@ public:
 
 	friend constexpr PositF fma(const PositF & a, const PositF & b, const PositF & c)
 	{
-		return PositF::pack_posit((FFT)a*(FFT)b+(FFT)c);
+		return PositF((FFT)a*(FFT)b+(FFT)c);
 	}
 
 	CONSTEXPR14 PositF & operator*= (const PositF & b)
 	{
-		*this = PositF::pack_posit((FFT)*this *(FFT)b);
+		*this = PositF((FFT)*this *(FFT)b);
 		return *this;
 	}
     friend constexpr PositF operator+(const PositF & a, const PositF & b)
-- 
2.43.0


From 0e9f44d02354125ced749e1b01ef015e4ae437a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 22/44] fix: PositF without infinity reported its NaN as
 infinity

---
 include/positf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index 7490cdd..c43305b 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -93,7 +93,7 @@ public:
     constexpr bool hasNaN() const { return positspec != PositSpec::WithInf; }
 	constexpr bool isNaN() const { return positspec != PositSpec::WithInf && v == PT::POSIT_NAN; } 
 	constexpr bool isnegative() const { return v < 0; } //(v &POSIT_SIGNBIT) != 0; }
-	constexpr bool isinfinity() const { return v == PT::POSIT_PINF || v == PT::POSIT_NINF; }
+	constexpr bool isinfinity() const { return positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF); }
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr PositF prev() const { return PositF(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
@@ -266,7 +266,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
-- 
2.43.0


From 5ce73e84938973604b2742ab5d52c8e8b1e4ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 23/44] fix: constants of the tabulated posits

posit8::two() was 1.25 (1.5 bits pattern 72), onehalf() of posit10 and posit12
was 2^-4, max() of posit10 was not the largest value and infinities were taken
from the WithNanInf layout although the types are WithNan: the largest posit
was reported as infinite.
---
 include/posit10.hpp | 14 +++++++-------
 include/posit12.hpp | 10 +++++-----
 include/posit8.hpp  |  6 +++---
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index 006d713..d50c68a 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -72,17 +72,17 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x100) == 0; }
 	bool is_nan() const { return PT::withnan && v == -512; }
-	bool is_infinity() const { return PT::withnan ? (v == -511 || v == 511) : v == -512;}
-	static posit10 max() { return posit10(DeepInit(),PT::withnan ? 510 : 511); }
+	bool is_infinity() const { return as_posit().isinfinity(); }
+	static posit10 max() { return posit10(DeepInit(),PT::POSIT_MAXPOS); }
 	static posit10 min() { return posit10(DeepInit(),1); }
 	static posit10 one() { return posit10(DeepInit(),0x100); }
 	static posit10 afterone() { return posit10(DeepInit(),0x101); }
 	static posit10 zero() { return posit10(DeepInit(),0); }
-	static posit10 two() { return posit10(DeepInit(),288); }
-	static posit10 onehalf() { return posit10(DeepInit(),0x80); }
-	static posit10 pinfinity() { return posit10(DeepInit(),PT::withnan ? 511: -512); }
-	static posit10 ninfinity() { return posit10(DeepInit(),PT::withnan ?-511: -512); }
-	static posit10 nan() { return posit10(DeepInit(),PT::withnan ?-512: 0); }
+	static posit10 two() { return posit10(DeepInit(),PT::POSIT_TWO); }
+	static posit10 onehalf() { return posit10(DeepInit(),PT::POSIT_HALF); }
+	static posit10 pinfinity() { return posit10(DeepInit(),PT::POSIT_PINF); }
+	static posit10 ninfinity() { return posit10(DeepInit(),PT::POSIT_NINF); }
+	static posit10 nan() { return posit10(DeepInit(),PT::POSIT_NAN); }
 
 
 	friend bool operator<(const posit10 &a, const posit10 & b) { return a.v < b.v; }
diff --git a/include/posit12.hpp b/include/posit12.hpp
index 0638956..38e8eea 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -65,15 +65,15 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x400) == 0; }
 	bool is_nan() const { return PT::withnan && v == -2048; }
-	bool is_infinity() const { return PT::withnan ? (v == -2047 || v == 2047) : v == -2048;}
+	bool is_infinity() const { return as_posit().isinfinity(); }
 	static posit12 max() { return posit12(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit12 min() { return posit12(DeepInit(),1); } //  ? -126 : -127
 	static posit12 one() { return posit12(DeepInit(),0x400); }
 	static posit12 afterone() { return posit12(DeepInit(),0x401); } // 0x40
-	static posit12 onehalf() { return posit12(DeepInit(),0x200); }
-	static posit12 pinfinity() { return posit12(DeepInit(),PT::withnan ? 2047: -2048); }
-	static posit12 ninfinity() { return posit12(DeepInit(),PT::withnan ?-2047: -2048); }
-	static posit12 nan() { return posit12(DeepInit(),PT::withnan ?-2048: 0); }
+	static posit12 onehalf() { return posit12(DeepInit(),PT::POSIT_HALF); }
+	static posit12 pinfinity() { return posit12(DeepInit(),PT::POSIT_PINF); }
+	static posit12 ninfinity() { return posit12(DeepInit(),PT::POSIT_NINF); }
+	static posit12 nan() { return posit12(DeepInit(),PT::POSIT_NAN); }
 
 	posit12 inv() const { return posit12(DeepInit(),posit12ns::opinv[uu()]); }
 	posit12 half() const;
diff --git a/include/posit8.hpp b/include/posit8.hpp
index ae933ca..170c451 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -71,14 +71,14 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x80) == 0; }
 	bool is_nan() const { return PT::withnan && v == PT::POSIT_NAN; }
-	bool is_infinity() const { return (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
+	bool is_infinity() const { return as_posit().isinfinity(); }
 	static posit8 max() { return posit8(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit8 min() { return posit8(DeepInit(),1); } //  ? -126 : -127
 	static posit8 one() { return posit8(DeepInit(),PT::POSIT_ONE); } // 0x40
 	static posit8 afterone() { return posit8(DeepInit(),PT::POSIT_ONE+1); } // 0x40
-	static posit8 two() { return posit8(DeepInit(),72); }
+	static posit8 two() { return posit8(DeepInit(),PT::POSIT_TWO); }
 	static posit8 zero() { return posit8(DeepInit(),0); }
-	static posit8 onehalf() { return posit8(DeepInit(),0x20); }
+	static posit8 onehalf() { return posit8(DeepInit(),PT::POSIT_HALF); }
 	static posit8 pinfinity() { return posit8(DeepInit(),PT::POSIT_PINF); } // ? 127: -128); }
 	static posit8 ninfinity() { return posit8(DeepInit(),PT::POSIT_NINF); } //,PT::withnan ?-127: -128); }
 	static posit8 nan() { return posit8(DeepInit(),PT::POSIT_NAN); } // withnan ?-128: 0); }
-- 
2.43.0


From 3ab42cec04d7d189605d3ad55e70119da5b5f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 24/44] fix: building an emulated float from its unpacked form
 did not compile

---
 include/anyfloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/anyfloat.hpp b/include/anyfloat.hpp
index 1c75a5d..b4808ed 100644
--- a/include/anyfloat.hpp
+++ b/include/anyfloat.hpp
@@ -60,7 +60,7 @@ public:
 	CONSTEXPR14 explicit anyfloat_emu(double d) : v(UnpackedT(d).template pack_xfloati<trait_t>()) {}
 	CONSTEXPR14 explicit anyfloat_emu(int i) : v(UnpackedT(i).template pack_xfloati<trait_t>()) {}
 	CONSTEXPR14 explicit anyfloat_emu(DeepInit, T x) : v(x) {} 
-	CONSTEXPR14 explicit anyfloat_emu(UnpackedT u) : v(u.template pack_floati<trait_t>) {}
+	CONSTEXPR14 explicit anyfloat_emu(UnpackedT u) : v(u.template pack_xfloati<trait_t>()) {}
 	//CONSTEXPR14 explicit anyfloat_emu(UnpackedLow u) : v(pack_low(u).v) {} 
 
 	constexpr UnpackedT unpack() const { return UnpackedT::template make_floati<trait_t>(v); }
-- 
2.43.0


From 9893ed6d0ffc5690804ecf7727cc258156ae69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 25/44] fix: convertfloats did not compile

---
 include/unpacked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 2fd2b00..8b7dcf9 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -777,8 +777,8 @@ template <class SrcTrait, class DstTrait, class FT>
 constexpr typename DstTrait::holder_t convertfloats(
     typename SrcTrait::holder_t src)
 {
-  return Unpacked<typename largest_type<typename SrcTrait::holder_t,
-                                        typename DstTrait::holder_t>::type,
+  return Unpacked<largest_type<typename SrcTrait::holder_t,
+                               typename DstTrait::holder_t>,
                   int>::template make_floati<SrcTrait>(src)
       .template pack_xfloati<DstTrait>();
 }
-- 
2.43.0


From a87677451fbf92dd4c87f74d93adf00607123b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:01 +0000
Subject: [PATCH 26/44] fix: half to single conversion without F16C returned
 the bits as a number

---
 include/float16native32.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/float16native32.hpp b/include/float16native32.hpp
index a237046..72637f0 100644
--- a/include/float16native32.hpp
+++ b/include/float16native32.hpp
@@ -53,7 +53,7 @@ inline float float16nto32(float16n_t x)
 {	
 	// template <class SrcTrait, class DstTrait, class FT>
 	// constexpr DstTrait::holder_t convertfloats(SrcTrait::holder_t src)
-    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloati<single_trait>();
+    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloat<single_trait>();
 }
 
 // TODO: use optimized quicker version
-- 
2.43.0


From 49d1f3342ed4af80f58537ca6ca65b35914c3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 27/44] fix: posit products and quotients could not be used in
 constant expressions

---
 include/typehelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/typehelpers.hpp b/include/typehelpers.hpp
index 8c2fbc0..f9194d1 100644
--- a/include/typehelpers.hpp
+++ b/include/typehelpers.hpp
@@ -282,12 +282,12 @@ struct nextinttype<int8_t>
 template <class T>
 struct nextintop
 {
-	static inline typename   nextinttype<T>::type extramul(T a, T b)
+	static constexpr typename   nextinttype<T>::type extramul(T a, T b)
 	{
 		return ((typename nextinttype<T>::type)a)*b;
 	}
 
-	static inline typename  nextinttype<T>::type extradiv(typename nextinttype<T>::type a, T b)
+	static constexpr typename  nextinttype<T>::type extradiv(typename nextinttype<T>::type a, T b)
 	{
 		return (a/b);
 	}
-- 
2.43.0


From 1fff8f3f29ee6908c62390fa2bb6387b794dc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 28/44] fix: bitset_part cleared the low bits instead of the
 replaced field

---
 include/bithippop.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index e3606fe..4126d8d 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -152,14 +152,14 @@ inline int findbitleftmost(uint32_t input)
 template <class T, class Y, int offset, int size>
 constexpr T bitset_part(T input, Y value)
 {
-	return (input & ~bitmask<T>(size)) | ((value & bitmask<T>(size)) << offset);
+	return (input & ~(bitmask<T>(size) << offset)) | ((value & bitmask<T>(size)) << offset);
 }
 
 template <class T, class Y>
 CONSTEXPR14 T bitset_part(T input, Y value, int offset, int size)
 {
 	auto M = bitmask<T>(size);
-	return (input & ~M) | ((value & M) << offset);
+	return (input & ~(M << offset)) | ((value & M) << offset);
 }
 
 template <class T, int offset, int size>
-- 
2.43.0


From e2ece62ee85bc196a6a5a87d8b9684e9d98dfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:08 +0000
Subject: [PATCH 29/44] fix: unpacking from and packing to halffloat did not
 compile

---
 include/unpacked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 8b7dcf9..9b05cbf 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -173,7 +173,7 @@ struct Unpacked
     union {
       typename Trait::holder_t i;
       typename Trait::value_t f;
-    } uu;
+    } uu = {0};
     uu.i = pack_xfloati<Trait>();
     return uu.f;
   }
@@ -301,7 +301,7 @@ struct Unpacked
     union {
       typename Trait::holder_t i;
       typename Trait::value_t f;
-    } uu;
+    } uu = {0};
     uu.f = value;
     return unpack_xfloati<Trait>(uu.i);
   }
-- 
2.43.0


From 4ef2e8561b58d8414cd59ed42861b09948377a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 30/44] fix: biased exponent of packed floats overflowed for
 exponents near the top of int

---
 include/unpacked.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 9b05cbf..74b8fe6 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -719,20 +719,17 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   }
 
   largest_type<ET, int> fexp = exponent;
+  // a magnitude beyond the largest float saturates before the bias is added
+  // (the sum could overflow)
+  if (fexp > Trait::exponent_max - Trait::exponent_bias)
+    return negativeSign ? Trait::lowest_h : Trait::max_h;
   fexp += Trait::exponent_bias;
 
   // left aligned
   typename Trait::holder_t fexpbits = 0;
   typename Trait::holder_t ffracbits = 0;
 
-  if (fexp > Trait::exponent_max) // this is RAW exponent max
-  {
-    return negativeSign ? Trait::lowest_h : Trait::max_h;
-    // overflow, set as MAX
-    // fexpbits = ((typename Trait::holder_t)Trait::exponent_max) <<
-    // (Trait::fraction_bits); // AKA 254 and 23  ffracbits = -1;
-  }
-  else if (fexp < 1)
+  if (fexp < 1)
   {
     if (!Trait::with_denorm)
       return 0;
-- 
2.43.0


From 0b2f4df77f36ffb9a942eb70f15937d463af24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:12 +0000
Subject: [PATCH 31/44] fix: bitmask of zero bits shifted by the full width of
 the type

---
 include/bithippop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index 4126d8d..5841161 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -64,7 +64,7 @@
 template <typename R>
 constexpr R bitmask(unsigned int const onecount)
 {
-	return static_cast<R>(-(onecount != 0)) & (static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
+	return onecount == 0 ? static_cast<R>(0) : static_cast<R>(static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
 }
 
 template <typename T>
-- 
2.43.0


From 42658568b2bc67c2ad3a6368ecf8ef3361dd73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:06 +0000
Subject: [PATCH 32/44] fix: construction of a posit from single bits was not
 usable in constant expressions

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index e55ac36..db20ff2 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -313,7 +313,7 @@ public:
 
 	constexpr Posit() : v(0) {}
 
-	CONSTEXPR14 explicit Posit(single_tag t, uint32_t p) { v = pack_posit<T,totalbits,esbits,FT,positspec>(UnpackedT(t,p)).v; }
+	CONSTEXPR14 explicit Posit(single_tag t, uint32_t p) : v(pack_posit<T,totalbits,esbits,FT,positspec>(UnpackedT(t,p)).v) {}
 
     /// construct passing the holding type x
 	CONSTEXPR14 explicit Posit(DeepInit, T x) : v(x) {} 
-- 
2.43.0


From 7d5034422d0ed5bd7b5f274a34a27a054138f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:23 +0000
Subject: [PATCH 33/44] fix: fixedtrait accepted more total bits than its
 holding type has

---
 include/fixedtraits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixedtraits.hpp b/include/fixedtraits.hpp
index 68729f2..aea0138 100644
--- a/include/fixedtraits.hpp
+++ b/include/fixedtraits.hpp
@@ -12,7 +12,7 @@
 template <class T, int N, int F>
 struct fixedtrait
 {
-    static_assert(sizeof(T)*8 <= N,"fixedtrait holding type is too small");
+    static_assert(sizeof(T)*8 == N,"fixedtrait total bits should be those of the holding type");
     static_assert(N > 0,"fixedtrait total bits should be positive");
     static_assert(F <= N && F >= 0,"fraction bits should be less than N and not negative");
     static_assert(std::is_integral<T>::value && std::is_signed<T>::value,"only for signed integrals");
-- 
2.43.0


From 48d9f017578dd4591588e4f03352c03066dbb85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 34/44] fix: binary8tab negation flips the sign bit instead of
 taking the two's complement

---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index ac042df..de60652 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -90,7 +90,7 @@ public:
 	binary8tab twice() const;
 	binary8tab exp2() const { return binary8tab(DeepInit(),binary8ns::opexp2[uu()]); }
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
-	binary8tab operator-() const { return binary8tab(DeepInit(),-v);  }
+	binary8tab operator-() const { return binary8tab(DeepInit(),(int8_t)(v ^ 0x80));  }
 
 	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
 	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-- 
2.43.0


From af922e3e936eab0f53272b7229d248c32d97a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 35/44] fix: binary8tab comparisons compare values, not the
 encodings as integers

---
 include/binary8.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index de60652..cd0631d 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -92,12 +92,12 @@ public:
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
 	binary8tab operator-() const { return binary8tab(DeepInit(),(int8_t)(v ^ 0x80));  }
 
-	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
-	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-	friend bool operator<=(binary8tab a, binary8tab b) { return a.v <= b.v;}
-	friend bool operator>=(binary8tab a, binary8tab b) { return a.v >= b.v; }
-	friend bool operator==(binary8tab a, binary8tab b) { return a.v == b.v; }
-	friend bool operator!=(binary8tab a, binary8tab b) { return a.v !=b.v; }
+	friend bool operator<(binary8tab a, binary8tab b) { return (float)a < (float)b; }
+	friend bool operator>(binary8tab a, binary8tab b) { return (float)a > (float)b; }
+	friend bool operator<=(binary8tab a, binary8tab b) { return (float)a <= (float)b; }
+	friend bool operator>=(binary8tab a, binary8tab b) { return (float)a >= (float)b; }
+	friend bool operator==(binary8tab a, binary8tab b) { return (float)a == (float)b; }
+	friend bool operator!=(binary8tab a, binary8tab b) { return (float)a != (float)b; }
 
 	friend binary8tab operator+(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opadd[a.uu()*256+b.uu()]); }
 	friend binary8tab operator*(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opmul[a.uu()*256+b.uu()]); }
-- 
2.43.0


From 487a377b0d53c699f3bc11a1c26ac7a1deda0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 36/44] fix: posit.h and binary8.hpp could not be included in
 the same translation unit

---
 include/binary8.hpp | 3 ++-
 include/posit.h     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index cd0631d..a6cb7a1 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -24,7 +24,8 @@
 
 #include "floattraits.hpp"
 
-#ifndef FPGAHLS
+#if !defined(FPGAHLS) && !defined(UINT32_TO_FLOAT)
+#define UINT32_TO_FLOAT
 inline float uint32_to_float(uint32_t i)
 {
 	union {
diff --git a/include/posit.h b/include/posit.h
index db20ff2..5e8a0ab 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -16,7 +16,8 @@ X::PT::decode_posit_rs(1)
 #pragma once
 #include "unpacked.h"
 
-#ifndef FPGAHLS
+#if !defined(FPGAHLS) && !defined(UINT32_TO_FLOAT)
+#define UINT32_TO_FLOAT
 inline float uint32_to_float(uint32_t i)
 {
 	union {
-- 
2.43.0


From 8919a46794a2b555e4d915b569206445498fc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 37/44] fix: binary8tab constructors left the value
 uninitialised

---
 src/binary8.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/binary8.cpp b/src/binary8.cpp
index c36d481..ba8c6d9 100644
--- a/src/binary8.cpp
+++ b/src/binary8.cpp
@@ -4,15 +4,18 @@
  * Emanuele Ruffaldi 2017
  */
 #include "binary8.hpp"
+#include "anyfloat.hpp"
 
-binary8tab::binary8tab(int a)
+using binary8tab_generic=anyfloat_emu<BINARY8_EXP,BINARY8_MAN,int8_t,uint8_t,float>;
+
+binary8tab::binary8tab(int a) : v(binary8tab_generic(a).v)
 {
 }
 
-binary8tab::binary8tab(float a)
+binary8tab::binary8tab(float a) : v(binary8tab_generic(a).v)
 {
 }
 
-binary8tab::binary8tab(double a) 
+binary8tab::binary8tab(double a) : v(binary8tab_generic(a).v)
 {
 }
-- 
2.43.0


From 69ef33b12ee65d55a70c35cf7f0c700c2d059156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 38/44] fix: binary8tab::twice was declared and used but not
 defined

---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index a6cb7a1..538d533 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -88,7 +88,7 @@ public:
 
 	binary8tab inv() const { return binary8tab(DeepInit(),binary8ns::opinv[uu()]); }
 	binary8tab half() const { return binary8tab(DeepInit(),binary8ns::ophalf[uu()]);}
-	binary8tab twice() const;
+	binary8tab twice() const { return *this + *this; }
 	binary8tab exp2() const { return binary8tab(DeepInit(),binary8ns::opexp2[uu()]); }
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
 	binary8tab operator-() const { return binary8tab(DeepInit(),(int8_t)(v ^ 0x80));  }
-- 
2.43.0


From 3a6949efc19356b1fcb9ce45b42751445cc19db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 39/44] fix: fixedtraits.hpp did not include the type traits it
 uses

---
 include/fixedtraits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fixedtraits.hpp b/include/fixedtraits.hpp
index aea0138..abc4e49 100644
--- a/include/fixedtraits.hpp
+++ b/include/fixedtraits.hpp
@@ -7,6 +7,7 @@
  * --
  */
 #pragma once
+#include <type_traits>
 
 
 template <class T, int N, int F>
-- 
2.43.0


From a33e3ccb3470f87f47e2ec5e14a6541e521e0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 40/44] fix: analyze() without exponent bits shifted by the
 width of the word

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 5e8a0ab..d26bbc0 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -879,7 +879,7 @@ auto Posit<T,totalbits,esbits,FT,positspec>::analyze() -> info
         int reg = q.first;
         int rs = q.second;
         pars <<= rs; // MSB: ES FS
-        POSIT_UTYPE exp = bitset_leftmost_getT(pars,esbits);
+        POSIT_UTYPE exp = bitset_leftmost_get_const<POSIT_UTYPE,esbits>()(pars); // esbits can be 0
         pars <<= esbits; // output MSB: FS left aligned in T
         //std::cout << std::bitset<PT::POSIT_HOLDER_SIZE>(pars) << std::endl;
         i.ifraction = sizeof(FT) >= sizeof(T) ? pars << (UT::FT_bits-PT::POSIT_HOLDER_SIZE) : pars >> (PT::POSIT_HOLDER_SIZE-UT::FT_bits); // output: FS left aligned in FT (larger or equal to T)
-- 
2.43.0


From e5b9c7179b5d88d0e1efcff967efc0a685919ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 41/44] fix: analyze() shifted the fraction in the storage
 width when the fraction type is wider

---
 include/posit.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index d26bbc0..0e5aa3d 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -845,7 +845,6 @@ CONSTEXPR14 Posit<T,totalbits,esbits,FT,positspec> pack_posit(const typename Pos
 template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
 auto Posit<T,totalbits,esbits,FT,positspec>::analyze() -> info
 {
-	using UT=UnpackedT;
     using POSIT_UTYPE = typename PT::POSIT_UTYPE;
     //using POSIT_STYPE = typename PT::POSIT_STYPE;
 
@@ -882,7 +881,7 @@ auto Posit<T,totalbits,esbits,FT,positspec>::analyze() -> info
         POSIT_UTYPE exp = bitset_leftmost_get_const<POSIT_UTYPE,esbits>()(pars); // esbits can be 0
         pars <<= esbits; // output MSB: FS left aligned in T
         //std::cout << std::bitset<PT::POSIT_HOLDER_SIZE>(pars) << std::endl;
-        i.ifraction = sizeof(FT) >= sizeof(T) ? pars << (UT::FT_bits-PT::POSIT_HOLDER_SIZE) : pars >> (PT::POSIT_HOLDER_SIZE-UT::FT_bits); // output: FS left aligned in FT (larger or equal to T)
+        i.ifraction = cast_msb<POSIT_UTYPE,sizeof(POSIT_UTYPE)*8,FT,sizeof(FT)*8>()(pars); // output: FS left aligned in FT (larger or equal to T)
     	i.exponent = PT::join_reg_exp(reg,exp);
     	i.exp = exp;
     	i.rs = rs;
-- 
2.43.0


From ffcadf1e804a8a51e2be686c9d5663f83cc827c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 42/44] fix: binary8tab printed its encoding as a character

---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index 538d533..143939f 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -169,6 +169,6 @@ namespace std
 
 inline std::ostream & operator << (std::ostream & ons, const binary8tab & p)
 {
-	ons << "binary8tab(" << p.v << ")" ;
+	ons << "binary8tab(" << p.uu() << ")" ;
 	return ons;
 }
\ No newline at end of file
-- 
2.43.0


From dfc406cf09e1e87ed9335a5cb8b0dd216767a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 43/44] fix: pseudosigmoid and pseudosoftplus kept the sign
 extension of negative posits

---
 include/posit.h  | 4 ++--
 include/positf.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 0e5aa3d..b9945e7 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -477,10 +477,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
diff --git a/include/positf.h b/include/positf.h
index c43305b..6087672 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -158,10 +158,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr PositF pseudosoftplus() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr PositF pseudosoftplus() const { return PositF(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
-- 
2.43.0


From 84ba7e8dd7b07d2d6b244c1058ba833d6d56a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 44/44] fix: float128_trait did not compile and its constants
 were wrong

---
 include/floattraits.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/floattraits.hpp b/include/floattraits.hpp
index dac6714..6e52252 100644
--- a/include/floattraits.hpp
+++ b/include/floattraits.hpp
@@ -189,18 +189,18 @@ struct float128_trait
 	using holder_t = unsigned __int128;
 #ifndef FPGAHLS
 	static constexpr value_t zero = 0.0;
-	static constexpr value_t ninfinity = -std::numeric_limits<value_t>::infinity();
-	static constexpr value_t pinfinity = std::numeric_limits<value_t>::infinity();
+	static constexpr value_t ninfinity = -(value_t)std::numeric_limits<double>::infinity();
+	static constexpr value_t pinfinity = std::numeric_limits<double>::infinity();
 #endif
 
-    static constexpr holder_t ninfinity_h = 0xb00000000000ffff8000000000000000;
-    static constexpr holder_t pinfinity_h = 0x900007f975247fff8000000000000000;
-    static constexpr holder_t nan_h = 0xb000000000007fffc000000000000000;
-    static constexpr holder_t one_h = 0xd00007f975243fff8000000000000000;
-    static constexpr holder_t two_h = 0x40000000000000000000000000000000;
-    static constexpr holder_t max_h = 0x4000; // TODO
-    static constexpr holder_t lowest_h = 0x4000; // TODO
-    static constexpr holder_t min_h = 0x4000; // TODO
+    static constexpr holder_t ninfinity_h = ((holder_t)0xffff) << 112;
+    static constexpr holder_t pinfinity_h = ((holder_t)0x7fff) << 112;
+    static constexpr holder_t nan_h = ((holder_t)0x7fff8) << 108;
+    static constexpr holder_t one_h = ((holder_t)0x3fff) << 112;
+    static constexpr holder_t two_h = ((holder_t)0x4000) << 112;
+    static constexpr holder_t max_h = (((holder_t)0x7fff) << 112) - 1;
+    static constexpr holder_t lowest_h = (((holder_t)0xffff) << 112) - 1; // -max_h
+    static constexpr holder_t min_h = ((holder_t)1) << 112;
 	static constexpr int with_denorm = true;
 
 	static constexpr int data_bits = 128; // can be derived from value_t
@@ -208,7 +208,7 @@ struct float128_trait
 	static constexpr int fraction_bits = 112; // can be derived from data_bits and exponent_bits
 	static constexpr int exponent_bias = 16383;
 	static constexpr int exponent_max =  16383*2;
-	static constexpr holder_t signbit = (1<<(data_bits-1));
+	static constexpr holder_t signbit = ((holder_t)(1))<<(data_bits-1);
 	static constexpr uint32_t exponent_mask = (1<<exponent_bits)-1; // TODO make it from exponent_bits
 };
 
-- 
2.43.0

