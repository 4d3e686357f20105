From 4e88605fa166534f351cc3b9d0d282a702ce4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 01/16] fix: to_string wrote before its buffer for negative
 values whose digits fill it

---
 src/BigInteger.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..56cab45 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -878,6 +878,14 @@ std::string BigInteger::to_string() const {
         cchMax = cuDst * kcchBase;
     }
 
+    // Leave an extra slot for a minus sign.
+    if (_sign < 0) {
+        if (cchMax == std::numeric_limits<int32_t>::max()) {
+            throw std::overflow_error("SR.Format_TooLarge");
+        }
+        cchMax += 1;
+    }
+
     // We'll pass the rgch buffer to native code, which is going to treat it like a string of digits, so it needs
     // to be null terminated.  Let's ensure that we can allocate a buffer of that size.
     int rgchBufSize;
-- 
2.43.0


From 18775150eae749746524e88dfe4b0dd7c1ee203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 02/16] fix: div_rem returned remainder + 2^32 for a negative
 dividend and a small divisor

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 56cab45..1e34da2 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -605,7 +605,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
+        remainder = dividend._sign < 0 ? -static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
         return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
     }
 
-- 
2.43.0


From 033006827417aab497df6ec48dafb2ce9b5e937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 03/16] fix: div_rem returned a wrong quotient when remainder
 aliases an operand

---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 1e34da2..2c1a3d9 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -589,8 +589,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        BigInteger quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -605,8 +606,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = dividend._sign < 0 ? -static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -618,8 +620,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = divisor.get_bits();
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 }
 
-- 
2.43.0


From 8efa09b836a76bc0278daf5cf9b77ebde096e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 04/16] fix: mod_pow returned result + 2^32 for a negative
 base, odd exponent and small modulus

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 2c1a3d9..dc13a79 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1606,7 +1606,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From 082365d93c1c368cc13be32508710a038e77105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 05/16] fix: mod_pow trapped on a zero modulus with a large
 exponent

---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..b895345 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From 896ef16cd3a8d4e7c5f8b2efa23fe01908c836a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 06/16] fix: right shift of a negative value by whole digits
 lost the result when the kept digits were all ones

---
 src/BigInteger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index dc13a79..90b44bd 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1083,8 +1083,13 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         NumericsHelpers::dangerous_make_twos_complement(xd); // Mutates xd
     }
 
+    // When shifting a negative value by whole digits, its sign can be outside the array after the two's complement
+    // conversion (the last digit is then 0): track it in an extra digit.
+    bool trackSignBit = negx && smallShift == 0 && xd[xl - 1] == 0;
+
     int zl = xl - digitShift;
     if (zl < 0) zl = 0;
+    if (trackSignBit) zl++;
     uint_array zd(zl, 0);
 
     if (smallShift == 0) {
@@ -1105,6 +1110,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         }
     }
     if (negx) {
+        if (trackSignBit) zd[zl - 1] = 0xFFFFFFFF;
         NumericsHelpers::dangerous_make_twos_complement(zd); // Mutates zd
     }
     *this = BigInteger(zd, negx);
-- 
2.43.0


From b57bd73db862229e759da7e8c4aa9318062cf64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 07/16] fix: greatest_common_divisor of multi-digit values
 looped forever or returned stale digits

---
 include/BitsBuffer.h                    | 2 +-
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 src/BigIntegerCalculator/GcdInv.cpp     | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..529fa57 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,9 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    // Modified in place
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From 61a5b17081b83bed968566a98c4f1c22aafce771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 08/16] fix: mod_pow with a modulus of 32 or more digits
 reduced a copy and processed the last exponent digit twice

---
 include/FastReducer.h                    | 4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 6 +++---
 src/BigIntegerCalculator/PowMod.cpp      | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..e504836 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..baac9a0 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -14,7 +14,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index b895345..21d42da 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -214,7 +214,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (int i = 0; i < power.size() - 1; i++) {
+        unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From a2722e1c591b2daefaec2f57086ec078e6cb3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 09/16] fix: mod_pow wrote past a buffer when the modulus is a
 power of 2^32 with 32 or more digits

---
 src/BigIntegerCalculator/FastReducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index baac9a0..ecbc0d7 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,7 +8,8 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
+    // mu has two digits more than the modulus when that is a power of 2^32
+    _q1 = uint_array(modulus.size() * 2 + 3);
     _q2 = uint_array(modulus.size() * 2 + 1);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
-- 
2.43.0


From f4ed597ecdc9dffe125d469540a3b4025f875bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 10/16] fix: conversions from and to the minimum int32/int64
 value overflowed a signed negation

---
 src/BigInteger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 90b44bd..662be55 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -51,7 +51,7 @@ BigInteger::BigInteger(int64_t value) {
     } else {
         uint64_t x = 0;
         if (value < 0) {
-            x = static_cast<uint64_t>(-value);
+            x = 0 - static_cast<uint64_t>(value);
             _sign = -1;
         } else {
             x = static_cast<uint64_t>(value);
@@ -1438,7 +1438,7 @@ BigInteger::operator int() {
     if (_bits[0] > kuMaskHighBit)
         throw std::overflow_error("SR.Overflow_Int32");
 
-    return -static_cast<int>(_bits[0]);
+    return static_cast<int>(-static_cast<int64_t>(_bits[0]));
 }
 
 BigInteger::operator unsigned int() {
@@ -1469,7 +1469,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0UL - uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0


From ef20218e9e7c675157cad5342fca456ba08cf1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 11/16] fix: postfix ++ and -- returned the updated value
 instead of the previous one

---
 include/public/bigintegercpp/BigInteger.h |  4 ++--
 src/BigInteger.cpp                        | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index 7b25672..dfb90ba 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -126,7 +126,7 @@ public:
     BigInteger& operator+=(const BigInteger& rhs);
 
     BigInteger& operator++(); // prefix
-    BigInteger& operator++(int unused); // postfix
+    BigInteger operator++(int unused); // postfix
 
     static BigInteger add(BigInteger& lhs, const BigInteger& rhs);
 
@@ -138,7 +138,7 @@ public:
     BigInteger& operator-=(const BigInteger& rhs);
 
     BigInteger& operator--(); // prefix
-    BigInteger& operator--(int unused); // postfix
+    BigInteger operator--(int unused); // postfix
     static BigInteger subtract(BigInteger& lhs, const BigInteger& rhs);
 
     BigInteger subtract(const uint_array& lhs, int lhsSign, const uint_array& rhs, int rhsSign);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 662be55..44ae0db 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -639,8 +639,10 @@ BigInteger& BigInteger::operator++() {
     return *this;
 }
 
-BigInteger& BigInteger::operator++(int dummy) {
-    return ++(*this);
+BigInteger BigInteger::operator++(int dummy) {
+    BigInteger previous = *this;
+    ++(*this);
+    return previous;
 }
 
 BigInteger& BigInteger::operator--() {
@@ -649,8 +651,10 @@ BigInteger& BigInteger::operator--() {
     return *this;
 }
 
-BigInteger& BigInteger::operator--(int unused) {
-    return --(*this);
+BigInteger BigInteger::operator--(int unused) {
+    BigInteger previous = *this;
+    --(*this);
+    return previous;
 }
 
 
-- 
2.43.0


From 6ca9aaf402b2349de713a942bb1f083b98732dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 12/16] fix: operations before main() could read the shared
 constants before they were initialised

---
 include/public/bigintegercpp/BigInteger.h |  5 +--
 src/BigInteger.cpp                        | 42 +++++++++++------------
 2 files changed, 21 insertions(+), 26 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index dfb90ba..d486ebe 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -187,10 +187,7 @@ private:
     int _sign;
     uint_array _bits;
 
-    static const BigInteger s_bnMinInt;
-    static const BigInteger s_bnOneInt;
-    static const BigInteger s_bnZeroInt;
-    static const BigInteger s_bnMinusOneInt;
+    static BigInteger min_int();
 
     BigInteger(uint_array value);
 
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 44ae0db..c3a5c37 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -11,12 +11,6 @@
 #include <algorithm>
 #include "../include/BigIntegerCalculator.h"
 
-const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
-const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
-const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
-const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
-
-
 BigInteger::BigInteger() {
     _sign = 0;
     _bits = uint_array();
@@ -24,7 +18,7 @@ BigInteger::BigInteger() {
 
 BigInteger::BigInteger(int32_t value) {
     if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = min_int();
     } else {
         _sign = value;
         _bits.clear();
@@ -47,7 +41,7 @@ BigInteger::BigInteger(int64_t value) {
     if (std::numeric_limits<int32_t>::min() < value && value <= std::numeric_limits<int32_t>::max()) {
         _sign = static_cast<int32_t>(value);
     } else if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = min_int();
     } else {
         uint64_t x = 0;
         if (value < 0) {
@@ -151,7 +145,7 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             _sign = +1;
         }
         if (_sign == std::numeric_limits<int>::min()) {
-            *this = s_bnMinInt;
+            *this = min_int();
         }
     } else {
         int unalignedBytes = byteCount % 4;
@@ -216,11 +210,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             if (len == 1) {
                 switch (val[0]) {
                     case 1: // abs(-1)
-                        *this = s_bnMinusOneInt;
+                        *this = minus_one();
                         return;
 
                     case kuMaskHighBit: // abs(Int32.MinValue)
-                        *this = s_bnMinInt;
+                        *this = min_int();
                         return;
 
                     default:
@@ -260,7 +254,7 @@ BigInteger::BigInteger(uint_array value) {
 
     if (dwordCount == 0) {
         // BigInteger.zero
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::zero();
         assert_valid();
         return;
     }
@@ -271,7 +265,7 @@ BigInteger::BigInteger(uint_array value) {
         }
             // Handle the special cases where the BigInteger likely fits into _sign
         else if (std::numeric_limits<int>::min() == static_cast<int>(value[0])) {
-            *this = BigInteger::s_bnMinInt;
+            *this = BigInteger::min_int();
         } else {
             _sign = static_cast<int>(value[0]);
         }
@@ -304,9 +298,9 @@ BigInteger::BigInteger(uint_array value) {
     // The number is represented by a single dword
     if (len == 1 && static_cast<int>((value[0])) > 0) {
         if (value[0] == 1 /* abs(-1) */) {
-            *this = s_bnMinusOneInt;
+            *this = minus_one();
         } else if (value[0] == kuMaskHighBit /* abs(Int32.MinValue) */) {
-            *this = s_bnMinInt;
+            *this = min_int();
         } else {
             _sign = (-1) * ((int) value[0]);
         }
@@ -335,14 +329,14 @@ BigInteger::BigInteger(uint_array value, bool negative) {
     for (len = value.size(); len > 0 && value[len - 1] == 0; len--);
 
     if (len == 0)
-        *this = s_bnZeroInt;
+        *this = zero();
         // Values like (Int32.MaxValue+1) are stored as "0x80000000" and as such cannot be packed into _sign
     else if (len == 1 && value[0] < kuMaskHighBit) {
         _sign = (negative ? -(int) value[0] : (int) value[0]);
         _bits = uint_array();
         // Although Int32.MinValue fits in _sign, we represent this case differently for negate
         if (_sign == std::numeric_limits<int>::min())
-            *this = s_bnMinInt;
+            *this = min_int();
     } else {
         _sign = negative ? -1 : +1;
         _bits.swap(value);
@@ -700,7 +694,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     if (trivialDividend) {
         // The divisor is non-trivial
         // and therefore the bigger one
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::zero();
         return *this;
     }
 
@@ -714,7 +708,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     assert(!dividend._bits.empty() && !divisor._bits.empty());
 
     if (dividend._bits.size() < divisor._bits.size()) {
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::zero();
         return *this;
     } else {
         uint_array bits = BigIntegerCalculator::divide(dividend._bits, divisor._bits);
@@ -774,6 +768,10 @@ BigInteger BigInteger::minus_one() {
     return BigInteger(-1);
 }
 
+BigInteger BigInteger::min_int() {
+    return BigInteger(-1, uint_array{kuMaskHighBit});
+}
+
 int BigInteger::sign() const {
     assert_valid();
     return (_sign >> (kcbitUint - 1)) - (-_sign >> (kcbitUint - 1));
@@ -1079,7 +1077,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
 
     if (negx) {
         if (shift >= (kcbitUint * xl)) {
-            *this = s_bnMinusOneInt;
+            *this = minus_one();
             return *this;
         }
         uint_array temp = xd;
@@ -1568,7 +1566,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
     value.assert_valid();
 
     if (exponent == 0)
-        return s_bnOneInt;
+        return one();
     if (exponent == 1)
         return value;
 
@@ -1578,7 +1576,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
         if (value._sign == 1)
             return value;
         if (value._sign == -1)
-            return (exponent & 1) != 0 ? value : s_bnOneInt;
+            return (exponent & 1) != 0 ? value : one();
         if (value._sign == 0)
             return value;
     }
-- 
2.43.0


From 9dd63cdbbc1a0360e4454197a36bf86ef7be711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 13/16] fix: to_byte_array dereferenced its null default
 bytesWritten argument for zero or in Count mode

---
 src/BigInteger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index c3a5c37..39d9ace 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1278,10 +1278,10 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     if (sign == 0) {
         switch (mode) {
             case GetBytesMode::Count:
-                *bytesWritten = 1;
+                if (bytesWritten != nullptr) *bytesWritten = 1;
                 return byte_array();
             default:
-                *bytesWritten = 1;
+                if (bytesWritten != nullptr) *bytesWritten = 1;
                 return byte_array(1, 0);
         }
     }
@@ -1350,7 +1350,7 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     byte_array destination;
     switch (mode) {
         case GetBytesMode::Count:
-            *bytesWritten = length;
+            if (bytesWritten != nullptr) *bytesWritten = length;
             return byte_array();
         default:
             destination = byte_array(length);
-- 
2.43.0


From 39378ad013591d035b1ef138a0a3d59ec2d0209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 14/16] fix: Python BigInteger(buffer) ignored the strides and
 read outside a reversed buffer

---
 bindings/python/python-bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 57abc12..210b770 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -93,7 +93,9 @@ PYBIND11_MODULE(pybiginteger, m) {
                   throw std::runtime_error("Incompatible buffer format!");
 
               auto data_ptr = static_cast<unsigned char *>(info.ptr);
-              std::vector<unsigned char> data(data_ptr, data_ptr + info.size);
+              std::vector<unsigned char> data(info.size);
+              for (py::ssize_t i = 0; i < info.size; i++)
+                  data[i] = data_ptr[i * info.strides[0]];
               return BigInteger(data);
             }), py::arg("value"))
             .def("__lt__", [](BigInteger& self, BigInteger& other) {
-- 
2.43.0


From d24f4b8bc2bfc5a6308eb4444e241751cc6aaef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 15/16] fix: Python hash of a BigInteger differed from the hash
 of the equal int

---
 bindings/python/python-bindings.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 210b770..a426e32 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -117,9 +117,8 @@ PYBIND11_MODULE(pybiginteger, m) {
                 return self == to_biginteger(other);
             })
             .def("__hash__", [](BigInteger& self) {
-                auto h = 2166136261;
-                h = (h * 16777619) ^ self.get_hash_code();
-                return h;
+                // equal to the hash of the int it compares equal to
+                return py::hash(to_py_int(self));
             })
             .def("__gt__", [](BigInteger& self, BigInteger& other) {
                 return self > other;
-- 
2.43.0


From d58295554e2f5fc7a8ba266d2fb2cfdf4edd0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:52 +0000
Subject: [PATCH 16/16] fix: Python pow(BigInteger, int, int) had no overload

---
 bindings/python/python-bindings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index a426e32..00fc9e5 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -220,6 +220,9 @@ PYBIND11_MODULE(pybiginteger, m) {
             .def("__pow__", [](BigInteger& base, BigInteger& exp, py::int_& modulus) {
                 return BigInteger::mod_pow(base, exp, to_biginteger(modulus));
             })
+            .def("__pow__", [](BigInteger& base, py::int_& exp, py::int_& modulus) {
+                return BigInteger::mod_pow(base, to_biginteger(exp), to_biginteger(modulus));
+            })
             .def("__truediv__", [](BigInteger& self, BigInteger& other) {
                 return self / other;
             })
-- 
2.43.0

