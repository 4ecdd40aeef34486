From 7f14513b9eb9d3e5b566f5784f60772155103ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 01/32] fix: Int subtraction wrote past the end of the chunks

---
 sources/int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 83999b6..e4c9e6c 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -405,7 +405,10 @@ public:
         {
             auto tmp = a[i] - b[i];
             a[i] = cycle_mod(tmp, BASE);
-            a[i + 1] += floor_div(tmp, BASE);
+            if (tmp < 0) // borrow, the highest chunk never borrows since |a| >= |b|
+            {
+                --a[i + 1];
+            }
         }
         for (int i = b.size(); i < a.size() && a[i] < 0; ++i) // carry
         {
-- 
2.43.0


From e7f831cef14ed0c6121207952dc8d432f045c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 02/32] fix: Int += itself computed a wrong sum and read out of
 bounds

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index e4c9e6c..33acf5b 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -344,6 +344,12 @@ public:
             return sign_ == 0 ? *this = rhs : *this;
         }
 
+        // if the operands are the same object, use a copy since resize will change rhs too
+        if (this == &rhs)
+        {
+            return *this += Int(rhs);
+        }
+
         // if the operands are of opposite signs, perform subtraction
         if (sign_ != rhs.sign_)
         {
-- 
2.43.0


From 76da65178d1f2be31fed76519db804e255709279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 03/32] fix: Int(INT_MIN) lost all its digits

---
 sources/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 33acf5b..9b39871 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -161,11 +161,11 @@ public:
     Int(int integer = 0)
     {
         sign_ = integer == 0 ? 0 : (integer > 0 ? 1 : -1);
-        integer = std::abs(integer);
-        while (integer > 0)
+        unsigned value = integer < 0 ? 0u - unsigned(integer) : unsigned(integer); // std::abs(INT_MIN) is undefined
+        while (value > 0)
         {
-            chunks_.push_back(integer % BASE);
-            integer /= BASE;
+            chunks_.push_back(value % BASE);
+            value /= BASE;
         }
     }
 
-- 
2.43.0


From 139e1fb7ca0510e05c90876a0b3d6539034591ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 04/32] fix: Int remainder lost the sign of the dividend, so a
 != (a / b) * b + a % b

---
 sources/int.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 9b39871..475cdfa 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -521,6 +521,7 @@ public:
         // prepare variables
         int size = chunks_.size() - rhs.chunks_.size() + 1;
 
+        const signed char sign = sign_; // the sign of remainder is the sign of dividend
         sign_ = 1;
 
         Int tmp;       // intermediate variable for rhs * 10^i
@@ -544,6 +545,8 @@ public:
             }
         }
 
+        sign_ = sign;
+
         return trim();
     }
 
-- 
2.43.0


From 4b192ec94b32910b35ca8f862cdff5d00aeed2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 05/32] fix: Int::pow ignored the modulus when base is 1 or -1
 or exp is 0

---
 sources/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 475cdfa..e7ba55e 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -744,7 +744,8 @@ public:
         // if base.abs() is 1, only when base is negative and exp is odd return -1, otherwise return 1
         if (base.digits() == 1 && base.chunks_[0] == 1)
         {
-            return base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            const Int result = base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            return mod.is_zero() ? result : result % mod;
         }
 
         // then, check if exp is negative
@@ -762,7 +763,7 @@ public:
 
         Int num = base;
         Int n = exp;
-        Int result = 1; // this**0 == 1
+        Int result = mod.is_zero() ? Int(1) : Int(1) % mod; // this**0 == 1
 
         while (!n.is_zero())
         {
-- 
2.43.0


From 4db731631decd76b5d471a6bc8c2f7693f653ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 06/32] fix: Int::sqrt looped forever on n*n-1

---
 sources/int.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index e7ba55e..b6983aa 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -723,15 +723,16 @@ public:
         // using Newton's method
 
         // as far as possible to reduce the number of iterations
-        // cur_sqrt is about 10^(digits/2) in O(1)
-        Int cur_sqrt{1, std::vector<int>(integer.chunks_.size() / 2, 0)};
+        // cur_sqrt is about 10^(digits/2) in O(1), and must be >= the square root
+        Int cur_sqrt{1, std::vector<int>((integer.chunks_.size() + 1) / 2, 0)};
         cur_sqrt.chunks_.push_back(1);
 
-        Int pre_sqrt;
-        while (cur_sqrt != pre_sqrt)
+        // strictly decreasing until it reaches the square root, wait for equality may oscillate forever
+        Int next_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
+        while (next_sqrt < cur_sqrt)
         {
-            pre_sqrt = cur_sqrt;
-            cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
+            cur_sqrt = next_sqrt;
+            next_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
         }
 
         return cur_sqrt;
-- 
2.43.0


From b5afc8ff011ef70fb57131a370df097afe9162ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 07/32] fix: Int::to_integer overflowed on the minimum value of
 T

---
 sources/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index b6983aa..85dda15 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -694,9 +694,9 @@ public:
         T result = 0;
         for (int i = chunks_.size() - 1; i >= 0; --i) // i = -1 if is zero, ok
         {
-            result = result * BASE + chunks_[i];
+            result = result * BASE + chunks_[i] * sign_; // keep the sign, since the minimum of T has no opposite value
         }
-        return result * sign_;
+        return result;
     }
 
     /*
-- 
2.43.0


From a3e943a966815a6021699456c05c5d5aa2d32b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 08/32] fix: printing an Int changed the fill character of the
 stream

---
 sources/int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 85dda15..8225ec9 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -880,8 +880,10 @@ public:
         os << *integer.chunks_.rbegin();
         if (integer.chunks_.size() > 1)
         {
+            const auto fill = os.fill();
             std::for_each(integer.chunks_.rbegin() + 1, integer.chunks_.rend(), [&](const auto& c)
                           { os << std::setw(Int::DIGITS_PER_CHUNK) << std::setfill('0') << std::to_string(c); });
+            os.fill(fill); // setfill is sticky, restore it
         }
 
         return os;
-- 
2.43.0


From 4422067d5ce1edeea99e859d480a8a870f930a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 09/32] fix: Fraction comparison overflowed, and equality was
 decided on rounded doubles

---
 sources/fraction.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 19a226e..73b6d1f 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -8,6 +8,8 @@
 
 #include "utility.hpp"
 
+#include <concepts> // std::same_as
+
 namespace pyincpp
 {
 
@@ -63,16 +65,24 @@ public:
      * Comparison
      */
 
+    /// Determine whether this fraction is equal to another fraction.
+    /// It is a template so that only fractions are compared here, not the values that can be converted to fraction.
+    template <std::same_as<Fraction> T>
+    bool operator==(const T& that) const
+    {
+        return numerator_ == that.numerator_ && denominator_ == that.denominator_;
+    }
+
     /// Compare the fraction with another fraction.
     auto operator<=>(const Fraction& that) const
     {
         // this = a/b; that = c/d;
         // so, this - that = a/b - c/d = (ad - bc)/(bd)
         // since bd is always positive, compute (ad-bc) only
-        int a = this->numerator_;
-        int b = this->denominator_;
-        int c = that.numerator_;
-        int d = that.denominator_;
+        long long a = this->numerator_;
+        long long b = this->denominator_;
+        long long c = that.numerator_;
+        long long d = that.denominator_;
 
         return a * d - b * c;
     }
-- 
2.43.0


From 7ea11f87560c1d1d8337a24c5c708869c9df0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 10/32] fix: Fraction with INT_MIN overflowed before it was
 simplified

---
 sources/fraction.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 73b6d1f..ea2ef53 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -36,17 +36,17 @@ public:
         // make sure the denominator is not zero
         internal::check_zero(denominator_);
 
+        // simplify first, since INT_MIN has no opposite value
+        long long gcd = std::gcd<long long, long long>(numerator_, denominator_);
+        numerator_ /= gcd;
+        denominator_ /= gcd;
+
         // make sure the denominator is a positive number
         if (denominator_ < 0)
         {
             numerator_ = -numerator_;
             denominator_ = -denominator_;
         }
-
-        // simplify
-        int gcd = std::gcd(numerator_, denominator_);
-        numerator_ /= gcd;
-        denominator_ /= gcd;
     }
 
     /// Copy constructor.
-- 
2.43.0


From ea82c9a57f665166e2eddafbfe6feeb043036a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 11/32] fix: Fraction arithmetic overflowed although the
 simplified result fits

---
 sources/fraction.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index ea2ef53..7a47518 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -23,6 +23,17 @@ private:
     // Denominator.
     int denominator_;
 
+    // Create a fraction from wide intermediate results: only the simplified result needs to fit in int.
+    static Fraction simplify(long long numerator, long long denominator)
+    {
+        internal::check_zero(denominator);
+
+        long long gcd = std::gcd(numerator, denominator);
+        gcd = denominator < 0 ? -gcd : gcd; // make sure the denominator is a positive number
+
+        return Fraction(int(numerator / gcd), int(denominator / gcd));
+    }
+
 public:
     /*
      * Constructor
@@ -199,25 +210,25 @@ public:
     /// Return this + `rhs`.
     Fraction operator+(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ + denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify(1LL * numerator_ * rhs.denominator_ + 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this - `rhs`.
     Fraction operator-(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ - denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify(1LL * numerator_ * rhs.denominator_ - 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this * `rhs`.
     Fraction operator*(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify(1LL * numerator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this / `rhs` (not zero).
     Fraction operator/(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
+        return simplify(1LL * numerator_ * rhs.denominator_, 1LL * denominator_ * rhs.numerator_);
     }
 
     /// Return this % `rhs` (not zero).
@@ -225,7 +236,7 @@ public:
     {
         internal::check_zero(rhs);
 
-        return Fraction((numerator_ * rhs.denominator_) % (rhs.numerator_ * denominator_), denominator_ * rhs.denominator_);
+        return simplify((1LL * numerator_ * rhs.denominator_) % (1LL * rhs.numerator_ * denominator_), 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Calculate the greatest common divisor of two fractions.
-- 
2.43.0


From a3dff982aee66e3a3485d864c1cd156d5b596c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 12/32] fix: reading a Fraction or a Complex looped forever at
 the end of stream

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e4f4244..c5e825e 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -224,7 +224,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Complex& complex)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20) // peek() returns EOF (< 0x20) forever at the end of stream
         {
             is.ignore();
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 7a47518..5308df5 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -284,7 +284,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Fraction& fraction)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20) // peek() returns EOF (< 0x20) forever at the end of stream
         {
             is.ignore();
         }
-- 
2.43.0


From 09c91ec475da487a4ccc65c4155593053bee2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 13/32] fix: reading a Complex used an uninitialized character
 on malformed literals

---
 sources/complex.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index c5e825e..f1a193a 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -251,10 +251,14 @@ public:
             throw std::runtime_error("Error: Wrong complex literal.");
         }
 
+        if (is.peek() != '-' && is.peek() != '+') // handle "1.2.3j"
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
+
         double imag;
-        char c;
-        is >> imag >> c;
-        if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        is >> imag;
+        if (is.get() != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
-- 
2.43.0


From 33464d1d43c0ee07a6b895f964931c02a6271ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 14/32] fix: searching a List or a Str in an inverted or
 outside range read out of bounds

---
 sources/list.hpp | 7 +++++++
 sources/str.hpp  | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index b279934..e81b36c 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -127,6 +127,13 @@ public:
     int index(const T& element, int start = 0, int stop = INT_MAX) const
     {
         stop = stop > size() ? size() : stop;
+        if (start >= stop) // nothing in the range
+        {
+            return -1;
+        }
+
+        internal::check_bounds(start, 0, size());
+
         auto it = std::find(begin() + start, begin() + stop, element);
         return it == begin() + stop ? -1 : it - begin();
     }
diff --git a/sources/str.hpp b/sources/str.hpp
index 5b85716..914fb01 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -224,12 +224,14 @@ public:
     /// Or -1 if the string does not contain the pattern (in the specified range).
     int find(const Str& pattern, int start = 0, int stop = INT_MAX) const
     {
-        if (start > size())
+        stop = stop > size() ? size() : stop;
+        if (start > stop) // nothing in the range
         {
             return -1;
         }
 
-        stop = stop > size() ? size() : stop;
+        internal::check_bounds(start, 0, size() + 1);
+
         std::string_view view(str_.data() + start, stop - start);
         auto pos = view.find(pattern.str_);
 
-- 
2.43.0


From ca840ea3ebb17e2df10a1887c6ee6366b7334710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 15/32] fix: List /= an element of the list itself removed the
 wrong elements

---
 sources/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index e81b36c..40503ff 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -219,7 +219,8 @@ public:
     /// Remove all the specified `element`s from the list.
     List& operator/=(const T& element)
     {
-        auto it = std::remove(vector_.begin(), vector_.end(), element);
+        const T value = element; // `element` may be in the list itself
+        auto it = std::remove(vector_.begin(), vector_.end(), value);
         vector_.erase(it, vector_.end());
         return *this;
     }
-- 
2.43.0


From dba1bb2766918353bcc162d1fc2140c7a6c1e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 16/32] fix: repeating a List or a Str overflowed its size and
 wrote out of bounds

---
 sources/list.hpp | 5 ++++-
 sources/str.hpp  | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 40503ff..6e11e64 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -395,7 +395,10 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
-        internal::check_full(size() * times, INT_MAX);
+        if (times > 0 && size() > INT_MAX / times) // `size() * times` will overflow
+        {
+            throw std::runtime_error("Error: The container has reached the maximum size.");
+        }
 
         std::vector<T> buffer(size() * times);
         for (int part = 0; part < times; part++)
diff --git a/sources/str.hpp b/sources/str.hpp
index 914fb01..4b23d78 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -642,6 +642,11 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
+        if (times > 0 && size() > INT_MAX / times) // `size() * times` will overflow
+        {
+            throw std::runtime_error("Error: The container has reached the maximum size.");
+        }
+
         std::string buffer(size() * times, 0);
         for (int part = 0; part < times; part++)
         {
-- 
2.43.0


From f32654cea3184ad0d80da310a9829afe89ae3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 17/32] fix: rotating right by INT_MIN negated it and rotated
 wrongly

---
 sources/deque.hpp | 2 ++
 sources/list.hpp  | 2 ++
 sources/str.hpp   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 0fbd3ce..1c80869 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -209,6 +209,8 @@ public:
             return *this;
         }
 
+        n %= size(); // and -INT_MIN can not be represented
+
         if (n < 0)
         {
             return *this <<= -n;
diff --git a/sources/list.hpp b/sources/list.hpp
index 6e11e64..fe0eaad 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -233,6 +233,8 @@ public:
             return *this;
         }
 
+        n %= size(); // and -INT_MIN can not be represented
+
         if (n < 0)
         {
             return *this <<= -n;
diff --git a/sources/str.hpp b/sources/str.hpp
index 4b23d78..47fb7b4 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -477,6 +477,8 @@ public:
             return *this;
         }
 
+        n %= size(); // and -INT_MIN can not be represented
+
         if (n < 0)
         {
             return *this << -n;
-- 
2.43.0


From cd77efdd36fd3402cfce78c47fc3de0c81265249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 18/32] fix: erasing an inverted range of a List or a Str
 corrupted memory

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index fe0eaad..ec022f3 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -302,7 +302,7 @@ public:
     List& erase(int start, int stop)
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
diff --git a/sources/str.hpp b/sources/str.hpp
index 47fb7b4..95a65e9 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -541,7 +541,7 @@ public:
     Str erase(int start, int stop) const
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
-- 
2.43.0


From 05c57f347cbba86932448cf8baf1879fbe6bf002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 19/32] fix: slicing a List or a Str with a big step overflowed
 the index

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index ec022f3..d6a124c 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -363,7 +363,7 @@ public:
 
         // copy
         std::vector<T> buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer.push_back(vector_[i]);
         }
diff --git a/sources/str.hpp b/sources/str.hpp
index 95a65e9..3c46476 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -616,7 +616,7 @@ public:
 
         // copy
         std::string buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer += str_[i];
         }
-- 
2.43.0


From 440960f81bccec0a20c384b0ec5ac3d87dc77b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 20/32] fix: extending a big Deque with itself used freed
 memory

---
 sources/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 1c80869..8c2b63b 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -191,14 +191,16 @@ public:
     template <std::input_iterator InputIt>
     void extend_back(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.end(), first, last);
+        std::deque<T> buffer(first, last); // the range may be in the deque itself
+        deque_.insert(deque_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
     /// Extend the left side of the deque by prepending elements of the range [`first`, `last`).
     template <std::input_iterator InputIt>
     void extend_front(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.begin(), first, last);
+        std::deque<T> buffer(first, last); // the range may be in the deque itself
+        deque_.insert(deque_.begin(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
     /// Rotate `n` elements to the right.
-- 
2.43.0


From e04c5e18cb7a858fbaf1e295bed82046751e9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 21/32] fix: min and max of an empty Dict dereferenced the end
 iterator

---
 sources/dict.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 33d971e..f62d192 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -146,12 +146,16 @@ public:
     /// Get the smallest key of the dictionary.
     K min() const
     {
+        internal::check_empty(size());
+
         return map_.cbegin()->first;
     }
 
     /// Get the largest key of the dictionary.
     K max() const
     {
+        internal::check_empty(size());
+
         return map_.crbegin()->first;
     }
 
-- 
2.43.0


From 4509e712ae2777811040376b9701a6601a8bb682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 22/32] fix: Str lower and upper corrupted the characters that
 are not letters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 3c46476..8359105 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -522,7 +522,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c |= 0b0010'0000; });
+                      { c = (c >= 'A' && c <= 'Z') ? c | 0b0010'0000 : c; });
 
         return buffer;
     }
@@ -532,7 +532,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c &= 0b1101'1111; });
+                      { c = (c >= 'a' && c <= 'z') ? c & 0b1101'1111 : c; });
 
         return buffer;
     }
-- 
2.43.0


From 155eae6f86c8d82595a8d5f0570d8f6d2955f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 23/32] fix: Str replace of the empty string truncated the new
 string at a null character

---
 sources/str.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 8359105..24ba50c 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -560,9 +560,10 @@ public:
     {
         if (old_str.is_empty())
         {
-            std::ostringstream ss;
-            std::copy(str_.begin(), str_.end(), std::ostream_iterator<char>(ss, new_str.data()));
-            return new_str.str_ + ss.str();
+            std::string buffer = new_str.str_;
+            std::for_each(str_.begin(), str_.end(), [&](const char& c)
+                          { buffer += c + new_str.str_; });
+            return buffer;
         }
 
         std::string buffer;
-- 
2.43.0


From 287b0ac6d57d4ead217462cd3fbb252bd12dfdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 24/32] fix: Str strip removed non-ASCII characters as if they
 were blank

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 24ba50c..15585e7 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -583,14 +583,14 @@ public:
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == -1 ? static_cast<unsigned char>(buffer[i]) <= 0x20 : static_cast<signed char>(buffer[i]) == ch))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == -1 ? static_cast<unsigned char>(buffer[i]) <= 0x20 : static_cast<signed char>(buffer[i]) == ch))
         {
             --i;
         }
-- 
2.43.0


From be4ea0f99bf573f356bc15ff4c95840a17374ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 25/32] fix: Str to_decimal returned NaN or overflowed on long
 literals

---
 sources/str.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 15585e7..8b0386c 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -306,12 +306,6 @@ public:
 
         // not infinity or nan
 
-        double sign = 1; // default '+'
-        double decimal_part = 0;
-        int decimal_cnt = 0;
-        double exp_sign = 1; // default '+'
-        int exp_part = 0;
-
         // FSM
         state st = S_START;
         for (int i = 0; i < size(); ++i)
@@ -324,7 +318,6 @@ public:
                     break;
 
                 case int(S_START) | int(E_SIGN):
-                    sign = (str_[i] == '+') ? 1 : -1;
                     st = S_SIGN;
                     break;
 
@@ -336,7 +329,6 @@ public:
                 case int(S_START) | int(E_DIGIT):
                 case int(S_SIGN) | int(E_DIGIT):
                 case int(S_INT) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
                     st = S_INT;
                     break;
 
@@ -346,8 +338,6 @@ public:
 
                 case int(S_POINT) | int(E_DIGIT):
                 case int(S_DEC) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
-                    decimal_cnt++;
                     st = S_DEC;
                     break;
 
@@ -357,14 +347,12 @@ public:
                     break;
 
                 case int(S_EXP) | int(E_SIGN):
-                    exp_sign = (str_[i] == '+') ? 1 : -1;
                     st = S_EXP_SIGN;
                     break;
 
                 case int(S_EXP) | int(E_DIGIT):
                 case int(S_EXP_SIGN) | int(E_DIGIT):
                 case int(S_EXP_NUM) | int(E_DIGIT):
-                    exp_part = exp_part * 10 + char_to_integer(str_[i], 10);
                     st = S_EXP_NUM;
                     break;
 
@@ -386,7 +374,18 @@ public:
             throw std::runtime_error("Error: Invalid literal for to_decimal().");
         }
 
-        return sign * ((decimal_part / std::pow(10, decimal_cnt)) * std::pow(10, exp_sign * exp_part));
+        // the literal is valid, convert it by the standard library, since the intermediate results
+        // of a hand-written conversion may be out of range even if the number is representable
+        double decimal = 0;
+        std::istringstream iss(str_);
+        iss.imbue(std::locale::classic());
+        iss >> decimal;
+        if (iss.fail() && std::abs(decimal) >= 1) // too big
+        {
+            return decimal > 0 ? HUGE_VAL : -HUGE_VAL;
+        }
+
+        return decimal;
     }
 
     /// Convert the string to an `Int` based on 2-36 `base`.
-- 
2.43.0


From 086d4ff0ceb22091a8431ceee319dea1bef2a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 26/32] fix: reading the last Fraction or Complex of a stream
 marked the stream as failed

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index f1a193a..2a6e49f 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -235,7 +235,7 @@ public:
 
         double real;
         is >> real;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space (peek() at the end of stream sets failbit), ok
         {
             complex = real;
             return is;
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 5308df5..ddc65fa 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -295,7 +295,7 @@ public:
 
         int num;
         is >> num;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space (peek() at the end of stream sets failbit), ok
         {
             fraction = num;
             return is;
@@ -309,7 +309,7 @@ public:
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
         is >> den;
-        if (c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From 4c7ea7429261ee694feeb7cda59040bd3020f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 27/32] fix: undefined behaviour reading a Fraction whose
 denominator is below int

---
 sources/fraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index ddc65fa..c5c82b5 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -309,7 +309,7 @@ public:
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
         is >> den;
-        if (c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
+        if (c != '/' || is.fail() || (!is.eof() && is.peek() > 0x20)) // handle "1|2", "1/-9999999999" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From dae723c8fb6f701280c059451ce345da17b26c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 28/32] fix: extending a List with itself appended moved-from
 elements

---
 sources/list.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index d6a124c..bbd5695 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -194,7 +194,7 @@ public:
     {
         internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
 
-        vector_.insert(end(), list.begin(), list.end());
+        extend(list.begin(), list.end());
 
         return *this;
     }
@@ -332,7 +332,8 @@ public:
     template <std::input_iterator InputIt>
     void extend(const InputIt& first, const InputIt& last)
     {
-        vector_.insert(vector_.end(), first, last);
+        std::vector<T> buffer(first, last); // the range may be in the list itself
+        vector_.insert(vector_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
     /// Remove all of the elements from the list.
-- 
2.43.0


From 79934fc9149840c562eb8c8b57c6b10b0b3d5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 29/32] fix: a failed allocation while assigning an Int left it
 inconsistent

---
 sources/int.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 8225ec9..81393d4 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -252,7 +252,13 @@ public:
      */
 
     /// Copy assignment operator.
-    Int& operator=(const Int& that) = default;
+    Int& operator=(const Int& that)
+    {
+        chunks_ = that.chunks_; // the only step that may throw, so it comes first
+        sign_ = that.sign_;
+
+        return *this;
+    }
 
     /// Move assignment operator.
     Int& operator=(Int&& that)
-- 
2.43.0


From 9a0bd7ba744be8f00594a31033d9e81772769875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 30/32] fix: a failed allocation while incrementing a zero Int
 left it inconsistent

---
 sources/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 81393d4..d29c813 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -561,8 +561,8 @@ public:
     {
         if (sign_ == 0)
         {
-            sign_ = 1;
             chunks_.push_back(1);
+            sign_ = 1;
         }
         else
         {
@@ -577,8 +577,8 @@ public:
     {
         if (sign_ == 0)
         {
-            sign_ = -1;
             chunks_.push_back(1);
+            sign_ = -1;
         }
         else
         {
-- 
2.43.0


From 392b01d589ee047ca10f3994314dfea86e5b88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 31/32] fix: reject extending a List or Deque beyond the
 maximum size; allow filling a List up to it

---
 sources/deque.hpp | 10 ++++++++++
 sources/list.hpp  |  7 +++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 8c2b63b..3893531 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -192,6 +192,11 @@ public:
     void extend_back(const InputIt& first, const InputIt& last)
     {
         std::deque<T> buffer(first, last); // the range may be in the deque itself
+        if (buffer.size() > std::size_t(INT_MAX - size()))
+        {
+            throw std::runtime_error("Error: The container has reached the maximum size.");
+        }
+
         deque_.insert(deque_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
@@ -200,6 +205,11 @@ public:
     void extend_front(const InputIt& first, const InputIt& last)
     {
         std::deque<T> buffer(first, last); // the range may be in the deque itself
+        if (buffer.size() > std::size_t(INT_MAX - size()))
+        {
+            throw std::runtime_error("Error: The container has reached the maximum size.");
+        }
+
         deque_.insert(deque_.begin(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
diff --git a/sources/list.hpp b/sources/list.hpp
index bbd5695..fa12df2 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -192,8 +192,6 @@ public:
     /// Extend the specified `list` to the end of the list.
     List& operator+=(const List& list)
     {
-        internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
-
         extend(list.begin(), list.end());
 
         return *this;
@@ -333,6 +331,11 @@ public:
     void extend(const InputIt& first, const InputIt& last)
     {
         std::vector<T> buffer(first, last); // the range may be in the list itself
+        if (buffer.size() > std::size_t(INT_MAX - size()))
+        {
+            throw std::runtime_error("Error: The container has reached the maximum size.");
+        }
+
         vector_.insert(vector_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
-- 
2.43.0


From a58f4f92625a66c5adf8edb56529a938ff4c4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 32/32] fix: reject an integer with an embedded null character
 when reading from a stream

---
 sources/int.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index d29c813..ed71cef 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -900,6 +900,10 @@ public:
     {
         std::string str;
         is >> str;
+        if (str.find('\0') != std::string::npos) // handle "12\0z", null-terminated characters end too early
+        {
+            throw std::runtime_error("Error: Wrong integer literal.");
+        }
         integer = str.c_str();
 
         return is;
-- 
2.43.0

