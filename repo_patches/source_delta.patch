From 41dbfa5e3cb089ddac76682919c017a8ad271fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 01/28] fix: rotating right by INT_MIN negated it, which
 overflows

---
 sources/deque.hpp | 2 +-
 sources/list.hpp  | 2 +-
 sources/str.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 0fbd3ce..f77127a 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -211,7 +211,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size());
         }
 
         return *this <<= size() - n;
diff --git a/sources/list.hpp b/sources/list.hpp
index b279934..73deffe 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -227,7 +227,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size());
         }
 
         return *this <<= size() - n;
diff --git a/sources/str.hpp b/sources/str.hpp
index 5b85716..1b35437 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -477,7 +477,7 @@ public:
 
         if (n < 0)
         {
-            return *this << -n;
+            return *this << -(n % size());
         }
 
         return *this << size() - n;
-- 
2.43.0


From 055d1da0d23bd6f522fbf8fb460f0ac8e709fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 02/28] fix: List /= compared against an element it was moving
 away

---
 sources/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 73deffe..8104f80 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -212,7 +212,7 @@ public:
     /// Remove all the specified `element`s from the list.
     List& operator/=(const T& element)
     {
-        auto it = std::remove(vector_.begin(), vector_.end(), element);
+        auto it = std::remove(vector_.begin(), vector_.end(), T(element)); // element may be in the list
         vector_.erase(it, vector_.end());
         return *this;
     }
-- 
2.43.0


From 35c621f0d8a69a39c8cc66327cd591f760b73c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 03/28] fix: appending a list (or a range of it) to itself read
 moved-from elements

---
 sources/list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 8104f80..975387c 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -187,6 +187,11 @@ public:
     {
         internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
 
+        if (this == &list)
+        {
+            return *this += List(list);
+        }
+
         vector_.insert(end(), list.begin(), list.end());
 
         return *this;
@@ -322,7 +327,7 @@ public:
     template <std::input_iterator InputIt>
     void extend(const InputIt& first, const InputIt& last)
     {
-        vector_.insert(vector_.end(), first, last);
+        *this += List(first, last); // the range may be in the list
     }
 
     /// Remove all of the elements from the list.
-- 
2.43.0


From 78d41ae9d0a3bb272e125f0de57461f24709a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 04/28] fix: extending a deque with a range of itself used
 invalidated iterators

---
 sources/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index f77127a..c9ca75e 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -191,14 +191,16 @@ public:
     template <std::input_iterator InputIt>
     void extend_back(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.end(), first, last);
+        const std::deque<T> buffer(first, last); // the range may be in the deque
+        deque_.insert(deque_.end(), buffer.begin(), buffer.end());
     }
 
     /// Extend the left side of the deque by prepending elements of the range [`first`, `last`).
     template <std::input_iterator InputIt>
     void extend_front(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.begin(), first, last);
+        const std::deque<T> buffer(first, last); // the range may be in the deque
+        deque_.insert(deque_.begin(), buffer.begin(), buffer.end());
     }
 
     /// Rotate `n` elements to the right.
-- 
2.43.0


From 660e16b271b131ff18648c0fc01921e41eedf5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 05/28] fix: erase(start, stop) with start > stop left the
 sequence

---
 sources/list.hpp | 1 +
 sources/str.hpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sources/list.hpp b/sources/list.hpp
index 975387c..97a8338 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -298,6 +298,7 @@ public:
     {
         internal::check_bounds(start, 0, size() + 1);
         internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(start, 0, stop + 1);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
diff --git a/sources/str.hpp b/sources/str.hpp
index 1b35437..7eae00c 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -538,6 +538,7 @@ public:
     {
         internal::check_bounds(start, 0, size() + 1);
         internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(start, 0, stop + 1);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
-- 
2.43.0


From ebc35abf278e3852635c7244315c2267babf352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 06/28] fix: searching a range that is reversed or outside the
 sequence read foreign memory

---
 sources/list.hpp | 6 ++++++
 sources/str.hpp  | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 97a8338..6e677f4 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -126,7 +126,13 @@ public:
     /// Return the index of the first occurrence of the specified `element`, or -1 if the list does not contain the element in the specified range [`start`, `stop`].
     int index(const T& element, int start = 0, int stop = INT_MAX) const
     {
+        start = start < 0 ? 0 : start;
         stop = stop > size() ? size() : stop;
+        if (start > stop)
+        {
+            return -1;
+        }
+
         auto it = std::find(begin() + start, begin() + stop, element);
         return it == begin() + stop ? -1 : it - begin();
     }
diff --git a/sources/str.hpp b/sources/str.hpp
index 7eae00c..4148e96 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -224,12 +224,13 @@ public:
     /// Or -1 if the string does not contain the pattern (in the specified range).
     int find(const Str& pattern, int start = 0, int stop = INT_MAX) const
     {
-        if (start > size())
+        start = start < 0 ? 0 : start;
+        stop = stop > size() ? size() : stop;
+        if (start > stop)
         {
             return -1;
         }
 
-        stop = stop > size() ? size() : stop;
         std::string_view view(str_.data() + start, stop - start);
         auto pos = view.find(pattern.str_);
 
-- 
2.43.0


From 7caf7a5ce349e73242a9fe5b63d9e03247c55d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 07/28] fix: slice() with a huge step overflowed its index

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 6e677f4..1537636 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -365,7 +365,7 @@ public:
 
         // copy
         std::vector<T> buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer.push_back(vector_[i]);
         }
diff --git a/sources/str.hpp b/sources/str.hpp
index 4148e96..f4f6ca4 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -614,7 +614,7 @@ public:
 
         // copy
         std::string buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer += str_[i];
         }
-- 
2.43.0


From 641514c2fca03816ed19e9667a33b57406900f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 08/28] fix: the size of a repeated or concatenated sequence
 overflowed before it was checked

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 1537636..3751892 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -399,7 +399,7 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
-        internal::check_full(size() * times, INT_MAX);
+        internal::check_full(std::min<long long>(1LL * size() * times, INT_MAX), INT_MAX);
 
         std::vector<T> buffer(size() * times);
         for (int part = 0; part < times; part++)
diff --git a/sources/str.hpp b/sources/str.hpp
index f4f6ca4..42c77e6 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -625,12 +625,16 @@ public:
     /// Generate a new string and append the specified `element` to the end of the string.
     Str operator+(const char& element) const
     {
+        internal::check_full(size(), INT_MAX);
+
         return str_ + element;
     }
 
     /// Generate a new string and append the specified `string` to the end of the string.
     Str operator+(const Str& string) const
     {
+        internal::check_full(size() / 2 + string.size() / 2, INT_MAX / 2);
+
         return str_ + string.str_;
     }
 
@@ -642,6 +646,8 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
+        internal::check_full(std::min<long long>(1LL * size() * times, INT_MAX), INT_MAX);
+
         std::string buffer(size() * times, 0);
         for (int part = 0; part < times; part++)
         {
-- 
2.43.0


From 6647e7cf570ad0c2b86fe6ad49113c97efe24e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 09/28] fix: min() and max() of an empty dictionary
 dereferenced end()

---
 sources/dict.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 33d971e..f62d192 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -146,12 +146,16 @@ public:
     /// Get the smallest key of the dictionary.
     K min() const
     {
+        internal::check_empty(size());
+
         return map_.cbegin()->first;
     }
 
     /// Get the largest key of the dictionary.
     K max() const
     {
+        internal::check_empty(size());
+
         return map_.crbegin()->first;
     }
 
-- 
2.43.0


From 797831cf97c80aef00e4ae4087e136ca5cdb5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 10/28] fix: Str modified a const member through const_cast

---
 sources/str.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 42c77e6..f991aba 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -19,7 +19,7 @@ class Str
 {
 private:
     // String.
-    const std::string str_;
+    std::string str_;
 
     // Used for FSM.
     enum state
-- 
2.43.0


From c2ce10140a387ec4dadf47f6bef7d0ae1a598f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 11/28] fix: lower() and upper() changed characters that are
 not letters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index f991aba..5d38ea0 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -519,7 +519,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c |= 0b0010'0000; });
+                      { c |= (c >= 'A' && c <= 'Z') ? 0b0010'0000 : 0; });
 
         return buffer;
     }
@@ -529,7 +529,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c &= 0b1101'1111; });
+                      { c &= (c >= 'a' && c <= 'z') ? 0b1101'1111 : 0b1111'1111; });
 
         return buffer;
     }
-- 
2.43.0


From 877e0ed25b4383be588466ec204c7a7e895c2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 12/28] fix: strip() removed bytes above 0x7f

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 5d38ea0..e8b8bbd 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -580,14 +580,14 @@ public:
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] >= 0 && buffer[i] <= 0x20 : buffer[i] == ch))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == -1 ? buffer[i] >= 0 && buffer[i] <= 0x20 : buffer[i] == ch))
         {
             --i;
         }
-- 
2.43.0


From ed5999ec09a9c4f2caa1641058288d8423085053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 13/28] fix: replace() of the empty string cut the replacement
 at its first NUL

---
 sources/str.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index e8b8bbd..69ebb74 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -558,9 +558,13 @@ public:
     {
         if (old_str.is_empty())
         {
-            std::ostringstream ss;
-            std::copy(str_.begin(), str_.end(), std::ostream_iterator<char>(ss, new_str.data()));
-            return new_str.str_ + ss.str();
+            std::string buffer = new_str.str_;
+            for (const char& c : str_)
+            {
+                buffer += c;
+                buffer += new_str.str_;
+            }
+            return buffer;
         }
 
         std::string buffer;
-- 
2.43.0


From d7cfceae58d804400cbb9c4a47606acbe8c5ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 14/28] fix: to_decimal() overflowed on long exponents and
 turned 0e400 into NaN

---
 sources/str.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 69ebb74..394b53c 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -363,7 +363,7 @@ public:
                 case int(S_EXP) | int(E_DIGIT):
                 case int(S_EXP_SIGN) | int(E_DIGIT):
                 case int(S_EXP_NUM) | int(E_DIGIT):
-                    exp_part = exp_part * 10 + char_to_integer(str_[i], 10);
+                    exp_part = std::min(exp_part, 99999) * 10 + char_to_integer(str_[i], 10);
                     st = S_EXP_NUM;
                     break;
 
@@ -385,6 +385,11 @@ public:
             throw std::runtime_error("Error: Invalid literal for to_decimal().");
         }
 
+        if (decimal_part == 0)
+        {
+            return sign * 0;
+        }
+
         return sign * ((decimal_part / std::pow(10, decimal_cnt)) * std::pow(10, exp_sign * exp_part));
     }
 
-- 
2.43.0


From 746bce0778bf1a549a6819176e6c26b029a942aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 15/28] fix: Int(INT_MIN) overflowed

---
 sources/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 83999b6..dac7a15 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -161,11 +161,11 @@ public:
     Int(int integer = 0)
     {
         sign_ = integer == 0 ? 0 : (integer > 0 ? 1 : -1);
-        integer = std::abs(integer);
-        while (integer > 0)
+        long long rest = std::abs(static_cast<long long>(integer)); // -INT_MIN is not an int
+        while (rest > 0)
         {
-            chunks_.push_back(integer % BASE);
-            integer /= BASE;
+            chunks_.push_back(rest % BASE);
+            rest /= BASE;
         }
     }
 
-- 
2.43.0


From ea24416c32f4d161f154826b62be6e742dae4188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 16/28] fix: x += x of a big integer read past its digits

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index dac7a15..75a2295 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -352,6 +352,12 @@ public:
 
         // now, the sign of two integers is the same and not zero
 
+        // the digits of rhs must not change below
+        if (this == &rhs)
+        {
+            return *this += Int(rhs);
+        }
+
         // normalize
         auto& a = chunks_;
         const auto& b = rhs.chunks_;
-- 
2.43.0


From 778d7218fe3928b069b3ba8f88e3fca41fd308b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 17/28] fix: the remainder of a negative big integer lost its
 sign

---
 sources/int.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 75a2295..f00cfdb 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -517,6 +517,7 @@ public:
 
         // prepare variables
         int size = chunks_.size() - rhs.chunks_.size() + 1;
+        const signed char sign = sign_; // the remainder has the sign of this
 
         sign_ = 1;
 
@@ -541,6 +542,8 @@ public:
             }
         }
 
+        sign_ = sign;
+
         return trim();
     }
 
-- 
2.43.0


From ad5a34ed7fba03c327fdabdea2d44e5166b91b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 18/28] fix: Int::sqrt(n * n - 1) never terminated

---
 sources/int.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index f00cfdb..6a24167 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -724,14 +724,16 @@ public:
         Int cur_sqrt{1, std::vector<int>(integer.chunks_.size() / 2, 0)};
         cur_sqrt.chunks_.push_back(1);
 
-        Int pre_sqrt;
-        while (cur_sqrt != pre_sqrt)
+        cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2; // now, not less than the square root
+
+        Int pre_sqrt = cur_sqrt + 1;
+        while (cur_sqrt < pre_sqrt)
         {
             pre_sqrt = cur_sqrt;
             cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
         }
 
-        return cur_sqrt;
+        return pre_sqrt;
     }
 
     /// Return `(base**exp) % mod` (`mod` default = 0 means does not perform module).
-- 
2.43.0


From 6ddae9f63796ec296186f20037d64beb25680254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 19/28] fix: modular power was not reduced for a base of 1 or
 an exponent of 0

---
 sources/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 6a24167..d00ed3e 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -743,7 +743,8 @@ public:
         // if base.abs() is 1, only when base is negative and exp is odd return -1, otherwise return 1
         if (base.digits() == 1 && base.chunks_[0] == 1)
         {
-            return base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            const Int one = base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            return mod.is_zero() ? one : one % mod;
         }
 
         // then, check if exp is negative
@@ -773,7 +774,7 @@ public:
             n /= 2; // integer divide
         }
 
-        return result;
+        return mod.is_zero() ? result : result % mod;
     }
 
     /// Return the logarithm of `integer` based on `base`.
-- 
2.43.0


From 1240210b1237ba70e850f4e5501a41684a3d02ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 20/28] fix: comparing fractions overflowed, and == compared
 rounded quotients

---
 sources/fraction.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 19a226e..5599421 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -69,14 +69,22 @@ public:
         // this = a/b; that = c/d;
         // so, this - that = a/b - c/d = (ad - bc)/(bd)
         // since bd is always positive, compute (ad-bc) only
-        int a = this->numerator_;
-        int b = this->denominator_;
-        int c = that.numerator_;
-        int d = that.denominator_;
+        long long a = this->numerator_;
+        long long b = this->denominator_;
+        long long c = that.numerator_;
+        long long d = that.denominator_;
 
         return a * d - b * c;
     }
 
+    /// Determine whether this fraction is equal to another fraction.
+    /// (The constraint keeps comparison with built-in numbers unambiguous.)
+    template <std::same_as<Fraction> T>
+    bool operator==(const T& that) const
+    {
+        return numerator_ == that.numerator_ && denominator_ == that.denominator_;
+    }
+
     /*
      * Assignment
      */
-- 
2.43.0


From a0aeb08cc8d4cfa4a8f049aa00c89b7ce37c57fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 21/28] fix: fraction arithmetic overflowed int although its
 result is representable

---
 sources/fraction.hpp | 62 ++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 5599421..a74845d 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -21,6 +21,41 @@ private:
     // Denominator.
     int denominator_;
 
+    // Set the value to `numerator/denominator` in lowest terms.
+    Fraction& assign(long long numerator, long long denominator)
+    {
+        // make sure the denominator is not zero
+        internal::check_zero(denominator);
+
+        // make sure the denominator is a positive number
+        if (denominator < 0)
+        {
+            numerator = -numerator;
+            denominator = -denominator;
+        }
+
+        // simplify
+        long long gcd = std::gcd(numerator, denominator);
+        numerator /= gcd;
+        denominator /= gcd;
+
+        if (numerator < INT_MIN || numerator > INT_MAX || denominator > INT_MAX)
+        {
+            throw std::runtime_error("Error: Fraction out of range.");
+        }
+
+        numerator_ = numerator;
+        denominator_ = denominator;
+
+        return *this;
+    }
+
+    // Create a fraction from the result of 64-bit arithmetic.
+    static Fraction make(long long numerator, long long denominator)
+    {
+        return Fraction().assign(numerator, denominator);
+    }
+
 public:
     /*
      * Constructor
@@ -31,20 +66,7 @@ public:
         : numerator_(numerator)
         , denominator_(denominator)
     {
-        // make sure the denominator is not zero
-        internal::check_zero(denominator_);
-
-        // make sure the denominator is a positive number
-        if (denominator_ < 0)
-        {
-            numerator_ = -numerator_;
-            denominator_ = -denominator_;
-        }
-
-        // simplify
-        int gcd = std::gcd(numerator_, denominator_);
-        numerator_ /= gcd;
-        denominator_ /= gcd;
+        assign(numerator, denominator);
     }
 
     /// Copy constructor.
@@ -185,7 +207,7 @@ public:
     /// Return the opposite value of this.
     Fraction operator-() const
     {
-        return Fraction(-numerator_, denominator_);
+        return make(-1LL * numerator_, denominator_);
     }
 
     /// Return the absolute value of this.
@@ -197,25 +219,25 @@ public:
     /// Return this + `rhs`.
     Fraction operator+(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ + denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return make(1LL * numerator_ * rhs.denominator_ + 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this - `rhs`.
     Fraction operator-(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ - denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return make(1LL * numerator_ * rhs.denominator_ - 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this * `rhs`.
     Fraction operator*(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return make(1LL * numerator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this / `rhs` (not zero).
     Fraction operator/(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
+        return make(1LL * numerator_ * rhs.denominator_, 1LL * denominator_ * rhs.numerator_);
     }
 
     /// Return this % `rhs` (not zero).
@@ -223,7 +245,7 @@ public:
     {
         internal::check_zero(rhs);
 
-        return Fraction((numerator_ * rhs.denominator_) % (rhs.numerator_ * denominator_), denominator_ * rhs.denominator_);
+        return make((1LL * numerator_ * rhs.denominator_) % (1LL * rhs.numerator_ * denominator_), 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Calculate the greatest common divisor of two fractions.
-- 
2.43.0


From 2be42a664476259e56732888150ace046b885b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 22/28] fix: reading a fraction or complex from an exhausted
 stream never terminated

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e4f4244..21cb0b8 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -224,7 +224,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Complex& complex)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20)
         {
             is.ignore();
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index a74845d..cb238ea 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -293,7 +293,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Fraction& fraction)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20)
         {
             is.ignore();
         }
-- 
2.43.0


From e3aad6b6d2628757ee5e2b2958f3d40100380d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 23/28] fix: a fraction or complex was read although a part of
 its literal could not be parsed

---
 sources/complex.hpp  | 8 +++++---
 sources/fraction.hpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 21cb0b8..402ebf7 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -234,7 +234,10 @@ public:
         }
 
         double real;
-        is >> real;
+        if (!(is >> real)) // handle "+ " and ".j"
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
         if (is.peek() <= 0x20) // next char is white space, ok
         {
             complex = real;
@@ -253,8 +256,7 @@ public:
 
         double imag;
         char c;
-        is >> imag >> c;
-        if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        if (!(is >> imag >> c) || c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index cb238ea..f49ce69 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -303,7 +303,10 @@ public:
         }
 
         int num;
-        is >> num;
+        if (!(is >> num)) // handle "+ " and numbers that do not fit
+        {
+            throw std::runtime_error("Error: Wrong fraction literal.");
+        }
         if (is.peek() <= 0x20) // next char is white space, ok
         {
             fraction = num;
@@ -317,8 +320,7 @@ public:
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-        is >> den;
-        if (c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (!(is >> den) || c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From d234fbbf6b7f4c5d5fd0d9e1f25f3c7c1d46081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 24/28] fix: repeating a list required its elements to have a
 default constructor

---
 sources/list.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 3751892..e84daf3 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -401,10 +401,11 @@ public:
 
         internal::check_full(std::min<long long>(1LL * size() * times, INT_MAX), INT_MAX);
 
-        std::vector<T> buffer(size() * times);
+        std::vector<T> buffer;
+        buffer.reserve(size() * times);
         for (int part = 0; part < times; part++)
         {
-            std::copy(begin(), end(), buffer.begin() + size() * part);
+            buffer.insert(buffer.end(), begin(), end());
         }
 
         return buffer;
-- 
2.43.0


From 5026256e63b8c418188ef674c5524893c649922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 25/28] fix: the last borrow of a big-integer subtraction was
 added behind the digits

---
 sources/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index d00ed3e..8fee252 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -405,6 +405,7 @@ public:
         }
         auto& a = chunks_;
         const auto& b = rhs_digits;
+        a.push_back(0); // the borrow of the last digit (always 0) is stored, too
 
         // calculate
         for (int i = 0; i < b.size(); ++i)
-- 
2.43.0


From 8a925a287803f493bad24815537b6710ea0732ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 26/28] fix: reading a fraction or complex number at the end of
 the input must not fail the stream

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 402ebf7..32ce307 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -238,7 +238,7 @@ public:
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space, ok (peek at the end would fail the stream)
         {
             complex = real;
             return is;
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index f49ce69..a4bb156 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -307,7 +307,7 @@ public:
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space, ok (peek at the end would fail the stream)
         {
             fraction = num;
             return is;
@@ -320,7 +320,7 @@ public:
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-        if (!(is >> den) || c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (!(is >> den) || c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From dc5f8b161c78a87f68d1f7499bf18ce94bd5d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 27/28] fix: reading a complex number accepted "1.2.3j" as
 1.2+0.3j

---
 sources/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 32ce307..d680850 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -256,7 +256,7 @@ public:
 
         double imag;
         char c;
-        if (!(is >> imag >> c) || c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        if ((is.peek() != '+' && is.peek() != '-') || !(is >> imag >> c) || c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1.2.3j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
-- 
2.43.0


From 2d43fabbcff379619dd438e3282c85c4240a08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:54 +0000
Subject: [PATCH 28/28] fix: converting a big integer to a built-in integer
 rejects values that do not fit

---
 sources/int.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 8fee252..9dac062 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -692,9 +692,18 @@ public:
         T result = 0;
         for (int i = chunks_.size() - 1; i >= 0; --i) // i = -1 if is zero, ok
         {
-            result = result * BASE + chunks_[i];
+            const int digit = sign_ * chunks_[i];
+            if constexpr (std::is_integral_v<T>)
+            {
+                constexpr T max = std::numeric_limits<T>::max(), min = std::numeric_limits<T>::min();
+                if (sign_ > 0 ? result > max / BASE || (result == max / BASE && digit > int(max % BASE)) : result < min / BASE || (result == min / BASE && digit < int(min % BASE)))
+                {
+                    throw std::runtime_error("Error: Integer out of range.");
+                }
+            }
+            result = result * BASE + digit;
         }
-        return result * sign_;
+        return result;
     }
 
     /*
-- 
2.43.0

