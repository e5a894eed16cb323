From 7e1f9e76f1d5d4c1845de1b44645fe274adbbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 01/32] fix: do not truncate 64-bit limbs to int in big_num
 reductions

std::reduce accumulates in the type of its initial value; with a plain int
any_set, is_one, fit_in_64 and == lost the upper 32 bits of every limb.
---
 include/logic/big_num.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..b07af72 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -466,7 +466,7 @@ public:
                 return true;
             } else {
                 // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
+                return std::reduce(values.begin() + op_s, values.end(), big_num_holder_type{0},
                                    [](auto a, auto b) { return a | b; }) == 0;
             }
         } else {
@@ -474,7 +474,7 @@ public:
                 if (values[i] != op.values[i]) return false;
             }
             // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
+            return std::reduce(op.values.begin() + s, op.values.end(), big_num_holder_type{0},
                                [](auto a, auto b) { return a | b; }) == 0;
         }
         return true;
@@ -771,7 +771,8 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), big_num_holder_type{0},
+                             [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -787,7 +788,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -806,13 +808,14 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
-                                                   [](auto a, auto b) { return a | b; }) == 0u);
+            return values[0] == 1u &&
+                   (std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
+                                [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From b3c0ceb40ac9ea9f48d2e30003a3de7200d2ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 02/32] fix: sign extension of a non-negative big_num must fill
 zeros

---
 include/logic/big_num.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index b07af72..e98206d 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -113,7 +113,7 @@ public:
             big_num<op_size, signed_> result;
             for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
-            if constexpr (signed_) {
+            if (this->operator[](size - 1) && signed_) {
                 for (uint64_t i = size; i < op_size; i++) {
                     result.set(i, true);
                 }
-- 
2.43.0


From f8b91d802a910a6e275d543f142f18bded7c0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 03/32] fix: keep the unused bits of the top limb zero in
 big_num results

~ tried to clear them through set(), which ignores indices past the size;
+, - and * of widths that are not a multiple of 64, and literals longer than
the width, left them set, which broke comparisons and division.
---
 include/logic/big_num.hh | 13 ++++++++-----
 include/logic/bit.hh     |  1 +
 include/logic/logic.hh   |  2 ++
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index e98206d..7d18f32 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -147,7 +147,7 @@ public:
         return std::accumulate(values.begin(), values.end(), std::popcount);
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         // mask off bit that's excessive bit
         auto constexpr amount = s * 64 - size;
         auto constexpr mask = std::numeric_limits<uint64_t>::max() >> amount;
@@ -170,9 +170,7 @@ public:
             result.values[i] = ~values[i];
         }
         // mask off the top bit, if any
-        for (auto i = size; i < s * big_num_threshold; i++) {
-            result.set(i, false);
-        }
+        result.mask_off();
         return result;
     }
 
@@ -581,6 +579,7 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        result.mask_off();
         return result;
     }
 
@@ -632,6 +631,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -900,7 +900,10 @@ public:
     [[nodiscard]] uint64_t to_uint64() const { return values[0]; }
 
     // constructors
-    constexpr explicit big_num(std::string_view v) { util::parse_raw_str(v, size, values.data()); }
+    constexpr explicit big_num(std::string_view v) : values({}) {
+        util::parse_raw_str(v, size, values.data());
+        mask_off();
+    }
 
     template <typename T>
     requires std::is_arithmetic_v<T>
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..e2e526b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1002,6 +1002,7 @@ public:
             value = static_cast<T>(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
+            value.mask_off();
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..345a02b 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1018,6 +1018,8 @@ public:
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
+            value.mask_off();
+            xz_mask.mask_off();
         }
     }
 
-- 
2.43.0


From e444adef6468a56b17b75d8e17553ab0ff00af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 04/32] fix: big_num multiplication wrote partial products past
 the last limb

---
 include/logic/big_num.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 7d18f32..e68332d 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -650,12 +650,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From bc38e92659c1ba9f5053bb991ed3d8d1d7c5e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 05/32] fix: comparison of signed big_num values

== did not compile for signed operands, > recursed forever on the most
negative value and inverted the order of two negative numbers, and operands
of different widths were compared without extension.
---
 include/logic/big_num.hh | 53 +++++++++-------------------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index e68332d..1fccaa0 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -437,45 +437,13 @@ public:
      */
     template <uint64_t op_size, bool op_signed>
     bool operator==(const big_num<op_size, op_signed> &op) const {
-        if constexpr (signed_ && op_signed) {
-            // doing signed comparison
-            if constexpr (op_size > size) {
-                // extend itself
-                auto t = this->template extend<op_size>();
-                auto constexpr op_s = big_num<op_size, op_signed>::s;
-                for (auto i = 0u; i < op_s; i++) {
-                    if (t.values[i] != op.values[i]) return false;
-                }
-                return true;
-            } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
-                    if (values[i] != op_t.values[i]) return false;
-                }
-                return true;
-            }
-        }
-        auto constexpr op_s = big_num<op_size, op_signed>::s;
-        if constexpr (s >= op_s) {
-            for (auto i = 0u; i < op_s; i++) {
-                if (values[i] != op.values[i]) return false;
-            }
-            if constexpr (s == op_s) {
-                return true;
-            } else {
-                // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), big_num_holder_type{0},
-                                   [](auto a, auto b) { return a | b; }) == 0;
-            }
+        // each operand is extended based on its own sign to the larger size
+        auto constexpr target_size = util::max(size, op_size);
+        if constexpr (op_size != size) {
+            return this->template extend<target_size>() == op.template extend<target_size>();
         } else {
-            for (auto i = 0u; i < s; i++) {
-                if (values[i] != op.values[i]) return false;
-            }
-            // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), big_num_holder_type{0},
-                               [](auto a, auto b) { return a | b; }) == 0;
+            return values == op.values;
         }
-        return true;
     }
 
     template <typename T>
@@ -495,11 +463,12 @@ public:
             }
             // if it's both positive or both negative, we fall back to the normal comparison
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
-            }
+            // notice that 2's complement numbers of the same sign are ordered as unsigned numbers
+        }
+        if constexpr (op_size != size) {
+            // each operand is extended based on its own sign to the larger size
+            auto constexpr target_size = util::max(size, op_size);
+            return this->template extend<target_size>() > op.template extend<target_size>();
         }
         // from top to bottom comparison
         auto top = util::max(s, big_num<op_size, op_signed>::s);
-- 
2.43.0


From 41ddebb9479f5fa66f579151ab008fd3b9163880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 06/32] fix: big_num division of signed operands

It called a function that does not exist, with the unconverted divisor, and
gave the remainder the sign of the quotient instead of the dividend's.
---
 include/logic/big_num.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 1fccaa0..6a0c3b7 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -803,16 +803,22 @@ public:
         }
         if constexpr (result_signed) {
             // this implies that both of them are signed numbers
-            auto op_pos = op.negative() ? op.negate() : op;
-            auto this_pos = negative() ? negate() : *this;
-            std::tie(q, r) = this_pos.div_mode_(op);
+            big_num<size, false> op_pos = op.negative() ? op.negate() : op;
+            big_num<size, false> this_pos = negative() ? negate() : *this;
+            std::tie(q, r) = this_pos.div_mod_unsigned(op_pos);
             // if both of them are negative or positive, the sign will cancel out
             if (op.negative() ^ negative()) {
                 q = q.negate();
+            }
+            // the remainder has the sign of the dividend
+            if (negative()) {
                 r = r.negate();
             }
         } else {
-            std::tie(q, r) = div_mod_unsigned(op);
+            big_num<size, false> unsigned_this, unsigned_op;
+            unsigned_this.values = values;
+            unsigned_op.values = op.values;
+            std::tie(q, r) = unsigned_this.div_mod_unsigned(unsigned_op);
         }
         return {q, r};
     }
-- 
2.43.0


From 6761e88ef70624a613860e14bfd29afb33e01578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 07/32] fix: reductions looked at the wrong bits

An x or z before the deciding 0 (and) or 1 (or) made the result x, the parity
counted the zeros, two-state and reduced to the parity on big numbers and
compared with a signed maximum on signed ones, and several instances did not
compile (popcount of signed, 1-bit and big values, r_xor of native values).
---
 include/logic/big_num.hh | 17 +++--------------
 include/logic/bit.hh     | 21 ++++++++++-----------
 include/logic/logic.hh   | 21 +++++++--------------
 3 files changed, 20 insertions(+), 39 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 6a0c3b7..d54d13d 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -144,7 +144,8 @@ public:
     }
 
     [[maybe_unused]] [[nodiscard]] uint64_t popcount() const {
-        return std::accumulate(values.begin(), values.end(), std::popcount);
+        return std::accumulate(values.begin(), values.end(), uint64_t{0},
+                               [](auto a, auto b) { return a + std::popcount(b); });
     }
 
     constexpr void mask_off() {
@@ -297,19 +298,7 @@ public:
     // reduction
     [[maybe_unused]] [[nodiscard]] bool r_and() const {
         // only if all the bit are set
-        auto b = std::all_of(values.begin(), values.begin() + s - 1, [](auto const v) {
-            return v == std::numeric_limits<uint64_t>::max();
-        });
-        if constexpr (values.size() * 8 == size) {
-            return b;
-        } else {
-            if (b) return false;
-
-            for (uint64_t i = (values.size() - 1); i < s; i++) {
-                if (!get(i)) return false;
-            }
-        }
-        return true;
+        return all_set();
     }
 
     [[maybe_unused]] [[nodiscard]] bool r_xor() const {
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e2e526b..3ef182e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -317,7 +317,7 @@ public:
 
     [[nodiscard]] uint64_t popcount() const {
         if constexpr (native_num) {
-            return std::popcount(value);
+            return std::popcount(static_cast<uint64_t>(value) & value_mask_());
         } else {
             return value.popcount();
         }
@@ -458,11 +458,10 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        return all_set();
     }
 
-    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
+    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_and(); }
 
     [[maybe_unused]] [[nodiscard]] bool r_nand() const { return !r_and(); }
 
@@ -471,11 +470,7 @@ public:
     [[maybe_unused]] [[nodiscard]] bool r_nor() const { return !r_or(); }
 
     [[nodiscard]] bool r_xor() const requires(native_num) {
-        bool b = get<0>();
-        for (auto i = 1; i < size; i++) {
-            b = b ^ get(i);
-        }
-        return b;
+        return popcount() % 2;
     }
 
     [[nodiscard]] bool r_xor() const requires(!native_num) { return value.r_xor(); }
@@ -919,8 +914,7 @@ public:
 
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
-            auto constexpr max = value_mask(size);
-            return value == max;
+            return (static_cast<uint64_t>(value) & value_mask_()) == value_mask_();
         } else {
             return value.all_set();
         }
@@ -1085,6 +1079,11 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
+    // a mask that covers every bit of the native holder in use
+    static constexpr uint64_t value_mask_() requires(native_num) {
+        return std::numeric_limits<uint64_t>::max() >> (64ull - size);
+    }
+
     [[nodiscard]] T value_mask(uint64_t requested_size) const {
         auto mask = std::numeric_limits<uint64_t>::max();
         mask = mask >> (64ull - requested_size);
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 345a02b..37ccb9b 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -485,29 +485,23 @@ public:
     [[nodiscard]] logic<0> r_and() const {
         // zero trump everything
         // brute force way to compute
-        for (auto i = 0u; i < size; i++) {
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
-            if (!b && !m)
-                return zero_();
-            else if (m)
-                return x_();
+            if (!b && !m) return zero_();
         }
-        return one_();
+        return xz_mask.any_set() ? x_() : one_();
     }
 
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
 
     [[nodiscard]] logic<0> r_or() const {
-        for (auto i = 0u; i < size; i++) {
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
-            if (b && !m)
-                return one_();
-            else if (m)
-                return x_();
+            if (b && !m) return one_();
         }
-        return zero_();
+        return xz_mask.any_set() ? x_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_nor() const { return !r_or(); }
@@ -522,8 +516,7 @@ public:
         // if x/z is set, it's always x
         if (xz_mask.any_set()) return x_();
         auto bits_count = value.popcount();
-        auto zeros = size - bits_count;
-        return (zeros % 2) ? one_() : zero_();
+        return (bits_count % 2) ? one_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_xnor() const { return !r_xor(); }
-- 
2.43.0


From 818a9a68b438e97bbd7b1149738b925b1e5449f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 08/32] fix: single bit access outside zero-based descending
 ranges

Reads ignored the lower bound of the range and writes mirrored ascending
ranges around the wrong bound, big numbers were written at the unadjusted
index through bit<0>, and out of range accesses were undefined shifts. The
1-bit result of an x/z read was also marked at the index of the source.
---
 include/logic/bit.hh   | 51 ++++++++++++++++++++----------------------
 include/logic/logic.hh | 11 ++++-----
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3ef182e..11ad118 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -47,7 +47,8 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size && native_num) [[nodiscard]] bit<0> inline get() const requires(!array) {
+    requires(idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb))
+        [[nodiscard]] bit<0> inline get() const requires(!array) {
         return this->operator[](idx);
     }
 
@@ -67,16 +68,17 @@ public:
     }
 
     void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
+        auto i = bit_position(idx);
+        // writing to a bit out of range has no effect
+        if (i >= size) [[unlikely]]
+            return;
         if constexpr (native_num) {
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.set(i, v);
         }
@@ -84,33 +86,21 @@ public:
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
+        constexpr auto i = bit_position(idx);
         if constexpr (native_num) {
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i>(v);
         }
     }
 
     void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
+        set(idx, static_cast<bool>(v.value));
     }
 
     template <int idx>
@@ -120,14 +110,14 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
+        constexpr auto i = bit_position(idx);
         if constexpr (native_num) {
             if constexpr (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i, v>();
         }
@@ -1090,14 +1080,21 @@ private:
         return static_cast<T>(mask);
     }
 
+    // map an index in the declared range to the position in the holder
+    static constexpr uint64_t bit_position(int idx) {
+        return static_cast<uint64_t>(big_endian ? (static_cast<int64_t>(idx) - lsb)
+                                                : (static_cast<int64_t>(lsb) - idx));
+    }
+
     [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
+        auto i = bit_position(idx);
+        // out of range access is 0
+        if (i >= size) [[unlikely]]
+            return bit<0>(false);
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
+            return bit<0>((value >> i) & 1);
         } else {
-            return bit<0>(value[idx]);
+            return bit<0>(value[i]);
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 37ccb9b..f54d2dc 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -55,9 +55,9 @@ public:
         if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
             logic<0> r;
             if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
+                r.set_x(0);
             } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
+                r.set_z(0);
             } else {
                 r.value = value[idx];
                 r.xz_mask.value = false;
@@ -70,12 +70,13 @@ public:
     }
 
     template <int idx>
-    requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
+    requires(idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb))
+        [[nodiscard]] inline logic<0> get() const requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
+            r.template set_x<0>();
         } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
+            r.template set_z<0>();
         } else {
             r.value = value.template get<idx>();
         }
-- 
2.43.0


From 50d99d95d13c68d1ef9a1319581605be6616dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 09/32] fix: keep native values canonical for their width

Results and conversions on widths below the holder size kept the carry out or
the wrong sign bits in the unused part of the holder, so later comparisons,
divisions, shifts and conversions saw a different value; assigning to 1-bit
took any non-zero number as 1, and assignments between native and big numbers
did not compile. Signed 1-bit values now have a signed holder.
---
 include/logic/big_num.hh |  4 +-
 include/logic/bit.hh     | 82 ++++++++++++++++++++++++++++++----------
 include/logic/logic.hh   |  4 +-
 include/logic/util.hh    |  2 +-
 4 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index d54d13d..ca0259e 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -871,8 +871,8 @@ public:
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-    explicit constexpr big_num(T v) : values({v}) {
-        if constexpr (signed_) {
+    explicit constexpr big_num(T v) : values({static_cast<big_num_holder_type>(v)}) {
+        if constexpr (std::is_signed_v<T>) {
             if (v < 0) {
                 for (auto i = 1u; i < s; i++) {
                     values[i] = std::numeric_limits<big_num_holder_type>::max();
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 11ad118..e3643fd 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -313,13 +313,14 @@ public:
         }
     }
 
-    void mask_off() {
+    // bring the holder to its canonical form: the unused bits are zero, or copies of the
+    // top bit if it is signed
+    constexpr void mask_off() {
         if constexpr (native_num) {
-            if constexpr (size > 1) {
-                auto constexpr amount = sizeof(T) * 8 - size;
-                auto constexpr mask_max = bit_mask();
-                auto mask = mask_max >> amount;
-                value &= mask;
+            if constexpr (!std::is_same_v<T, bool>) {
+                auto v = static_cast<uint64_t>(value) & value_mask_();
+                if (signed_ && ((v >> (size - 1)) & 1)) v |= ~value_mask_();
+                value = static_cast<T>(v);
             }
         } else {
             value.mask_off();
@@ -344,6 +345,7 @@ public:
         } else {
             result.value = ~value;
         }
+        result.mask_off();
         return result;
     }
 
@@ -358,6 +360,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -391,6 +394,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -424,6 +428,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
@@ -685,11 +690,13 @@ public:
     }
 
     constexpr bit<msb, lsb, signed_> operator-() const {
+        bit<msb, lsb, signed_> result;
         if constexpr (native_num) {
-            return bit<msb, lsb, signed_>(-value);
+            result = -value;
         } else {
-            return bit<msb, lsb, signed_>(value.negate());
+            result.value = value.negate();
         }
+        return result;
     }
 
     constexpr auto operator+() const { return *this; }
@@ -709,6 +716,7 @@ public:
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value + op.value;
+        result.mask_off();
         return result;
     }
 
@@ -733,6 +741,7 @@ public:
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value - op.value;
+        result.mask_off();
         return result;
     }
 
@@ -757,6 +766,7 @@ public:
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value * op.value;
+        result.mask_off();
         return result;
     }
 
@@ -781,6 +791,7 @@ public:
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value % op.value;
+        result.mask_off();
         return result;
     }
 
@@ -805,6 +816,7 @@ public:
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value / op.value;
+        result.mask_off();
         return result;
     }
 
@@ -826,6 +838,7 @@ public:
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
             }
+            res.mask_off();
         } else {
             res.value = value.to_signed();
         }
@@ -840,6 +853,7 @@ public:
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
             }
+            res.mask_off();
         } else {
             // big number is always unsigned
             res.value = value;
@@ -862,8 +876,9 @@ public:
             if constexpr (size == 1) {
                 value = true;
             } else {
-                value = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
+                value = static_cast<T>(value_mask_());
             }
+            mask_off();
         } else {
             value.mask();
         }
@@ -887,7 +902,7 @@ public:
             value = (~value) + 1;
             mask_off();
         } else {
-            return value.negate();
+            value = value.negate();
         }
     }
 
@@ -983,21 +998,26 @@ public:
      */
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
-            value = static_cast<T>(util::parse_raw_str(v));
+            // only the bits in range are kept
+            *this = util::parse_raw_str(v);
         } else {
             util::parse_raw_str(v, size, value.values.data());
             value.mask_off();
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    template <typename K>
+    requires(std::is_arithmetic_v<K> &&util::native_num(size)) explicit constexpr bit(K v) {
+        *this = v;
+    }
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
-    explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+    explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold) {
+        *this = big_num.values[0];
+    }
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
@@ -1015,19 +1035,24 @@ public:
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
     bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+        assign_(b);
         return *this;
     }
 
-    template <typename T>
-    bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
-        value = v;
+    template <typename K>
+    constexpr bit &operator=(K v) requires(std::is_arithmetic<K>::value) {
+        if constexpr (native_num) {
+            value = static_cast<T>(std::is_same_v<T, bool> ? static_cast<uint64_t>(v) & 1 : v);
+            mask_off();
+        } else {
+            value = big_num<size, signed_>(v);
+        }
         return *this;
     }
 
     template <int new_msb, int new_lsb>
     constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+        assign_(b);
     }
 
     static constexpr bit<0> one_() {
@@ -1037,6 +1062,25 @@ public:
     }
 
 private:
+    // copy the value over, truncated or extended (based on the sign of b) to the current size
+    template <typename V>
+    constexpr void assign_(const V &b) {
+        if constexpr (V::native_num && native_num) {
+            *this = b.value;
+        } else if constexpr (native_num) {
+            *this = b.value.values[0];
+        } else {
+            if constexpr (V::native_num) {
+                value.values = b.template extend<size>().value.values;
+            } else if constexpr (V::size <= size) {
+                value.values = b.value.template extend<size>().values;
+            } else {
+                std::copy_n(b.value.values.begin(), value.values.size(), value.values.begin());
+            }
+            mask_off();
+        }
+    }
+
     /*
      * unpacking, which is basically slicing as syntax sugars
      */
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f54d2dc..ae9c4ab 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1007,8 +1007,8 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
-            xz_mask.value = util::parse_xz_raw_str(v);
+            value = util::parse_raw_str(v);
+            xz_mask = util::parse_xz_raw_str(v);
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..cc0d44a 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -89,7 +89,7 @@ struct get_holder_type<s, signed_, typename std::enable_if<in_range(s, 1, 1) &&
 
 template <uint64_t s, bool signed_>
 struct get_holder_type<s, signed_, typename std::enable_if<in_range(s, 1, 1) && signed_>::type> {
-    using type = bool;
+    using type = int8_t;
 };
 
 template <uint64_t s, bool signed_>
-- 
2.43.0


From 0402d26622ab6900d0c6c01bb95d56e8cf626840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 10/32] fix: sign extension of x and z

Extending or assigning a signed value whose top bit is x or z to a wider one
filled the new bits with known digits instead of repeating x or z.
---
 include/logic/logic.hh | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index ae9c4ab..72f0856 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -230,7 +230,12 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        // x/z in the sign bit is extended as well
+        if constexpr (signed_) {
+            result.xz_mask = xz_mask.to_signed().template extend<target_size>();
+        } else {
+            result.xz_mask = xz_mask.template extend<target_size>();
+        }
         return result;
     }
 
@@ -1034,7 +1039,7 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
         value = b.value;
-        xz_mask = b.xz_mask;
+        assign_mask_(b);
         return *this;
     }
 
@@ -1048,7 +1053,7 @@ public:
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
         value = b.value;
-        xz_mask = b.xz_mask;
+        assign_mask_(b);
     }
 
     // useful constants
@@ -1074,6 +1079,16 @@ public:
     }
 
 private:
+    // x/z in the sign bit is extended as well
+    template <typename V>
+    constexpr void assign_mask_(const V &b) {
+        if constexpr (V::is_signed) {
+            xz_mask = b.xz_mask.to_signed();
+        } else {
+            xz_mask = b.xz_mask;
+        }
+    }
+
     void unmask_bit(uint64_t idx) { xz_mask.set(idx, false); }
 
     template <uint64_t idx>
-- 
2.43.0


From 94d5bb93049a4bb0a5b7db2747c7a723e69ea27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 11/32] fix: a signed bit operand lost its sign in mixed
 logic/bit expressions

---
 include/logic/logic.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 72f0856..024f0d3 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1194,6 +1194,10 @@ protected:
     }
 };
 
+// keep the sign when a bit is used as logic
+template <int msb, int lsb, bool signed_>
+logic(const bit<msb, lsb, signed_> &) -> logic<msb, lsb, signed_>;
+
 inline namespace literals {
 // constexpr to parse SystemVerilog literals
 // per LRM, if size not specified, the default size is 32
-- 
2.43.0


From eea5884cfecde3cf937c48ebdcc0af03e2c781e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 12/32] fix: four-state & and | did not commute with x/z on the
 left

The second half of the x/z mask tested the x/z operand itself instead of the
known digit of the other side, z & z stayed z, and ^ of operands of different
widths computed |.
---
 include/logic/logic.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 024f0d3..fa0f50d 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -325,9 +325,10 @@ public:
         // only happens between 1 and x/z. Notice that 1 is encoded as (1, 0) and x is (, 1)
         //
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z & 1
-        result.value &= ~mask;
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
         result.xz_mask |= mask;
+        // z becomes x
+        result.value &= ~result.xz_mask;
 
         return result;
     }
@@ -391,7 +392,7 @@ public:
         // z x x x x
         // compute the mask for case // 1 & x/z and x/z & 1
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   | x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z | 1
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z | 1
         result.value |= mask;
         result.xz_mask &= ~mask;
         return result;
@@ -462,7 +463,7 @@ public:
         const logic<op_msb, op_lsb, op_signed> &op) const {
         auto l = this->template extend<target_size>();
         auto r = op.template extend<target_size>();
-        auto result = l | r;
+        auto result = l ^ r;
         return result;
     }
 
-- 
2.43.0


From 9587272594f12335794d2f3bd5a962e026310ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 13/32] fix: compound assignment with operands of another sign
 or width

They returned a reference to a different type, so that four-state & | ^ of two
signed values did not compile either, and truncated a wider big number by
copying its array.
---
 include/logic/bit.hh   | 28 ++++++++++------------------
 include/logic/logic.hh | 10 +++++-----
 2 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e3643fd..0a62f61 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -375,11 +375,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
+    auto &operator&=(
         const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) & op;
-        value = res.value;
-        mask_off();
+        assign_((*this) & op);
         return *this;
     }
 
@@ -409,11 +407,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
+    auto &operator^=(
         const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) ^ op;
-        value = res.value;
-        mask_off();
+        assign_((*this) ^ op);
         return *this;
     }
 
@@ -443,11 +439,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
+    auto &operator|=(
         const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) | op;
-        value = res.value;
-        mask_off();
+        assign_((*this) | op);
         return *this;
     }
 
@@ -519,10 +513,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
+    auto &operator>>=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) >> amount;
-        value = res.value;
+        assign_((*this) >> amount);
         return *this;
     }
 
@@ -550,10 +543,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
+    auto &operator<<=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) << amount;
-        value = res.value;
+        assign_((*this) << amount);
         return *this;
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index fa0f50d..31695cb 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -349,7 +349,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
+    auto &operator&=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) & op;
         this->value = res.value;
@@ -414,7 +414,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
+    auto &operator|=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) | op;
         this->value = res.value;
@@ -468,7 +468,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
+    auto &operator^=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) ^ op;
         this->value = res.value;
@@ -572,7 +572,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
+    auto &operator>>=(
         const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
         value = res.value;
@@ -600,7 +600,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
+    auto &operator<<=(
         const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
         value = res.value;
-- 
2.43.0


From 4d339a8968b129b54293a4a3e277516bde126947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 14/32] fix: native shifts by arbitrary amounts

The amount was cast to the type of the shifted value and used as a C++ shift
count even when it was negative or at least as large as the holder, and
shifting a native value by a big number did not compile.
---
 include/logic/bit.hh | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 0a62f61..d38fbdd 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -473,16 +473,17 @@ public:
         // 1. both of them are native number
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
             // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
+            uint64_t const num = amount.to_unsigned().value;
+            if (num < size) res = (static_cast<uint64_t>(value) & value_mask_()) >> num;
         } else if constexpr ((!native_num)) {
-            res.value = value >> amount.value;
+            res.value = value >> amount.to_unsigned().value;
         } else {
             // itself is a native number but amount is not
             // convert to itself as a big number
-            big_num<size, signed_> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num >> amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            big_num<size, false> big_num;
+            big_num.values[0] = static_cast<uint64_t>(value) & value_mask_();
+            auto res_num = big_num >> amount.to_unsigned().value;
+            res = res_num.values[0];
         }
 
         return res;
@@ -527,16 +528,17 @@ public:
         // clang doesn't allow accessing native_num as amount.native_num
         // see https://stackoverflow.com/a/44996066
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
+            uint64_t const num = amount.to_unsigned().value;
+            if (num < size) res = static_cast<uint64_t>(value) << num;
         } else if constexpr ((!native_num)) {
-            res.value = value << amount.value;
+            res.value = value << amount.to_unsigned().value;
         } else {
             // itself is a native number but amount is not
             // convert to itself as a big number
             big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num << amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            big_num.values[0] = static_cast<uint64_t>(value) & value_mask_();
+            auto res_num = big_num << amount.to_unsigned().value;
+            res = res_num.values[0];
         }
 
         return res;
@@ -556,16 +558,16 @@ public:
         // 1. both of them are native number
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
             // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
+            uint64_t const num = amount.to_unsigned().value;
+            // shifting by more than the size only leaves the sign bit
+            res = num < size ? value >> num : (negative() ? -1 : 0);
         } else if constexpr ((!native_num)) {
-            res.value = value.ashr(amount.value);
+            res.value = value.ashr(amount.to_unsigned().value);
         } else {
             // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num.ashr(amount);
-            res.value = static_cast<T>(res_num.values[0]);
+            auto const &num = amount.value;
+            bool const in_range = num.fit_in_64() && num.values[0] < size;
+            res = in_range ? value >> num.values[0] : (negative() ? -1 : 0);
         }
 
         return res;
@@ -1110,12 +1112,6 @@ private:
         return std::numeric_limits<uint64_t>::max() >> (64ull - size);
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
-        auto mask = std::numeric_limits<uint64_t>::max();
-        mask = mask >> (64ull - requested_size);
-        return static_cast<T>(mask);
-    }
-
     // map an index in the declared range to the position in the holder
     static constexpr uint64_t bit_position(int idx) {
         return static_cast<uint64_t>(big_endian ? (static_cast<int64_t>(idx) - lsb)
-- 
2.43.0


From 11d3703052938efa528d5f8febb56ba7ecf12e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 15/32] fix: comparisons across widths, signs and holders

== and != truncated the right operand to the left one's holder, the others
read a narrower signed operand of a mixed-sign comparison as 64 bits wide, and
comparing a native with a big number did not compile or fell off the end.
---
 include/logic/bit.hh | 74 ++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index d38fbdd..6bed319 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -127,7 +127,9 @@ public:
      * relates to whether it's negative or not
      */
     [[nodiscard]] bool negative() const {
-        if constexpr (native_num) {
+        if constexpr (!signed_) {
+            return false;
+        } else if constexpr (native_num) {
             return value < 0;
         } else {
             return value.negative();
@@ -216,7 +218,13 @@ public:
     template <uint64_t target_size>
     requires(target_size == size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return *this;
+        if constexpr (lsb == 0 && big_endian) {
+            return *this;
+        } else {
+            bit<target_size - 1, 0, signed_> result;
+            result.value = value;
+            return result;
+        }
     }
 
     // new size is smaller. this is just a slice
@@ -581,20 +589,18 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
-        } else {
-            return value == v.value;
-        }
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        auto const l = this->template extend<target_size>().to_unsigned();
+        auto const r = v.template extend<target_size>().to_unsigned();
+        return l.value == r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
-        } else {
-            return value != v.value;
-        }
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        auto const l = this->template extend<target_size>().to_unsigned();
+        auto const r = v.template extend<target_size>().to_unsigned();
+        return l.value != r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -614,10 +620,15 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value > v.value;
             } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                auto const l = this->template extend<target_size>().to_unsigned();
+                auto const r = v.template extend<target_size>().to_unsigned();
+                return l.value > r.value;
             }
-        } else if constexpr (!native_num) {
-            return value > v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value >
+                   v.template extend<target_size>().value;
         }
     }
 
@@ -633,10 +644,15 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value < v.value;
             } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                auto const l = this->template extend<target_size>().to_unsigned();
+                auto const r = v.template extend<target_size>().to_unsigned();
+                return l.value < r.value;
             }
-        } else if constexpr (!native_num) {
-            return value < v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value <
+                   v.template extend<target_size>().value;
         }
     }
 
@@ -652,10 +668,15 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value >= v.value;
             } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                auto const l = this->template extend<target_size>().to_unsigned();
+                auto const r = v.template extend<target_size>().to_unsigned();
+                return l.value >= r.value;
             }
-        } else if constexpr (!native_num) {
-            return value >= v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value >=
+                   v.template extend<target_size>().value;
         }
     }
 
@@ -671,10 +692,15 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value <= v.value;
             } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                auto const l = this->template extend<target_size>().to_unsigned();
+                auto const r = v.template extend<target_size>().to_unsigned();
+                return l.value <= r.value;
             }
-        } else if constexpr (!native_num) {
-            return value <= v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value <=
+                   v.template extend<target_size>().value;
         }
     }
 
-- 
2.43.0


From 1e44ae2dd792bd8111c2e5712802ca4728fdb035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 16/32] fix: native division by zero and of signed operands

Division by zero and of the most negative value by -1 raised SIGFPE, and
mixed-sign operands below 32 bits were divided as signed integers.
---
 include/logic/bit.hh | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 6bed319..4c17fdc 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -810,8 +810,23 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value % op.value;
-        result.mask_off();
+        if constexpr (native_num) {
+            // notice that if we divide by zero, we return 0, same as the big number
+            if (op.value == 0) [[unlikely]]
+                return result;
+            if constexpr (result.is_signed) {
+                // -1 is special since the most negative number doesn't have a positive counterpart
+                if (op.value == -1) {
+                    result = 0;
+                } else {
+                    result = value % op.value;
+                }
+            } else {
+                result = to_unsigned().value % op.to_unsigned().value;
+            }
+        } else {
+            result.value = value % op.value;
+        }
         return result;
     }
 
@@ -835,8 +850,23 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value / op.value;
-        result.mask_off();
+        if constexpr (native_num) {
+            // notice that if we divide by zero, we return 0, same as the big number
+            if (op.value == 0) [[unlikely]]
+                return result;
+            if constexpr (result.is_signed) {
+                // -1 is special since the most negative number doesn't have a positive counterpart
+                if (op.value == -1) {
+                    result = -*this;
+                } else {
+                    result = value / op.value;
+                }
+            } else {
+                result = to_unsigned().value / op.to_unsigned().value;
+            }
+        } else {
+            result.value = value / op.value;
+        }
         return result;
     }
 
-- 
2.43.0


From b8c5acf5a7f92505b45e2703b15649cca66f66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 17/32] fix: part selects of signed values and 65-bit part
 selects

A select from a signed native value took one bit too many, shifted the sign
in when it reached the top bit, and a 65-bit select did not compile.
---
 include/logic/bit.hh | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 4c17fdc..e196998 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -150,7 +150,7 @@ public:
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
+    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b) + 1) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         auto res = value.template slice<a, b>();
@@ -163,7 +163,7 @@ public:
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
+    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b) + 1) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         result.value = value.template slice<a, b>();
@@ -1220,14 +1220,8 @@ protected:
         } else {
             constexpr auto default_mask = bit_mask();
             uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
-            } else {
-                shmnt = 1;
-            }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
+            mask &= (default_mask >> (t_size - max - 1));
+            result = (static_cast<uint64_t>(value) & mask) >> min;
         }
         return result;
     }
@@ -1244,7 +1238,7 @@ protected:
             constexpr auto default_mask = bit_mask();
             uint64_t mask = default_mask << min;
             mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
+            result = (static_cast<uint64_t>(value) & mask) >> min;
 
             return result;
         } else {
-- 
2.43.0


From ad21ab4a3a39fba241c0c118676d94ced36732c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 18/32] fix: part select updates took the wrong source bits

A two-state update read the source at the target index, and updates mixing
descending and ascending ranges subtracted the start of the target range from
a mirrored source index.
---
 include/logic/bit.hh   | 29 ++++++++---------------------
 include/logic/logic.hh | 16 ++--------------
 include/logic/util.hh  |  7 +++++++
 3 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e196998..2597255 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -981,20 +981,7 @@ public:
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            int idx;
-            if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx);
-            set(i, b);
-        }
+        this->template update_<hi, lo>(op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
@@ -1260,17 +1247,17 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx - start);
+            auto idx = util::update_index(i, hi, lo, big_endian, op_msb, op_lsb);
+            auto b = op.operator[](idx);
             set(i, b);
         }
     }
 
+    template <int hi, int lo, int op_msb, int op_lsb, bool op_signed>
+    void update_(const bit<op_msb, op_lsb, op_signed> &op) {
+        update_(hi, lo, op);
+    }
+
     // compute the mask in unsigned fashion
     static constexpr auto bit_mask() requires(native_num) {
         using TU = typename util::get_holder_type<size, false>::type;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 31695cb..6beb866 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1151,13 +1151,7 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
+            auto idx = util::update_index(i, hi, lo, big_endian, op_hi, op_lo);
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
@@ -1176,13 +1170,7 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
+            auto idx = util::update_index(i, hi, lo, big_endian, op_hi, op_lo);
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
diff --git a/include/logic/util.hh b/include/logic/util.hh
index cc0d44a..8812b04 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -77,6 +77,13 @@ constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
     return ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) || ((op1_hi < op1_lo) && (op2_hi < op2_lo));
 }
 
+// index in [op_msb:op_lsb] that is assigned to index i when [hi:lo] is updated. Both sides are
+// aligned at their least significant bit
+constexpr int update_index(int i, int hi, int lo, bool big_endian, int op_msb, int op_lsb) {
+    auto pos = big_endian ? i - min(hi, lo) : max(hi, lo) - i;
+    return op_msb >= op_lsb ? op_lsb + pos : op_lsb - pos;
+}
+
 constexpr uint64_t total_size(int msb, int lsb) { return abs_diff(msb, lsb) + 1; }
 
 template <uint64_t s, bool signed_, typename enable = void>
-- 
2.43.0


From 52297cca5b8f5ff26611fdc1b887449fecda456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 19/32] fix: array element addressing

Element accesses covered the lowest bit of the next element, the index bound
was the number of bits instead of elements and ignored the lower bound of the
range, an unpacked array dropped updates when its range does not start at
zero, and static access to two-state packed arrays did not compile.
---
 include/logic/array.hh | 23 ++++++++++++-----------
 include/logic/bit.hh   | 13 +++++++++++++
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..cd43b7e 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -79,8 +79,9 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        static const auto size_logic = logic<31, 0>(util::max(msb, lsb) + 1);
+        static const auto base_logic = logic<31, 0>(util::min(msb, lsb));
+        if (op.xz_mask.any_set() || op >= size_logic || op < base_logic) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
@@ -88,30 +89,31 @@ public:
             if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
                 index = op.value.value;
             } else {
-                index = op.value.value[0];
+                index = op.value.value.values[0];
             }
             auto idx = index - util::min(msb, lsb);
             auto start_addr = idx * base_size;
-            auto end_addr = (idx + 1) * base_size;
+            auto end_addr = (idx + 1) * base_size - 1;
             return VT::template slice<base_size>(start_addr, end_addr);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        static const auto size_logic = logic<31, 0>(util::max(msb, lsb) + 1);
+        static const auto base_logic = logic<31, 0>(util::min(msb, lsb));
+        if (op.xz_mask.any_set() || op >= size_logic || op < base_logic) [[unlikely]] {
             return;
         } else {
             int index;
             if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
                 index = op.value.value;
             } else {
-                index = op.value.value[0];
+                index = op.value.value.values[0];
             }
             auto idx = index - util::min(msb, lsb);
             int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
+            int end_addr = (idx + 1) * base_size - 1;
             VT::template update_(start_addr, end_addr, value);
         }
     }
@@ -141,11 +143,10 @@ public:
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
         // need to compute the base
-        auto constexpr i = idx - util::min(msb, lsb);
+        auto constexpr i = static_cast<uint32_t>(idx - util::min(msb, lsb));
         // use the underlying logic implementation
-        value[i] = v;
+        if constexpr (i < size) value[i] = v;
     }
 
 private:
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 2597255..c525d52 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1213,6 +1213,19 @@ protected:
         return result;
     }
 
+    template <int a, int b>
+    requires(util::max(a, b) < size && !native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    constexpr inline slice_() const {
+        bit<util::abs_diff(a, b), false> result;
+        auto res = value.template slice<a, b>();
+        if constexpr (util::native_num(util::abs_diff(a, b) + 1)) {
+            result.value = res.values[0];
+        } else {
+            result.value = res;
+        }
+        return result;
+    }
+
     template <uint32_t target_size>
     [[nodiscard]] auto slice_(int a, int b) const {
         bit<target_size - 1, false> result;
-- 
2.43.0


From aa307e255a9cc53246f5200f09dabcd453c244e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 20/32] fix: concatenation lost or overwrote bits

Native two-state values were shifted in their own holder, signed low parts
were or-ed in sign extended, totals of 64 bits or more did not compile, the
mask was not shifted for a two-state low part, and a four-state concatenation
was signed like its first operand.
---
 include/logic/bit.hh   | 24 +++++++++++++-----------
 include/logic/logic.hh |  6 +++---
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c525d52..9a79c20 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -271,19 +271,21 @@ public:
     auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
-        if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+        if constexpr (util::native_num(final_size)) {
+            uint64_t const high = to_unsigned().value;
+            uint64_t const low = arg0.to_unsigned().value;
+            return bit<final_size - 1>(high << arg0_size | low);
         } else {
+            auto to_big_num = [](const auto &b) {
+                using B = std::decay_t<decltype(b)>;
+                if constexpr (B::native_num) {
+                    return big_num<B::size, false>(b.to_unsigned().value);
+                } else {
+                    return b.to_unsigned().value;
+                }
+            };
             auto res = bit<final_size - 1>();
-            if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
-                // convert to big num
-                big_num<arg0_size, false> b(arg0.value);
-                auto big_num = value.concat(b);
-                res.big_num = big_num;
-            } else {
-                auto big_num = value.concat(arg0.value);
-                res.big_num = big_num;
-            }
+            res.value = to_big_num(*this).concat(to_big_num(arg0));
             return res;
         }
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 6beb866..beff4c5 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -245,7 +245,7 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1>();
         res.value = value.concat(arg0.value);
         // concat masks as well
         res.xz_mask = xz_mask.concat(arg0.xz_mask);
@@ -255,10 +255,10 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1>();
         res.value = value.concat(arg0);
         // concat masks as well
-        res.xz_mask = xz_mask.template extend<final_size>();
+        res.xz_mask = xz_mask.concat(bit<arg0_msb, arg0_lsb>());
         return res;
     }
 
-- 
2.43.0


From 2631f51637544f1bc7882bb04a60feed6f4a651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 21/32] fix: unpacking of two-state values did not compile

---
 include/logic/bit.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 9a79c20..c2c7aeb 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1127,7 +1127,7 @@ private:
     requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
+        arg0 = this->template slice<base, upper_bound>();
     }
 
     template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
@@ -1152,6 +1152,11 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
+    template <int>
+    [[maybe_unused]] void unpack_() const {
+        // noop to keep gcc happy
+    }
+
     // a mask that covers every bit of the native holder in use
     static constexpr uint64_t value_mask_() requires(native_num) {
         return std::numeric_limits<uint64_t>::max() >> (64ull - size);
-- 
2.43.0


From 0724e24800b91416d3715e7e6b1ab63209b6a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 22/32] fix: parsing of literal digits

Lowercase hex digits lost their offset, x/z above bit 31 and uppercase X/Z in
binary literals were dropped, and digits beyond 64 bits were undefined shifts.
---
 src/util.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..6ef4aa1 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -57,7 +57,8 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == '1' || c == 'z') {
+                if (idx >= 64) break;
+                if (c == '1' || c == 'z' || c == 'Z') {
                     result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
@@ -71,6 +72,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
+                if (idx * 3 >= 64) break;
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == '_')
                     s = 0;
@@ -89,6 +91,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s = 0;
+                if (idx * 4 >= 64) break;
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == '_')
                     s = 0;
@@ -97,7 +100,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
                 result |= s << (idx * 4ull);
@@ -132,8 +135,9 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == 'x' || c == 'z') {
-                    result |= 1u << idx;
+                if (idx >= 64) break;
+                if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
+                    result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
             }
@@ -146,6 +150,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
+                if (idx * 3 >= 64) break;
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b111;
@@ -161,6 +166,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
+                if (idx * 4 >= 64) break;
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b1111;
-- 
2.43.0


From c11701678d0db2b2d19e81c14952b63c701610c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 23/32] fix: parsing of literals wider than 64 bits

Underscores shifted every digit above the first 64 characters, octal digits
were placed 63 per limb, and decimals were taken modulo 2^64.
---
 src/util.cc | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 6ef4aa1..d3061e7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -207,21 +207,50 @@ uint64_t get_stride(char base) {
     }
 }
 
+// underscores have no meaning except in raw strings
+std::string remove_underscore(std::string_view value, char base) {
+    std::string result(value);
+    if (base != 's' && base != 'S') std::erase(result, '_');
+    return result;
+}
+
+// set up to 64 bits at any offset
+void set_bits(uint64_t value, uint64_t offset, uint64_t num_array, uint64_t* ptr) {
+    auto const idx = offset / 64;
+    auto const shift = offset % 64;
+    if (idx < num_array) ptr[idx] |= value << shift;
+    if (shift > 0 && (idx + 1) < num_array) ptr[idx + 1] |= value >> (64 - shift);
+}
+
 void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
-    // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
-    value = value.substr(start_pos);
+    auto const digits = remove_underscore(value.substr(start_pos), base);
+    value = digits;
     auto remaining_size = value.size();
     auto end = value.size();
     auto const stride = get_stride(base);
     auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::fill(ptr, ptr + num_array, 0);
+    if (base == 'd' || base == 'D') {
+        for (auto c : value) {
+            if (c < '0' || c > '9') continue;
+            __uint128_t carry = c - '0';
+            for (auto i = 0u; i < num_array; i++) {
+                carry += static_cast<__uint128_t>(ptr[i]) * 10;
+                ptr[i] = static_cast<uint64_t>(carry);
+                carry >>= 64;
+            }
+        }
+        return;
+    }
     uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
+    while (remaining_size > 0 && (idx * batch_size * stride) < (num_array * 64)) {
         auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_raw_str_(value.substr(begin, end - begin), base);
+        set_bits(parse_raw_str_(value.substr(begin, end - begin), base), idx * batch_size * stride,
+                 num_array, ptr);
 
         idx++;
         end = begin;
@@ -231,19 +260,21 @@ void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
 
 void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
-    // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
-    value = value.substr(start_pos);
+    auto const digits = remove_underscore(value.substr(start_pos), base);
+    value = digits;
     auto remaining_size = value.size();
     auto end = value.size();
     auto const stride = get_stride(base);
     auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::fill(ptr, ptr + num_array, 0);
     uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
+    while (remaining_size > 0 && (idx * batch_size * stride) < (num_array * 64)) {
         auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_xz_raw_str_(value.substr(begin, end - begin), base);
+        set_bits(parse_xz_raw_str_(value.substr(begin, end - begin), base),
+                 idx * batch_size * stride, num_array, ptr);
 
         idx++;
         end = begin;
-- 
2.43.0


From f3203ab289621c736ba6d4292ad2d189ef798da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 24/32] fix: string formatting

Two-state values printed octal and hex digits in reverse and characters as
numbers; big numbers lost their last limb at multiples of 64 bits, mixed up
octal digits across limbs, printed nothing for a decimal 0 and the wrong number
above 128 bits; a partial top digit that is all x or z was not printed as
such, and sign bits of negative values leaked into digits and decimal x/z.
---
 include/logic/logic.hh |   2 +-
 src/util.cc            | 221 +++++++++--------------------------------
 2 files changed, 46 insertions(+), 177 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index beff4c5..6502721 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -26,7 +26,7 @@ public:
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (signed_) {
-            auto is_negative = value.negative();
+            auto is_negative = value.negative() && !xz_mask.any_set();
             if (is_negative && util::decimal_fmt(fmt)) {
                 auto value_ = value.negate().value;
                 if constexpr (util::native_num(size)) {
diff --git a/src/util.cc b/src/util.cc
index d3061e7..cf24826 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -282,15 +282,15 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     }
 }
 
-constexpr std::array<uint64_t, 128> compute_decimal_size() {
-    // we precompute 128 entries of decimal sizes. if larger than that we need to
+constexpr std::array<uint64_t, 129> compute_decimal_size() {
+    // we precompute 129 entries of decimal sizes. if larger than that we need to
     // recompute each time. no caching allowed for the sakes of concurrency since
     // we need to protect the cache with a mutex if that is the case
-    std::array<uint64_t, 128> result{};
+    std::array<uint64_t, 129> result{};
     // zero is ill-defined
     result[0] = 1;
 
-    for (auto i = 1u; i < 128; i++) {
+    for (auto i = 1u; i <= 128; i++) {
         __uint128_t value = 0;
         value = ~value;
         // shift based on the size
@@ -417,65 +417,14 @@ std::string format_value_2power(char base, uint64_t value) {
     return ss.str();
 }
 
-std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    // now print out the format
-    std::stringstream ss;
-    switch (base) {
-        case 'b':
-        case 'B': {
-            auto b = std::bitset<64>(value);
-            auto s = b.to_string().substr(64 - size);
-            // need to reverse it
-            std::reverse(s.begin(), s.end());
-            ss << s;
-            break;
-        }
-        case 'o':
-        case 'O':
-        case 'x':
-        case 'h':
-        case 'X':
-        case 'H': {
-            ss << format_value_2power(base, value);
-            break;
-        }
-        case 's':
-        case 'S':
-            for (auto i = 0u; i < size; i += 8) {
-                auto c = value >> (i * 8) & 0xFF;
-                ss << c;
-            }
-            break;
-        case 'd':
-        case 'D': {
-            if (value == 0) {
-                ss << 0;
-            } else {
-                while (value > 0) {
-                    auto r = value % 10;
-                    ss << r;
-                    value /= 10;
-                }
-            }
-            break;
-        }
-        default:;
-    }
-    return pad_result(is_negative, base, actual_size, padding, ss);
-}
-
 uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max() >> (64 - stride); }
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
     auto stride = get_stride(base);
-    const auto mask = get_mask(stride);
     std::stringstream ss;
     for (auto i = 0u; i < size; i += stride) {
+        // the top digit may be partial
+        const auto mask = get_mask(std::min<uint64_t>(stride, size - i));
         auto v = (value >> i) & mask;
         auto xz = (xz_mask >> i) & mask;
         if (xz != 0) {
@@ -570,6 +519,10 @@ std::string to_string_(std::string_view fmt, uint64_t size, uint64_t value, uint
     bool padding;
     parse_fmt(fmt, size, base, actual_size, padding);
 
+    // signed values may have sign bits beyond the size
+    value &= get_mask(size);
+    xz_mask &= get_mask(size);
+
     std::stringstream ss;
 
     // need to obey the rule of LRM 21.2.1.4
@@ -623,70 +576,15 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, uint6
     return to_string_(fmt, size, value, xz_mask, is_negative, true);
 }
 
-std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* value, bool is_negative,
-                       bool use_padding) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-
-    std::stringstream ss;
-    if (base != 'd' && base != 'D') {
-        // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
-        if (base == 'o' || base == 'O') {
-            auto num_chunks = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 3));
-            for (auto i = 0u; i < num_chunks; i++) {
-                auto start = i * 3;
-                auto value_idx = start / 64;
-                auto start_idx = start % 64;
-                // if it's across the 64-bit boundary
-                uint64_t v;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                } else {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                }
-                auto s = to_string(fmt, 3, v, false);
-                ss << s;
-            }
-        } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string(fmt, 64, value[i], false);
-            }
-            if (size % 64) {
-                ss << to_string(fmt, size % 64, value[num_array - 1], false);
-            }
-        }
-    } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-        }
-        v |= value[0];
-        auto q = v;
-        while (q != 0) {
-            auto r = q % 10;
-            ss << static_cast<uint64_t>(r);
-            q = q / 10;
-        }
-    }
-
-    if (use_padding)
-        return pad_result(is_negative, base, actual_size, padding, ss);
-    else
-        return ss.str();
+std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
+    return to_string_(fmt, size, value, 0, is_negative, true);
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
                       bool is_negative) {
-    return to_string_(fmt, size, value, is_negative, true);
+    // two-state is the same as four-state without any x/z
+    std::vector<uint64_t> const xz_mask((size + 63) / 64, 0);
+    return to_string(fmt, size, value, xz_mask.data(), is_negative);
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
@@ -712,79 +610,50 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 uint64_t xz;
                 if ((64 - start_idx) < 3) {
                     v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                    xz |= (xz_mask[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    if (value_idx + 1 < num_array) {
+                        v |= (value[value_idx + 1] << (64 - start_idx)) & 0x7;
+                        xz |= (xz_mask[value_idx + 1] << (64 - start_idx)) & 0x7;
+                    }
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
                 }
-                auto s = to_string_(fmt, 3, v, xz, false, false);
+                auto s = to_string_(fmt, std::min<uint64_t>(3, size - start), v, xz, false, false);
                 ss << s;
             }
         } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string_(fmt, 64, value[i], xz_mask[i], false, false);
-            }
-            if (size % 64) {
-                ss << to_string_(fmt, size % 64, value[num_array - 1], xz_mask[num_array - 1],
-                                 false, false);
+            for (auto i = 0u; i < num_array; i++) {
+                auto const chunk_size = std::min<uint64_t>(64, size - i * 64);
+                ss << to_string_(fmt, chunk_size, value[i], xz_mask[i], false, false);
             }
         }
 
     } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        __uint128_t xz = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-            xz |= xz_mask[1];
-            xz = xz << 64;
-        }
-        v |= value[0];
-        xz |= xz_mask[0];
-        if (xz != 0) {
-            // contains x/z
-            if ((~xz) == 0) {
-                // all x or z
-                if (v == 0) {
-                    ss << 'x';
-                } else {
-                    if ((~v) == 0) {
-                        // all z
-                        ss << 'z';
-                    } else {
-                        ss << 'X';
-                    }
-                }
-            } else {
-                // has some real digits
-                bool has_x = false;
-                for (auto i = 0u; i < size_; i++) {
-                    auto x = (xz >> i) & 1;
-                    if (x) {
-                        auto vv = (v >> i) & 1;
-                        if (vv == 0) {
-                            has_x = true;
-                            break;
-                        }
-                    }
-                }
-                if (has_x)
-                    ss << "X";
-                else
-                    ss << "Z";
-            }
+        bool has_x = false, has_z = false, has_digit = false;
+        for (auto i = 0u; i < size; i++) {
+            auto v = (value[i / 64] >> (i % 64)) & 1;
+            auto xz = (xz_mask[i / 64] >> (i % 64)) & 1;
+            has_x |= xz && !v;
+            has_z |= xz && v;
+            has_digit |= !xz;
+        }
+        if (has_x) {
+            ss << ((has_z || has_digit) ? 'X' : 'x');
+        } else if (has_z) {
+            ss << (has_digit ? 'Z' : 'z');
         } else {
-            auto q = v;
-            while (q != 0) {
-                auto r = q % 10;
+            // long division by 10
+            std::vector<uint64_t> q(value, value + num_array);
+            do {
+                __uint128_t r = 0;
+                for (auto i = num_array; i > 0; i--) {
+                    r = (r << 64) | q[i - 1];
+                    q[i - 1] = static_cast<uint64_t>(r / 10);
+                    r %= 10;
+                }
                 ss << static_cast<uint64_t>(r);
-                q = q / 10;
-            }
+            } while (std::any_of(q.begin(), q.end(), [](auto v) { return v != 0; }));
         }
     }
 
-- 
2.43.0


From 6ef047efec63a38b7df00fdc354f71f338a86f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:31 +0000
Subject: [PATCH 25/32] fix: xor of one-bit values of different signedness

---
 include/logic/bit.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c2c7aeb..44c4d43 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -401,7 +401,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value ^ op.value;
+        if constexpr (size == 1) {
+            // a one-bit holder is either a bool or 0/-1
+            result.value = (value & 1) ^ (op.value & 1);
+        } else {
+            result.value = value ^ op.value;
+        }
         result.mask_off();
         return result;
     }
-- 
2.43.0


From fae31fead1cd5f277c213f4163d710f5f311b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:11 +0000
Subject: [PATCH 26/32] fix: addition and subtraction of one-bit values

---
 include/logic/bit.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 44c4d43..764d8ab 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -742,7 +742,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value + op.value;
+        if constexpr (size == 1) {
+            // any other number converts to true if the holder is a bool
+            result.value = (value + op.value) & 1;
+        } else {
+            result.value = value + op.value;
+        }
         result.mask_off();
         return result;
     }
@@ -767,7 +772,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value - op.value;
+        if constexpr (size == 1) {
+            // any other number converts to true if the holder is a bool
+            result.value = (value - op.value) & 1;
+        } else {
+            result.value = value - op.value;
+        }
         result.mask_off();
         return result;
     }
-- 
2.43.0


From 2aeb934c05bf836894e99746496ea1d3f9ebbdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:04 +0000
Subject: [PATCH 27/32] fix: run-time part select of a one-bit value

---
 include/logic/bit.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 764d8ab..3f94077 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1251,7 +1251,9 @@ protected:
     template <uint32_t target_size>
     [[nodiscard]] auto slice_(int a, int b) const {
         bit<target_size - 1, false> result;
-        if constexpr (native_num) {
+        if constexpr (size == 1) {
+            result.value = value != 0;
+        } else if constexpr (native_num) {
             // assume the import has type-checked properly, e.g. by a compiler
             auto base = util::min(msb, lsb);
             auto max = util::max(a, b) - base;
-- 
2.43.0


From 67d66cb43878ab366fdbd59d749509d813b53cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:03 +0000
Subject: [PATCH 28/32] fix: updating a part of a vector with the vector itself

---
 include/logic/bit.hh   |  3 ++-
 include/logic/logic.hh | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3f94077..597f73d 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1278,7 +1278,8 @@ protected:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
+    void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> op) {
+        // op is a copy since it can be the vector that is being updated
         auto start = util::min(hi, lo);
         auto end = util::max(hi, lo) + 1;
         for (auto i = start; i < end; i++) {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 6502721..7dfe910 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1143,9 +1143,10 @@ protected:
     }
 
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
-                                                                    util::match_endian(hi, lo, msb,
-                                                                                       lsb)) {
+    void update_(const logic<op_hi, op_lo, op_signed> op) requires(hi < size && lo < size &&
+                                                                   util::match_endian(hi, lo, msb,
+                                                                                      lsb)) {
+        // op is a copy since it can be the vector that is being updated
         auto constexpr start = util::min(hi, lo);
         auto constexpr end = util::max(hi, lo) + 1;
         for (auto i = start; i < end; i++) {
@@ -1164,7 +1165,8 @@ protected:
     }
 
     template <int op_hi, int op_lo, bool op_signed>
-    void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
+    void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> op) {
+        // op is a copy since it can be the vector that is being updated
         auto start = util::min(hi, lo);
         auto end = util::max(hi, lo) + 1;
         for (auto i = start; i < end; i++) {
-- 
2.43.0


From e8e2affb3f9b1333192d5cc1a40b17fc7bf914f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:06 +0000
Subject: [PATCH 29/32] fix: packed arrays with negative bounds are addressed
 by their declared run-time indices

---
 include/logic/array.hh | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index cd43b7e..76f52d7 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -42,6 +42,17 @@ private:
     }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
+    // position of the addressed element, -1 if the index is unknown or outside the range. one more
+    // bit lets a signed number hold any index, so that negative bounds compare correctly
+    template <int op_msb, int op_lsb, bool op_signed>
+    static int element_(const logic<op_msb, op_lsb, op_signed> &op) {
+        if (op.xz_mask.any_set()) return -1;
+        auto const v = op.value.template extend<util::total_size(op_msb, op_lsb) + 1>().to_signed();
+        if (v < bit<31, 0, true>(util::min(msb, lsb)) || v > bit<31, 0, true>(util::max(msb, lsb)))
+            return -1;
+        return static_cast<int>(v.to_uint64()) - util::min(msb, lsb);
+    }
+
 public:
     // compute the base size
     static constexpr auto base_size = T::size;
@@ -79,19 +90,11 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(util::max(msb, lsb) + 1);
-        static const auto base_logic = logic<31, 0>(util::min(msb, lsb));
-        if (op.xz_mask.any_set() || op >= size_logic || op < base_logic) [[unlikely]] {
+        auto const idx = element_(op);
+        if (idx < 0) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value.values[0];
-            }
-            auto idx = index - util::min(msb, lsb);
             auto start_addr = idx * base_size;
             auto end_addr = (idx + 1) * base_size - 1;
             return VT::template slice<base_size>(start_addr, end_addr);
@@ -100,18 +103,10 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(util::max(msb, lsb) + 1);
-        static const auto base_logic = logic<31, 0>(util::min(msb, lsb));
-        if (op.xz_mask.any_set() || op >= size_logic || op < base_logic) [[unlikely]] {
+        auto const idx = element_(op);
+        if (idx < 0) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value.values[0];
-            }
-            auto idx = index - util::min(msb, lsb);
             int start_addr = idx * base_size;
             int end_addr = (idx + 1) * base_size - 1;
             VT::template update_(start_addr, end_addr, value);
-- 
2.43.0


From 2299d18db169c02addcb5bc5363e0c32b3eae801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:15 +0000
Subject: [PATCH 30/32] fix: highest_bit of a negative value does not count
 bits beyond the width

---
 include/logic/bit.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 597f73d..cbbdb23 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -956,7 +956,7 @@ public:
             if (value == 0)
                 return size;
             else {
-                auto r = __builtin_clzll(static_cast<uint64_t>(value));
+                auto r = __builtin_clzll(static_cast<uint64_t>(value) & value_mask_());
                 return 64 - r - 1;
             }
         } else {
-- 
2.43.0


From 5d86e373ef3caa3cf26493cdab2ff40d7078311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 31/32] fix: get with a bit index takes the declared index

---
 include/logic/logic.hh | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 7dfe910..5caf555 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -101,17 +101,13 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
+        // one more bit lets a signed number hold any index
+        auto const index = op.template extend<util::total_size(op_msb, op_lsb) + 1>().to_signed();
+        if (index < bit<31, 0, true>(util::min(msb, lsb)) ||
+            index > bit<31, 0, true>(util::max(msb, lsb))) {
+            return x_();
         }
-        return operator[](index);
+        return operator[](static_cast<int>(index.to_uint64()));
     }
 
     void set(int idx, bool v) requires(!array) {
-- 
2.43.0


From 0bc7c5a76ff83bae43e112181564fd6f54455ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 32/32] fix: sums, differences, products and negations of
 signed numbers do not overflow a C++ integer

---
 include/logic/bit.hh | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index cbbdb23..236e523 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -719,7 +719,7 @@ public:
     constexpr bit<msb, lsb, signed_> operator-() const {
         bit<msb, lsb, signed_> result;
         if constexpr (native_num) {
-            result = -value;
+            result = -static_cast<uint64_t>(value);  // signed numbers must not overflow
         } else {
             result.value = value.negate();
         }
@@ -745,6 +745,8 @@ public:
         if constexpr (size == 1) {
             // any other number converts to true if the holder is a bool
             result.value = (value + op.value) & 1;
+        } else if constexpr (native_num) {
+            result.value = static_cast<uint64_t>(value) + static_cast<uint64_t>(op.value);
         } else {
             result.value = value + op.value;
         }
@@ -775,6 +777,8 @@ public:
         if constexpr (size == 1) {
             // any other number converts to true if the holder is a bool
             result.value = (value - op.value) & 1;
+        } else if constexpr (native_num) {
+            result.value = static_cast<uint64_t>(value) - static_cast<uint64_t>(op.value);
         } else {
             result.value = value - op.value;
         }
@@ -802,7 +806,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value * op.value;
+        if constexpr (native_num) {
+            result.value = static_cast<uint64_t>(value) * static_cast<uint64_t>(op.value);
+        } else {
+            result.value = value * op.value;
+        }
         result.mask_off();
         return result;
     }
@@ -966,7 +974,7 @@ public:
 
     void negate() {
         if constexpr (native_num) {
-            value = (~value) + 1;
+            value = ~static_cast<uint64_t>(value) + 1;
             mask_off();
         } else {
             value = value.negate();
@@ -976,7 +984,7 @@ public:
     [[nodiscard]] bit<size - 1, 0> negate() const {
         bit<size - 1, 0> res;
         if constexpr (native_num) {
-            res.value = (~value) + 1;
+            res.value = ~static_cast<uint64_t>(value) + 1;
             res.mask_off();
         } else {
             res.value = value.negate();
-- 
2.43.0

