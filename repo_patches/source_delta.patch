From fd1317e17474e40a960c61aba49ea1feec086d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 01/45] fix: compound assignments return a reference to the
 object itself

The declared return type was computed from both operands, so mixed-sign or
shifted-range operands (and signed four-state & and |) could not be used.
---
 include/logic/big_num.hh | 29 ++++++++++-------------------
 include/logic/bit.hh     | 10 +++++-----
 include/logic/logic.hh   | 10 +++++-----
 3 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..629782e 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -208,14 +208,11 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator&=(
+    big_num &operator&=(
         const big_num<op_size, op_signed> &op) {
         auto v = (*this) & op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // need to size it down if the operand is wider
+        std::copy_n(v.values.begin(), s, values.begin());
         mask_off();
         return *this;
     }
@@ -246,14 +243,11 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator^=(
+    big_num &operator^=(
         const big_num<op_size, op_signed> &op) {
         auto v = (*this) ^ op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // need to size it down if the operand is wider
+        std::copy_n(v.values.begin(), s, values.begin());
         mask_off();
         return *this;
     }
@@ -284,14 +278,11 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator|=(
-        const big_num<op_size, op_signed> &op) const {
+    big_num &operator|=(
+        const big_num<op_size, op_signed> &op) {
         auto v = (*this) | op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // need to size it down if the operand is wider
+        std::copy_n(v.values.begin(), s, values.begin());
         mask_off();
         return *this;
     }
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..ab86dd7 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -382,7 +382,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
+    bit &operator&=(
         const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) & op;
         value = res.value;
@@ -415,7 +415,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
+    bit &operator^=(
         const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) ^ op;
         value = res.value;
@@ -448,7 +448,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
+    bit &operator|=(
         const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) | op;
         value = res.value;
@@ -529,7 +529,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
+    bit &operator>>=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
         value = res.value;
@@ -560,7 +560,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
+    bit &operator<<=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
         value = res.value;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..3cc3f9d 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -342,7 +342,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
+    logic &operator&=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) & op;
         this->value = res.value;
@@ -407,7 +407,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
+    logic &operator|=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) | op;
         this->value = res.value;
@@ -461,7 +461,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
+    logic &operator^=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) ^ op;
         this->value = res.value;
@@ -572,7 +572,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
+    logic &operator>>=(
         const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
         value = res.value;
@@ -600,7 +600,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
+    logic &operator<<=(
         const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
         value = res.value;
-- 
2.43.0


From 2049f95490639d9abb65b23fdce68cbb7c5ca3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 02/45] fix: do not truncate words to int when testing big
 numbers for zero/one/all ones

std::reduce was started from an int, so the upper half of every word was lost
(any_set, fit_in_64, is_one, ==) and all_set could never succeed.
---
 include/logic/big_num.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 629782e..ce50446 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -457,7 +457,7 @@ public:
                 return true;
             } else {
                 // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
+                return std::reduce(values.begin() + op_s, values.end(), 0ul,
                                    [](auto a, auto b) { return a | b; }) == 0;
             }
         } else {
@@ -465,7 +465,7 @@ public:
                 if (values[i] != op.values[i]) return false;
             }
             // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
+            return std::reduce(op.values.begin() + s, op.values.end(), 0ul,
                                [](auto a, auto b) { return a | b; }) == 0;
         }
         return true;
@@ -762,7 +762,7 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), 0ul, [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -778,7 +778,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -797,13 +798,13 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
+            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0ul,
                                                    [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), 0ul,
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From 7a343facf9b895961b9688ce9a0356727e3f62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 03/45] fix: extend a big signed number with its sign bit, not
 always with ones

---
 include/logic/big_num.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index ce50446..c4c8a23 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -114,8 +114,10 @@ public:
             for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
             if constexpr (signed_) {
-                for (uint64_t i = size; i < op_size; i++) {
-                    result.set(i, true);
+                if (negative()) {
+                    for (uint64_t i = size; i < op_size; i++) {
+                        result.set(i, true);
+                    }
                 }
             }
             return result;
-- 
2.43.0


From 8ab1e1a8c6e23cb887a27f3727238d731be1a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 04/45] fix: keep the excess bits of a native holder canonical

Operations left carries, complements and truncated constants above the declared
width of a vector whose width is not a machine width; signed ones were masked to
zeros although every operation relies on a sign-extended holder.
---
 include/logic/big_num.hh |  2 +-
 include/logic/bit.hh     | 26 +++++++++++++++++++-------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index c4c8a23..bef7c97 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -149,7 +149,7 @@ public:
         return std::accumulate(values.begin(), values.end(), std::popcount);
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         // mask off bit that's excessive bit
         auto constexpr amount = s * 64 - size;
         auto constexpr mask = std::numeric_limits<uint64_t>::max() >> amount;
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index ab86dd7..3b0f9ab 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -137,7 +137,11 @@ public:
      * relates to whether it's negative or not
      */
     [[nodiscard]] bool negative() const {
-        if constexpr (native_num) {
+        if constexpr (!signed_) {
+            return false;
+        } else if constexpr (size == 1) {
+            return value;
+        } else if constexpr (native_num) {
             return value < 0;
         } else {
             return value.negative();
@@ -323,13 +327,13 @@ public:
         }
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         if constexpr (native_num) {
             if constexpr (size > 1) {
+                // the excessive bits of a native holder are zeros, or copies of the sign bit if
+                // it's signed, since we rely on C++ to compute on the holder
                 auto constexpr amount = sizeof(T) * 8 - size;
-                auto constexpr mask_max = bit_mask();
-                auto mask = mask_max >> amount;
-                value &= mask;
+                value = static_cast<T>(static_cast<T>(value << amount) >> amount);
             }
         } else {
             value.mask_off();
@@ -354,6 +358,7 @@ public:
         } else {
             result.value = ~value;
         }
+        result.mask_off();
         return result;
     }
 
@@ -368,6 +373,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -401,6 +407,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -434,6 +441,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
@@ -840,6 +848,7 @@ public:
                 res.value = value;
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
+                res.mask_off();
             }
         } else {
             res.value = value.to_signed();
@@ -854,6 +863,7 @@ public:
                 res.value = value;
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
+                res.mask_off();
             }
         } else {
             // big number is always unsigned
@@ -877,7 +887,8 @@ public:
             if constexpr (size == 1) {
                 value = true;
             } else {
-                value = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
+                value = static_cast<T>(bit_mask());
+                mask_off();
             }
         } else {
             value.mask();
@@ -1000,12 +1011,13 @@ public:
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
             value = static_cast<T>(util::parse_raw_str(v));
+            mask_off();
         } else {
             util::parse_raw_str(v, size, value.values.data());
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) { mask_off(); }
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
-- 
2.43.0


From 03356d3e1c013cd97d702a552b638b40d7d1a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 05/45] fix: sign-extend one-bit signed vectors and allow
 truncating signed ones

---
 include/logic/bit.hh | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3b0f9ab..fbb244c 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -224,7 +224,8 @@ public:
     template <uint64_t target_size>
     requires(target_size > size && util::native_num(target_size))
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return bit<target_size - 1, 0, signed_>(value);
+        using target_type = bit<target_size - 1, 0, signed_>;
+        return target_type(static_cast<typename target_type::T>(extended_word()));
     }
 
     template <uint64_t target_size>
@@ -237,7 +238,11 @@ public:
     template <uint64_t target_size>
     requires(target_size < size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return slice<target_size - 1, 0>();
+        if constexpr (signed_) {
+            return this->template slice<target_size - 1, 0>().to_signed();
+        } else {
+            return this->template slice<target_size - 1, 0>();
+        }
     }
 
     // native number, but extend to a big number
@@ -247,7 +252,7 @@ public:
         bit<target_size - 1, 0, signed_> result;
         // use C++ default semantics to cast. if it's a negative number
         // the upper bit will be set properly
-        result.value.values[0] = static_cast<big_num_holder_type>(value);
+        result.value.values[0] = extended_word();
         if constexpr (signed_) {
             if (negative()) {
                 for (auto i = 1u; i < result.value.s; i++) {
@@ -1096,6 +1101,21 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
+    // native number as a 64-bit word, sign-extended if it's signed
+    [[nodiscard]] constexpr uint64_t extended_word() const requires(native_num) {
+        if constexpr (signed_ && size == 1) {
+            // bool doesn't have a sign
+            return value ? std::numeric_limits<uint64_t>::max() : 0;
+        } else {
+            return static_cast<uint64_t>(value);
+        }
+    }
+
+    // native number as a 64-bit word without any sign extension
+    [[nodiscard]] constexpr uint64_t raw_word() const requires(native_num) {
+        return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
+    }
+
     [[nodiscard]] T value_mask(uint64_t requested_size) const {
         auto mask = std::numeric_limits<uint64_t>::max();
         mask = mask >> (64ull - requested_size);
-- 
2.43.0


From 41ba023f3f25704f91249a6b77514d6f08195e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 06/45] fix: zero-extend a signed operand when the other
 operand is unsigned (LRM 11.8.2)

---
 include/logic/bit.hh   | 51 +++++++++++++++++++++++++++++-------------
 include/logic/logic.hh | 51 +++++++++++++++++++++++++++++-------------
 2 files changed, 70 insertions(+), 32 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index fbb244c..1aaec02 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -275,6 +275,17 @@ public:
         return res;
     }
 
+    // LRM 11.8.2: an operand is extended as the type of the whole expression, i.e. only sign-extended
+    // if both of the operands are signed
+    template <uint64_t target_size, bool target_signed>
+    [[nodiscard]] constexpr auto extend_as() const {
+        if constexpr (signed_ && !target_signed) {
+            return to_unsigned().template extend<target_size>();
+        } else {
+            return this->template extend<target_size>();
+        }
+    }
+
     /*
      * concatenation
      */
@@ -385,8 +396,9 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto and_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l & r;
         result.mask_off();
         return result;
@@ -419,8 +431,9 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto xor_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l ^ r;
         result.mask_off();
         return result;
@@ -453,8 +466,9 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto or_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l | r;
         result.mask_off();
         return result;
@@ -744,8 +758,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto add(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l + r;
         return result;
     }
@@ -768,8 +783,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto minus(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l - r;
         return result;
     }
@@ -792,8 +808,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto multiply(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l * r;
         return result;
     }
@@ -816,8 +833,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto mod(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l % r;
         return result;
     }
@@ -840,8 +858,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto divide(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l / r;
         return result;
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 3cc3f9d..798f162 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -233,6 +233,17 @@ public:
         return result;
     }
 
+    // LRM 11.8.2: an operand is extended as the type of the whole expression, i.e. only sign-extended
+    // if both of the operands are signed
+    template <uint64_t target_size, bool target_signed>
+    [[nodiscard]] constexpr auto extend_as() const {
+        if constexpr (signed_ && !target_signed) {
+            return to_unsigned().template extend<target_size>();
+        } else {
+            return this->template extend<target_size>();
+        }
+    }
+
     /*
      * concatenation
      */
@@ -335,8 +346,9 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto and_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l & r;
         return result;
     }
@@ -400,8 +412,9 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto or_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l | r;
         return result;
     }
@@ -454,8 +467,9 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto xor_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l | r;
         return result;
     }
@@ -770,8 +784,9 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto add(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l + r;
         return result;
     }
@@ -801,8 +816,9 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto minus(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l - r;
         return result;
     }
@@ -832,8 +848,9 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto multiply(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l * r;
         return result;
     }
@@ -864,8 +881,9 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto divide(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l / r;
         return result;
     }
@@ -896,8 +914,9 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto mod(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, sign>();
+        auto r = op.template extend_as<target_size, sign>();
         auto result = l % r;
         return result;
     }
-- 
2.43.0


From 95ffe1be78a6f7ed96b11903df2271f3e1d182d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 07/45] fix: four-state & and | with an unknown left operand

x & 0 gave x, z & 1 gave 1, z & z gave z; x | 0 gave 1 and z | 1 gave x.
---
 include/logic/logic.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 798f162..7375a4e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -329,10 +329,11 @@ public:
         // need to take care of the rest
         // only happens between 1 and x/z. Notice that 1 is encoded as (1, 0) and x is (, 1)
         //
-        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z & 1
-        result.value &= ~mask;
+        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |       // 1   & x/z
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
         result.xz_mask |= mask;
+        // z & z is x as well
+        result.value &= ~result.xz_mask;
 
         return result;
     }
@@ -396,8 +397,8 @@ public:
         // x x x x x
         // z x x x x
         // compute the mask for case // 1 & x/z and x/z & 1
-        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   | x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z | 1
+        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |       // 1   | x/z
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z | 1
         result.value |= mask;
         result.xz_mask &= ~mask;
         return result;
-- 
2.43.0


From 655f58935d9410e78808a3951c38efa989c6c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 08/45] fix: xor of four-state vectors of different widths
 computed or

---
 include/logic/logic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 7375a4e..610680d 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -471,7 +471,7 @@ public:
         auto constexpr sign = util::signed_result(signed_, op_signed);
         auto l = this->template extend_as<target_size, sign>();
         auto r = op.template extend_as<target_size, sign>();
-        auto result = l | r;
+        auto result = l ^ r;
         return result;
     }
 
-- 
2.43.0


From 05ef34bd9e323dfba421484d566a03873a727764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 09/45] fix: extend an x or z sign bit of a signed four-state
 vector

---
 include/logic/logic.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 610680d..92012b2 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -229,7 +229,12 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        if constexpr (signed_) {
+            // an x or z sign bit is extended as well
+            result.xz_mask = xz_mask.to_signed().template extend<target_size>().to_unsigned();
+        } else {
+            result.xz_mask = xz_mask.template extend<target_size>();
+        }
         return result;
     }
 
-- 
2.43.0


From 9a6c8757d3c2fdecb2c397d7b479c6455b3ae8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 10/45] fix: four-state reductions

& and | stopped at the first unknown bit although a later 0 (or 1) decides the
result; ^ counted the zeros, which is wrong for odd widths.
---
 include/logic/logic.hh | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 92012b2..03ab28a 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -504,30 +504,16 @@ public:
     // reduction
     [[nodiscard]] logic<0> r_and() const {
         // zero trump everything
-        // brute force way to compute
-        for (auto i = 0u; i < size; i++) {
-            auto b = value[i];
-            auto m = xz_mask[i];
-            if (!b && !m)
-                return zero_();
-            else if (m)
-                return x_();
-        }
-        return one_();
+        if ((~(value | xz_mask)).any_set()) return zero_();
+        return xz_mask.any_set() ? x_() : one_();
     }
 
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
 
     [[nodiscard]] logic<0> r_or() const {
-        for (auto i = 0u; i < size; i++) {
-            auto b = value[i];
-            auto m = xz_mask[i];
-            if (b && !m)
-                return one_();
-            else if (m)
-                return x_();
-        }
-        return zero_();
+        // one trump everything
+        if ((value & ~xz_mask).any_set()) return one_();
+        return xz_mask.any_set() ? x_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_nor() const { return !r_or(); }
@@ -542,8 +528,7 @@ public:
         // if x/z is set, it's always x
         if (xz_mask.any_set()) return x_();
         auto bits_count = value.popcount();
-        auto zeros = size - bits_count;
-        return (zeros % 2) ? one_() : zero_();
+        return (bits_count % 2) ? one_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_xnor() const { return !r_xor(); }
-- 
2.43.0


From f47c7f5aff427b77d67f3e61acc9fffc8c9f92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 11/45] fix: two-state reductions

Reduction and was wrong for one-bit, signed and big vectors; reduction xor and
popcount did not compile for native, signed and big ones.
---
 include/logic/big_num.hh | 17 +++--------------
 include/logic/bit.hh     | 17 ++++++-----------
 2 files changed, 9 insertions(+), 25 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index bef7c97..070492e 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -146,7 +146,8 @@ public:
     }
 
     [[maybe_unused]] [[nodiscard]] uint64_t popcount() const {
-        return std::accumulate(values.begin(), values.end(), std::popcount);
+        return std::accumulate(values.begin(), values.end(), uint64_t{0},
+                               [](auto sum, auto v) { return sum + std::popcount(v); });
     }
 
     constexpr void mask_off() {
@@ -292,19 +293,7 @@ public:
     // reduction
     [[maybe_unused]] [[nodiscard]] bool r_and() const {
         // only if all the bit are set
-        auto b = std::all_of(values.begin(), values.begin() + s - 1, [](auto const v) {
-            return v == std::numeric_limits<uint64_t>::max();
-        });
-        if constexpr (values.size() * 8 == size) {
-            return b;
-        } else {
-            if (b) return false;
-
-            for (uint64_t i = (values.size() - 1); i < s; i++) {
-                if (!get(i)) return false;
-            }
-        }
-        return true;
+        return all_set();
     }
 
     [[maybe_unused]] [[nodiscard]] bool r_xor() const {
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 1aaec02..0cbba7a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -337,7 +337,7 @@ public:
 
     [[nodiscard]] uint64_t popcount() const {
         if constexpr (native_num) {
-            return std::popcount(value);
+            return std::popcount(raw_word());
         } else {
             return value.popcount();
         }
@@ -485,11 +485,10 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        return all_set();
     }
 
-    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
+    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_and(); }
 
     [[maybe_unused]] [[nodiscard]] bool r_nand() const { return !r_and(); }
 
@@ -498,11 +497,7 @@ public:
     [[maybe_unused]] [[nodiscard]] bool r_nor() const { return !r_or(); }
 
     [[nodiscard]] bool r_xor() const requires(native_num) {
-        bool b = get<0>();
-        for (auto i = 1; i < size; i++) {
-            b = b ^ get(i);
-        }
-        return b;
+        return popcount() % 2;
     }
 
     [[nodiscard]] bool r_xor() const requires(!native_num) { return value.r_xor(); }
@@ -954,8 +949,8 @@ public:
 
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
-            auto constexpr max = value_mask(size);
-            return value == max;
+            auto constexpr max = std::numeric_limits<uint64_t>::max() >> (64 - size);
+            return raw_word() == max;
         } else {
             return value.all_set();
         }
-- 
2.43.0


From 39b99a29660ad0773ca69f3a171e72b0297b964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 12/45] fix: compute native + - * and negation on the declared
 bits

One-bit vectors added and multiplied as bool, products of 16-bit and sums of
64-bit signed holders overflowed, in-place negation of big vectors did nothing,
and unary minus of a big vector did not compile.
---
 include/logic/bit.hh | 45 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 0cbba7a..baf7610 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -722,11 +722,13 @@ public:
     }
 
     constexpr bit<msb, lsb, signed_> operator-() const {
+        bit<msb, lsb, signed_> result;
         if constexpr (native_num) {
-            return bit<msb, lsb, signed_>(-value);
+            result.set_word(-raw_word());
         } else {
-            return bit<msb, lsb, signed_>(value.negate());
+            result.value = value.negate();
         }
+        return result;
     }
 
     constexpr auto operator+() const { return *this; }
@@ -745,7 +747,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value + op.value;
+        if constexpr (native_num) {
+            result.set_word(raw_word() + op.raw_word());
+        } else {
+            result.value = value + op.value;
+        }
         return result;
     }
 
@@ -770,7 +776,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value - op.value;
+        if constexpr (native_num) {
+            result.set_word(raw_word() - op.raw_word());
+        } else {
+            result.value = value - op.value;
+        }
         return result;
     }
 
@@ -795,7 +805,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value * op.value;
+        if constexpr (native_num) {
+            result.set_word(raw_word() * op.raw_word());
+        } else {
+            result.value = value * op.value;
+        }
         return result;
     }
 
@@ -929,18 +943,16 @@ public:
 
     void negate() {
         if constexpr (native_num) {
-            value = (~value) + 1;
-            mask_off();
+            set_word(-raw_word());
         } else {
-            return value.negate();
+            value = value.negate();
         }
     }
 
     [[nodiscard]] bit<size - 1, 0> negate() const {
         bit<size - 1, 0> res;
         if constexpr (native_num) {
-            res.value = (~value) + 1;
-            res.mask_off();
+            res.set_word(-raw_word());
         } else {
             res.value = value.negate();
         }
@@ -1115,6 +1127,19 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
+    template <int, int, bool, bool>
+    friend struct bit;
+
+    // set a native number from the low bits of the word
+    constexpr void set_word(uint64_t word) requires(native_num) {
+        if constexpr (size == 1) {
+            value = word & 1;
+        } else {
+            value = static_cast<T>(word);
+            mask_off();
+        }
+    }
+
     // native number as a 64-bit word, sign-extended if it's signed
     [[nodiscard]] constexpr uint64_t extended_word() const requires(native_num) {
         if constexpr (signed_ && size == 1) {
-- 
2.43.0


From 3371d7da132268e6f84aa441b7fd5c1f07d26310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 13/45] fix: drop the carry out of a big number sum

---
 include/logic/big_num.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 070492e..76604ef 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -563,6 +563,8 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        // the carry out of the top bit is dropped
+        result.mask_off();
         return result;
     }
 
-- 
2.43.0


From b20126303671778164f730734486d659f93eff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 14/45] fix: assignment and conversion between vectors of
 different width or sign

The holder was copied: a narrower target kept bits above its width, a wider or
differently signed big one did not compile.
---
 include/logic/bit.hh | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index baf7610..ce66b3e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1054,8 +1054,9 @@ public:
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
-    explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+    explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold) {
+        set_word(big_num.values[0]);
+    }
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
@@ -1073,19 +1074,23 @@ public:
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
     bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+        assign_(b);
         return *this;
     }
 
     template <typename T>
     bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
-        value = v;
+        if constexpr (native_num) {
+            set_word(static_cast<uint64_t>(v));
+        } else {
+            value = big_num<size, signed_>(v);
+        }
         return *this;
     }
 
     template <int new_msb, int new_lsb>
     constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+        assign_(b);
     }
 
     static constexpr bit<0> one_() {
@@ -1130,6 +1135,21 @@ private:
     template <int, int, bool, bool>
     friend struct bit;
 
+    // resize based on the type of the other number, then keep the bits that fit
+    template <int new_msb, int new_lsb, bool new_signed>
+    constexpr void assign_(const bit<new_msb, new_lsb, new_signed> &b) {
+        using B = bit<new_msb, new_lsb, new_signed>;
+        if constexpr (native_num && B::native_num) {
+            set_word(b.extended_word());
+        } else if constexpr (native_num) {
+            set_word(b.value.values[0]);
+        } else {
+            auto const v = b.template extend<util::max(size, B::size)>();
+            std::copy_n(v.value.values.begin(), value.s, value.values.begin());
+            mask_off();
+        }
+    }
+
     // set a native number from the low bits of the word
     constexpr void set_word(uint64_t word) requires(native_num) {
         if constexpr (size == 1) {
-- 
2.43.0


From f59f9195ef86b7b5bc937491aaa62fd737c4b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 15/45] fix: resize the result of a two-state compound
 assignment to the target

---
 include/logic/bit.hh | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index ce66b3e..380a179 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -407,10 +407,7 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bit &operator&=(
         const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) & op;
-        value = res.value;
-        mask_off();
-        return *this;
+        return *this = (*this) & op;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -442,10 +439,7 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bit &operator^=(
         const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) ^ op;
-        value = res.value;
-        mask_off();
-        return *this;
+        return *this = (*this) ^ op;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -477,10 +471,7 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bit &operator|=(
         const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) | op;
-        value = res.value;
-        mask_off();
-        return *this;
+        return *this = (*this) | op;
     }
 
     // reduction
@@ -553,9 +544,7 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bit &operator>>=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) >> amount;
-        value = res.value;
-        return *this;
+        return *this = (*this) >> amount;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -584,9 +573,7 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bit &operator<<=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) << amount;
-        value = res.value;
-        return *this;
+        return *this = (*this) << amount;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From d8ba34047ab789bf9db5fb007364317e8fbb5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 16/45] fix: big number multiplication

Partial products were bounded by the number of bits instead of words and so
written past the end of the number; a product of two one-word values kept bits
above the width.
---
 include/logic/big_num.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 76604ef..ca8d345 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -616,6 +616,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -634,12 +635,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From 87757fe3480da350609756ceb5a82d777154a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 17/45] fix: division and remainder

Native division by zero (and of the most negative number by -1) trapped, native
mixed-sign division was computed as signed, signed and mixed-sign big division
did not compile, and the remainder took its sign from the quotient.
---
 include/logic/big_num.hh | 13 +++++++++----
 include/logic/bit.hh     | 29 +++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index ca8d345..d7687e6 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -817,16 +817,21 @@ public:
         }
         if constexpr (result_signed) {
             // this implies that both of them are signed numbers
-            auto op_pos = op.negative() ? op.negate() : op;
-            auto this_pos = negative() ? negate() : *this;
-            std::tie(q, r) = this_pos.div_mode_(op);
+            big_num<size, false> const op_pos = op.negative() ? op.negate() : op;
+            big_num<size, false> const this_pos = negative() ? negate() : *this;
+            std::tie(q, r) = this_pos.div_mod_unsigned(op_pos);
             // if both of them are negative or positive, the sign will cancel out
             if (op.negative() ^ negative()) {
                 q = q.negate();
+            }
+            // per LRM 11.4.3 the remainder takes the sign of the first operand
+            if (negative()) {
                 r = r.negate();
             }
         } else {
-            std::tie(q, r) = div_mod_unsigned(op);
+            big_num<size, false> const op_pos = op;
+            big_num<size, false> const this_pos = *this;
+            std::tie(q, r) = this_pos.div_mod_unsigned(op_pos);
         }
         return {q, r};
     }
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 380a179..d8e4d01 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -821,7 +821,20 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value % op.value;
+        if constexpr (!native_num) {
+            result.value = value % op.value;
+        } else if (op.any_set()) {
+            // same as big number, modulo zero is 0
+            if constexpr (signed_ && op_signed) {
+                auto const divisor = static_cast<int64_t>(op.extended_word());
+                // anything modulo -1 is 0. also avoids overflow
+                if (divisor != -1) {
+                    result.set_word(static_cast<int64_t>(extended_word()) % divisor);
+                }
+            } else {
+                result.set_word(raw_word() % op.raw_word());
+            }
+        }
         return result;
     }
 
@@ -846,7 +859,19 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value / op.value;
+        if constexpr (!native_num) {
+            result.value = value / op.value;
+        } else if (op.any_set()) {
+            // same as big number, dividing by zero is 0
+            if constexpr (signed_ && op_signed) {
+                auto const divisor = static_cast<int64_t>(op.extended_word());
+                // dividing by -1 can overflow
+                result.set_word(divisor == -1 ? -raw_word()
+                                              : static_cast<int64_t>(extended_word()) / divisor);
+            } else {
+                result.set_word(raw_word() / op.raw_word());
+            }
+        }
         return result;
     }
 
-- 
2.43.0


From 3e1f15e59f68da6950d80ff99fc6663af35014fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 18/45] fix: shift amounts

The amount was cast to the holder of the shifted value and used as is, so
amounts at or above the width were undefined, signed amounts negative, and a
native value could not be shifted by a big amount. The sign of the amount also
decided the sign of the result.
---
 include/logic/bit.hh   | 79 ++++++++++++++++--------------------------
 include/logic/logic.hh |  8 ++---
 2 files changed, 34 insertions(+), 53 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index d8e4d01..990d232 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -497,21 +497,14 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value >> amount.value;
+        // LRM 11.4.10: the amount is always unsigned and doesn't affect the sign of the result
+        bit<size - 1, 0, signed_> res;
+        auto const shift = amount.shift_amount();
+        if constexpr (native_num) {
+            // C++ doesn't allow to shift by more than the holder
+            if (shift < size) res.set_word(raw_word() >> shift);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size, signed_> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num >> amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value >> shift;
         }
 
         return res;
@@ -549,22 +542,12 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator<<(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        // clang doesn't allow accessing native_num as amount.native_num
-        // see https://stackoverflow.com/a/44996066
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value << amount.value;
+        bit<size - 1, 0, signed_> res;
+        auto const shift = amount.shift_amount();
+        if constexpr (native_num) {
+            if (shift < size) res.set_word(raw_word() << shift);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num << amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value << shift;
         }
 
         return res;
@@ -578,21 +561,16 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashr(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value.ashr(amount.value);
+        bit<size - 1, 0, signed_> res;
+        auto const shift = amount.shift_amount();
+        if constexpr (!native_num) {
+            res.value = value.ashr(shift);
+        } else if constexpr (signed_) {
+            // C++ does arithmetic shifts by default. everything is the sign after size - 1 shifts
+            auto const v = static_cast<int64_t>(extended_word());
+            res.set_word(v >> util::min<uint64_t>(shift, size - 1));
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num.ashr(amount);
-            res.value = static_cast<T>(res_num.values[0]);
+            res = (*this) >> amount;
         }
 
         return res;
@@ -1162,6 +1140,15 @@ private:
         }
     }
 
+    // as a shift amount, i.e. always unsigned. anything that doesn't fit shifts everything out
+    [[nodiscard]] uint64_t shift_amount() const {
+        if constexpr (native_num) {
+            return raw_word();
+        } else {
+            return value.fit_in_64() ? value.values[0] : std::numeric_limits<uint64_t>::max();
+        }
+    }
+
     // set a native number from the low bits of the word
     constexpr void set_word(uint64_t word) requires(native_num) {
         if constexpr (size == 1) {
@@ -1187,12 +1174,6 @@ private:
         return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
-        auto mask = std::numeric_limits<uint64_t>::max();
-        mask = mask >> (64ull - requested_size);
-        return static_cast<T>(mask);
-    }
-
     [[nodiscard]] inline bit<0> get_(int idx) const {
         if constexpr (!big_endian) {
             idx = lsb - idx;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 03ab28a..bbc1299 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -559,7 +559,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
@@ -587,7 +587,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator<<(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
@@ -615,7 +615,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashr(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
@@ -628,7 +628,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
-- 
2.43.0


From 536bc4ccfd101f7b798f7e90a391116826ed8dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 19/45] fix: comparisons of operands with different width or
 sign

Equality truncated the right operand to the holder of the left one, an unsigned
comparison sign-extended signed operands, a native number could not be compared
with a big one, big signed equality did not compile and comparing two negative
big numbers did not terminate for the most negative one.
---
 include/logic/big_num.hh | 26 ++++----------
 include/logic/bit.hh     | 75 ++++++++++++++--------------------------
 2 files changed, 32 insertions(+), 69 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index d7687e6..1476fd3 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -423,21 +423,9 @@ public:
     bool operator==(const big_num<op_size, op_signed> &op) const {
         if constexpr (signed_ && op_signed) {
             // doing signed comparison
-            if constexpr (op_size > size) {
-                // extend itself
-                auto t = this->template extend<op_size>();
-                auto constexpr op_s = big_num<op_size, op_signed>::s;
-                for (auto i = 0u; i < op_s; i++) {
-                    if (t.values[i] != op.values[i]) return false;
-                }
-                return true;
-            } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
-                    if (values[i] != op_t.values[i]) return false;
-                }
-                return true;
-            }
+            auto constexpr target_size = util::max(size, op_size);
+            return this->template extend<target_size>().values ==
+                   op.template extend<target_size>().values;
         }
         auto constexpr op_s = big_num<op_size, op_signed>::s;
         if constexpr (s >= op_s) {
@@ -479,10 +467,10 @@ public:
             }
             // if it's both positive or both negative, we fall back to the normal comparison
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
+            // notice that numbers of the same size and sign are ordered properly in 2's complement
+            else if constexpr (size != op_size) {
+                auto constexpr target_size = util::max(size, op_size);
+                return this->template extend<target_size>() > op.template extend<target_size>();
             }
         }
         // from top to bottom comparison
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 990d232..4d7b828 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -584,20 +584,12 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
-        } else {
-            return value == v.value;
-        }
+        return compare_(v, [](auto const &a, auto const &b) { return a == b; });
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
-        } else {
-            return value != v.value;
-        }
+        return !((*this) == v);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -612,16 +604,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator>(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value > v.value;
-            } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value > v.value;
-        }
+        return compare_(v, [](auto const &a, auto const &b) { return a > b; });
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -631,16 +614,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator<(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value < v.value;
-            } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value < v.value;
-        }
+        return compare_(v, [](auto const &a, auto const &b) { return a < b; });
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -650,16 +624,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator>=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value >= v.value;
-            } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value >= v.value;
-        }
+        return compare_(v, [](auto const &a, auto const &b) { return a >= b; });
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -669,16 +634,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator<=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value <= v.value;
-            } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value <= v.value;
-        }
+        return compare_(v, [](auto const &a, auto const &b) { return a <= b; });
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -1140,6 +1096,25 @@ private:
         }
     }
 
+    // LRM specifies that only if both operands are signed we do signed comparison
+    template <int op_msb, int op_lsb, bool op_signed, typename F>
+    [[nodiscard]] bool compare_(const bit<op_msb, op_lsb, op_signed> &op, F compare) const {
+        using B = bit<op_msb, op_lsb, op_signed>;
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        if constexpr (native_num && B::native_num) {
+            if constexpr (sign) {
+                return compare(static_cast<int64_t>(extended_word()),
+                               static_cast<int64_t>(op.extended_word()));
+            } else {
+                return compare(raw_word(), op.raw_word());
+            }
+        } else {
+            auto constexpr target_size = util::max(size, B::size);
+            return compare(this->template extend_as<target_size, sign>().value,
+                           op.template extend_as<target_size, sign>().value);
+        }
+    }
+
     // as a shift amount, i.e. always unsigned. anything that doesn't fit shifts everything out
     [[nodiscard]] uint64_t shift_amount() const {
         if constexpr (native_num) {
-- 
2.43.0


From 8fff95abb19c71efdfce46f75e77e4aa1c404799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 20/45] fix: four-state operators with a two-state operand of
 any width

logic(op) names the class itself inside the class, so an operand of another
width did not convert, and & | ^ << >> excluded operands of the same width.
---
 include/logic/logic.hh | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index bbc1299..e70a8e1 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -344,9 +344,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator&(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator&(logic(op));
+    auto operator&(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator&(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -410,9 +409,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator|(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator|(logic(op));
+    auto operator|(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator|(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -465,9 +463,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator^(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator^(logic(op));
+    auto operator^(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator^(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -571,9 +568,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator>>(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator>>(logic(op));
+    auto operator>>(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator>>(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -599,9 +595,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator<<(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator<<(logic(op));
+    auto operator<<(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator<<(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -641,7 +636,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        return this->template ashl(logic(amount));
+        return this->template ashl(logic<op_msb, op_lsb, op_signed>(amount));
     }
 
     /*
@@ -655,7 +650,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator==(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator==(logic(target));
+        return this->template operator==(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -666,7 +661,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator!=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator!=(logic(target));
+        return this->template operator!=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -676,7 +671,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template match(logic(op));
+        return this->template match(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -697,7 +692,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>(logic(target));
+        return this->template operator>(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -708,7 +703,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<(logic(target));
+        return this->template operator<(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -719,7 +714,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>=(logic(target));
+        return this->template operator>=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -730,7 +725,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<=(logic(target));
+        return this->template operator<=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     constexpr auto operator-() const {
@@ -768,7 +763,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator+(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator+(logic(target));
+        return this->template operator+(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -800,7 +795,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator-(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator-(logic(target));
+        return this->template operator-(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -832,7 +827,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator*(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator*(logic(target));
+        return this->template operator*(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -865,7 +860,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator/(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator/(logic(target));
+        return this->template operator/(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -898,7 +893,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator%(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator%(logic(target));
+        return this->template operator%(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From 1277595584b25cbcb86394548e7ef0fc7f1ca4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 21/45] fix: extending to the same width when the declared
 range doesn't end at 0

---
 include/logic/bit.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 4d7b828..c38dde7 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -231,7 +231,9 @@ public:
     template <uint64_t target_size>
     requires(target_size == size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return *this;
+        bit<target_size - 1, 0, signed_> result;
+        result.value = value;
+        return result;
     }
 
     // new size is smaller. this is just a slice
-- 
2.43.0


From 23c886f05358f66251f21ba3f2159982c9313324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 22/45] fix: extend an unknown sign bit in case equality of
 different widths

---
 include/logic/logic.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index e70a8e1..8627b4f 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -666,7 +666,12 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const logic<op_msb, op_lsb, op_signed> &op) const {
-        return value == op.value && xz_mask == op.xz_mask;
+        // same resizing as ==, with unknown sign bits extended as they are
+        auto constexpr sign = util::signed_result(signed_, op_signed);
+        auto constexpr target_size = util::max(size, logic<op_msb, op_lsb>::size);
+        auto const l = this->template extend_as<target_size, sign>();
+        auto const r = op.template extend_as<target_size, sign>();
+        return l.value == r.value && l.xz_mask == r.xz_mask;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From 0bdeac6ebbd5fe8f286f8368b748e307466c5466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 23/45] fix: bit and part selects of ranges that don't end at
 0, and out of bounds selects

---
 include/logic/bit.hh   | 252 ++++++++++++++---------------------------
 include/logic/logic.hh | 114 ++++++++-----------
 include/logic/util.hh  |   8 ++
 3 files changed, 141 insertions(+), 233 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c38dde7..0622e42 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -25,6 +25,14 @@ public:
 
     T value;
 
+    /*
+     * declared indices. bit 0 of the storage is always the right-most one
+     */
+    // position of a declared index in the storage. can be out of bounds
+    static constexpr int64_t position(int64_t idx) { return big_endian ? idx - lsb : lsb - idx; }
+    static constexpr bool in_bounds(int64_t pos) { return pos >= 0 && pos < size; }
+
+
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (native_num) {
@@ -47,71 +55,23 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size && native_num) [[nodiscard]] bit<0> inline get() const requires(!array) {
-        return this->operator[](idx);
+    requires(util::in_bounds(idx, idx, msb, lsb)) [[nodiscard]] bit<0> inline get() const requires(!array) {
+        return get_(idx);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     bool inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (bit<op_msb, op_lsb>::native_num) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return false;
-            }
-        }
-        return get_(index);
+        return get_(op.to_index()).value;
     }
 
-    void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(i, v);
-        }
-    }
+    void inline set(int idx, bool v) { set_position(position(idx), v); }
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.template set<i>(v);
-        }
+        set_position(position(idx), v);
     }
 
-    void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
-    }
+    void inline set(int idx, bit<0> v) { set_position(position(idx), v.value); }
 
     template <int idx>
     void set(bit<0> v) requires(!array) {
@@ -120,17 +80,7 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
-        if constexpr (native_num) {
-            if constexpr (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.template set<i, v>();
-        }
+        set_position(position(idx), v);
     }
 
     /*
@@ -151,69 +101,44 @@ public:
     /*
      * Slice always produce unsigned result
      */
-    /*
-     * native holder always produce native numbers
-     */
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(util::in_bounds(a, b, msb, lsb)) bit<util::abs_diff(a, b)>
     constexpr inline slice() const requires(!array) { return this->template slice_<a, b>(); }
 
-    /*
-     * big number but small slice
-     */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
-             b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
-        bit<util::abs_diff(a, b), false> result;
-        auto res = value.template slice<a, b>();
-        // need to shrink it down
-        result.value = res.values[0];
-        return result;
-    }
-
-    /*
-     * big number and big slice
-     */
-    template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
-             b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
-        bit<util::abs_diff(a, b), false> result;
-        result.value = value.template slice<a, b>();
-        return result;
-    }
-
-    template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(util::in_bounds(a, b, msb, lsb)) auto inline slice_ref() requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
     template <uint32_t size>
-    [[nodiscard]] auto slice(int a, int b) const {
+    [[nodiscard]] auto slice(int64_t a, int64_t b) const {
         return this->template slice_<size>(a, b);
     }
 
-    auto inline slice_ref(int a, int b) requires(!array) { return slice_ref_runtime(a, b, *this); }
+    auto inline slice_ref(int64_t a, int64_t b) requires(!array) {
+        return slice_ref_runtime(a, b, *this);
+    }
 
     template <uint32_t target_size, bool increase = true, typename T>
     [[nodiscard]] auto slice(T base) const {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
+        int64_t end;
+        int64_t base_value = base.to_index();
         if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
+            end = base_value + static_cast<int64_t>(target_size - 1);
         } else {
-            end = base_value - static_cast<int>(target_size - 1);
+            end = base_value - static_cast<int64_t>(target_size - 1);
         }
         return this->template slice<target_size>(base_value, end);
     }
 
     template <uint32_t target_size, bool increase = true, typename T>
     [[nodiscard]] auto slice_ref(T base) {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
+        int64_t end;
+        int64_t base_value = base.to_index();
         if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
+            end = base_value + static_cast<int64_t>(target_size - 1);
         } else {
-            end = base_value - static_cast<int>(target_size - 1);
+            end = base_value - static_cast<int64_t>(target_size - 1);
         }
         return this->slice_ref(base_value, end);
     }
@@ -240,11 +165,9 @@ public:
     template <uint64_t target_size>
     requires(target_size < size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        if constexpr (signed_) {
-            return this->template slice<target_size - 1, 0>().to_signed();
-        } else {
-            return this->template slice<target_size - 1, 0>();
-        }
+        bit<target_size - 1, 0, signed_> result;
+        result.assign_(*this);
+        return result;
     }
 
     // native number, but extend to a big number
@@ -956,6 +879,22 @@ public:
         }
     }
 
+    // as an index of a vector. saturated if it's too far away to be inside any vector
+    [[nodiscard]] int64_t to_index() const {
+        auto constexpr limit = util::max_index;
+        if constexpr (native_num && signed_) {
+            auto const v = static_cast<int64_t>(extended_word());
+            return util::max(-limit, util::min(limit, v));
+        } else if constexpr (native_num) {
+            return static_cast<int64_t>(util::min(static_cast<uint64_t>(limit), raw_word()));
+        } else {
+            auto const saturate = [](auto const &v) -> int64_t {
+                return v.fit_in_64() ? util::min(static_cast<uint64_t>(limit), v.values[0]) : limit;
+            };
+            return negative() ? -saturate(negate().value) : saturate(value);
+        }
+    }
+
     [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) { return value; }
 
     [[nodiscard]] uint8_t to_num() const requires(!signed_ && size <= 8) { return value; }
@@ -1082,6 +1021,8 @@ private:
 
     template <int, int, bool, bool>
     friend struct bit;
+    template <int, int, bool, bool>
+    friend struct logic;
 
     // resize based on the type of the other number, then keep the bits that fit
     template <int new_msb, int new_lsb, bool new_signed>
@@ -1151,86 +1092,65 @@ private:
         return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
     }
 
-    [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
+    [[nodiscard]] inline bit<0> get_(int64_t idx) const {
+        return bit<0>(get_position(position(idx)));
+    }
+
+    // bits outside the vector read as 0
+    [[nodiscard]] inline bool get_position(int64_t pos) const {
+        if (!in_bounds(pos)) [[unlikely]] {
+            return false;
         }
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
+            return (raw_word() >> pos) & 1;
         } else {
-            return bit<0>(value[idx]);
+            return value[pos];
         }
     }
 
-    template <int idx>
-    [[nodiscard]] inline bit<0> get_() const {
-        if constexpr (!big_endian) {
-            constexpr auto idx_ = lsb - idx;
-            if constexpr (native_num) {
-                return bit<0>((value >> idx_) & 1);
-            } else {
-                return bit<0>(value.template get<idx_>());
-            }
+    // bits outside the vector are not written
+    inline void set_position(int64_t pos, bool v) {
+        if (!in_bounds(pos)) [[unlikely]] {
+            return;
+        }
+        if constexpr (native_num) {
+            auto const mask = 1ull << pos;
+            set_word(v ? (raw_word() | mask) : (raw_word() & ~mask));
         } else {
-            if constexpr (native_num) {
-                return bit<0>((value >> idx) & 1);
-            } else {
-                return bit<0>(value.template get<idx>());
-            }
+            value.set(pos, v);
         }
     }
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(util::in_bounds(a, b, msb, lsb)) bit<util::abs_diff(a, b)>
     constexpr inline slice_() const {
         // assume the import has type-checked properly, e.g. by a compiler
-        constexpr auto base = util::min(msb, lsb);
-        constexpr auto max = util::max(a, b) - base;
-        constexpr auto min = util::min(a, b) - base;
-        constexpr auto t_size = sizeof(T) * 8;
+        constexpr auto max = util::max(position(a), position(b));
+        constexpr auto min = util::min(position(a), position(b));
         constexpr auto target_size = util::abs_diff(a, b) + 1;
         bit<target_size - 1, false> result;
-        if constexpr (target_size == 1 && size == 1) {
-            result.value = value != 0;
+        if constexpr (native_num) {
+            result.set_word(raw_word() >> min);
         } else {
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
+            // may need to shrink
+            auto v = value.template slice<max, min>();
+            if constexpr (util::native_num(target_size)) {
+                result.set_word(v.values[0]);
             } else {
-                shmnt = 1;
+                result.value = v;
             }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
         }
         return result;
     }
 
     template <uint32_t target_size>
-    [[nodiscard]] auto slice_(int a, int b) const {
+    [[nodiscard]] auto slice_(int64_t a, int64_t b) const {
         bit<target_size - 1, false> result;
-        if constexpr (native_num) {
-            // assume the import has type-checked properly, e.g. by a compiler
-            auto base = util::min(msb, lsb);
-            auto max = util::max(a, b) - base;
-            auto min = util::min(a, b) - base;
-            auto t_size = sizeof(T) * 8;
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
-
-            return result;
-        } else {
-            // may need to shrink
-            auto v = value.template slice<target_size>(a, b);
-            if constexpr (util::native_num(target_size)) {
-                result.value = static_cast<decltype(result.value)>(v.values[0]);
-            } else {
-                result.value = v;
-            }
+        auto const min = util::min(position(a), position(b));
+        for (auto i = 0u; i < target_size; i++) {
+            // notice that if it is out of range, 0 will be returned
+            result.set_position(i, get_position(min + i));
         }
         return result;
     }
@@ -1278,7 +1198,7 @@ private:
 template <typename T>
 struct slice_ref_runtime {
 public:
-    slice_ref_runtime(int a, int b, T &self) : a_(a), b_(b), self_(self) {}
+    slice_ref_runtime(int64_t a, int64_t b, T &self) : a_(a), b_(b), self_(self) {}
 
     template <typename K>
     slice_ref_runtime &operator=(const K &value) {
@@ -1287,7 +1207,7 @@ public:
     }
 
 private:
-    int a_, b_;
+    int64_t a_, b_;
     T &self_;
 };
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 8627b4f..69e02f4 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -52,65 +52,23 @@ public:
      * single bit
      */
     inline logic<0> operator[](int idx) const requires(!array) {
-        if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
-            logic<0> r;
-            if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
-            } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
-            } else {
-                r.value = value[idx];
-                r.xz_mask.value = false;
-            }
-            return r;
-        } else {
-            // return X
-            return logic<0>{};
-        }
+        return get_(idx);
     }
 
     template <int idx>
-    requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
-        logic<0> r{false};
-        if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
-        } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
-        } else {
-            r.value = value.template get<idx>();
-        }
-        return r;
+    requires(util::in_bounds(idx, idx, msb, lsb)) [[nodiscard]] inline logic<0> get() const requires(!array) {
+        return get_(idx);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const logic<op_msb, op_lsb, op_signed, op_array> &op) const
         requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64() && !op.xz_mask.any_set()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        return get_(op.to_index());
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        return get_(op.to_index());
     }
 
     void set(int idx, bool v) requires(!array) {
@@ -176,47 +134,56 @@ public:
      * slices
      */
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice() const
+    requires(util::in_bounds(a, b, msb, lsb)) constexpr logic<util::abs_diff(a, b)> inline slice() const
         requires(!array) {
         return this->template slice_<a, b>();
     }
 
     template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(util::in_bounds(a, b, msb, lsb)) auto inline slice_ref() requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
     // used for runtime slice (only used in packed array per SV LRM)
     template <uint32_t target_size>
-    logic<target_size - 1, 0> slice(int a, int b) const {
+    logic<target_size - 1, 0> slice(int64_t a, int64_t b) const {
         logic<target_size - 1, 0> result;
         result.value = value.template slice<target_size>(a, b);
         result.xz_mask = xz_mask.template slice<target_size>(a, b);
+        // out of bound access will be X
+        auto const min = util::min(value.position(a), value.position(b));
+        for (auto i = 0u; i < target_size; i++) {
+            if (!value.in_bounds(min + i)) [[unlikely]] {
+                result.set_x(static_cast<int>(i));
+            }
+        }
         return result;
     }
 
-    auto inline slice_ref(int a, int b) requires(!array) { return slice_ref_runtime(a, b, *this); }
+    auto inline slice_ref(int64_t a, int64_t b) requires(!array) {
+        return slice_ref_runtime(a, b, *this);
+    }
 
     template <uint32_t target_size, bool increase = true, typename T>
     auto slice(T base) const {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
+        int64_t end;
+        int64_t base_value = base.to_index();
         if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
+            end = base_value + static_cast<int64_t>(target_size - 1);
         } else {
-            end = base_value - static_cast<int>(target_size - 1);
+            end = base_value - static_cast<int64_t>(target_size - 1);
         }
         return this->template slice<target_size>(base_value, end);
     }
 
     template <uint32_t target_size, bool increase = true, typename T>
     auto slice_ref(T base) {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
+        int64_t end;
+        int64_t base_value = base.to_index();
         if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
+            end = base_value + static_cast<int64_t>(target_size - 1);
         } else {
-            end = base_value - static_cast<int>(target_size - 1);
+            end = base_value - static_cast<int64_t>(target_size - 1);
         }
         return this->slice_ref(base_value, end);
     }
@@ -953,6 +920,11 @@ public:
             return value.to_uint64();
     }
 
+    // as an index of a vector. an unknown index is not inside any vector
+    [[nodiscard]] int64_t to_index() const {
+        return xz_mask.any_set() ? util::max_index : value.to_index();
+    }
+
     // automatic conversion
     [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) {
         if (xz_mask.any_set())
@@ -1088,9 +1060,21 @@ public:
     }
 
 private:
-    void unmask_bit(uint64_t idx) { xz_mask.set(idx, false); }
 
-    template <uint64_t idx>
+
+    [[nodiscard]] logic<0> get_(int64_t idx) const {
+        // out of bound access will be X
+        logic<0> r;
+        if (value.in_bounds(value.position(idx))) [[likely]] {
+            r.value = value.get_(idx);
+            r.xz_mask = xz_mask.get_(idx);
+        }
+        return r;
+    }
+
+    void unmask_bit(int idx) { xz_mask.set(idx, false); }
+
+    template <int idx>
     void unmask_bit() {
         xz_mask.template set<idx, false>();
     }
@@ -1119,18 +1103,14 @@ private:
     }
 
     template <bool l_signed>
-    void set_(uint64_t idx, const logic<0, 0, l_signed> &l) {
+    void set_(int64_t idx, const logic<0, 0, l_signed> &l) {
         value.set(idx, l.value.value);
         xz_mask.set(idx, l.xz_mask.value);
     }
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice_() const {
-        if constexpr (size <= util::max(a, b)) {
-            // out of bound access will be X
-            return logic<util::abs_diff(a, b)>{};
-        }
+    requires(util::in_bounds(a, b, msb, lsb)) constexpr logic<util::abs_diff(a, b)> inline slice_() const {
 
         logic<util::abs_diff(a, b), 0, false> result;
         result.value = value.template slice<a, b>();
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..39160c2 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -48,6 +48,9 @@ constexpr T abs_diff(T a, T b) {
 
 constexpr bool native_num(uint64_t size) { return size <= big_num_threshold; }
 
+// an index whose absolute value is too large to be inside any vector
+constexpr int64_t max_index = 1ll << 62;
+
 inline uint64_t str_len(uint64_t size, std::string_view fmt) {
     auto pos = fmt.find_first_not_of("0123456789");
     if (pos == 0) {
@@ -77,6 +80,11 @@ constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
     return ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) || ((op1_hi < op1_lo) && (op2_hi < op2_lo));
 }
 
+// whether both of the indices are inside the declared range
+constexpr bool in_bounds(int a, int b, int msb, int lsb) {
+    return max(a, b) <= max(msb, lsb) && min(a, b) >= min(msb, lsb);
+}
+
 constexpr uint64_t total_size(int msb, int lsb) { return abs_diff(msb, lsb) + 1; }
 
 template <uint64_t s, bool signed_, typename enable = void>
-- 
2.43.0


From fb164860efa32c541b6b8a71fae3e68853d347c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 24/45] fix: updates through selects (alignment, bounds and
 ranges that don't end at 0)

---
 include/logic/bit.hh   | 50 +++++++++++++----------------------
 include/logic/logic.hh | 59 ++++++------------------------------------
 2 files changed, 26 insertions(+), 83 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 0622e42..a7a06cb 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -844,28 +844,14 @@ public:
      */
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            int idx;
-            if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx);
-            set(i, b);
-        }
+    requires(!array) void update(const bit<op_hi, op_lo, op_signed> &op) requires(
+        util::in_bounds(hi, lo, msb, lsb)) {
+        this->template update_<hi, lo>(op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
-    void update(int hi, int lo, const bit<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo);
-        this->template update_(start, end, op);
+    void update(int64_t hi, int64_t lo, const bit<op_hi, op_lo, op_signed> &op) {
+        this->template update_(hi, lo, op);
     }
 
     /*
@@ -1155,21 +1141,21 @@ protected:
         return result;
     }
 
+    template <int hi, int lo, int op_msb, int op_lsb, bool op_signed>
+    void update_(const bit<op_msb, op_lsb, op_signed> &op) {
+        update_(hi, lo, op);
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
-    void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
+    void update_(int64_t hi, int64_t lo, const bit<op_msb, op_lsb, op_signed> &op) {
+        auto const start = util::min(position(hi), position(lo));
+        auto const end = util::min<int64_t>(util::max(position(hi), position(lo)), size - 1);
+        // op can be the object itself
+        auto const src = op;
+        // aligned on the right-hand side regardless of the endian. positions out of range are skipped
+        for (auto i = util::max<int64_t>(start, 0); i <= end; i++) {
             // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx - start);
-            set(i, b);
+            set_position(i, src.get_position(i - start));
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 69e02f4..a68c561 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -899,15 +899,13 @@ public:
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     requires(!array) void update(const logic<op_hi, op_lo, op_signed> &op) requires(
-        hi < size && lo < size && util::match_endian(hi, lo, msb, lsb)) {
+        util::in_bounds(hi, lo, msb, lsb) && (hi == lo || util::match_endian(hi, lo, msb, lsb))) {
         this->template update_<hi, lo>(op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
-    void update(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo);
-        this->template update_(start, end, op);
+    void update(int64_t hi, int64_t lo, const logic<op_hi, op_lo, op_signed> &op) {
+        this->template update_(hi, lo, op);
     }
 
     /*
@@ -1121,55 +1119,14 @@ protected:
     }
 
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
-                                                                    util::match_endian(hi, lo, msb,
-                                                                                       lsb)) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
-            }
-            set_(i, b);
-        }
+    void update_(const logic<op_hi, op_lo, op_signed> &op) {
+        update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
-    void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
-            }
-            set_(i, b);
-        }
+    void update_(int64_t hi, int64_t lo, const logic<op_hi, op_lo, op_signed> &op) {
+        value.update_(hi, lo, op.value);
+        xz_mask.update_(hi, lo, op.xz_mask);
     }
 };
 
-- 
2.43.0


From 98de1a1877d0c9f69b0afa6bc0f004de6fc861c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 25/45] fix: concatenation and unpacking of wide, narrow,
 signed and mixed vectors

---
 include/logic/bit.hh   | 79 +++++++++++++++++++-----------------------
 include/logic/logic.hh | 43 +++++------------------
 2 files changed, 45 insertions(+), 77 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index a7a06cb..5b0c75e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -31,6 +31,8 @@ public:
     // position of a declared index in the storage. can be out of bounds
     static constexpr int64_t position(int64_t idx) { return big_endian ? idx - lsb : lsb - idx; }
     static constexpr bool in_bounds(int64_t pos) { return pos >= 0 && pos < size; }
+    // declared index of a position in the storage
+    static constexpr int index(int pos) { return big_endian ? pos + lsb : lsb - pos; }
 
 
     // basic formatting
@@ -215,28 +217,20 @@ public:
      * concatenation
      */
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
-        if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+        bit<final_size - 1> res;
+        if constexpr (util::native_num(final_size)) {
+            res.set_word(raw_word() << arg0_size | arg0.raw_word());
         } else {
-            auto res = bit<final_size - 1>();
-            if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
-                // convert to big num
-                big_num<arg0_size, false> b(arg0.value);
-                auto big_num = value.concat(b);
-                res.big_num = big_num;
-            } else {
-                auto big_num = value.concat(arg0.value);
-                res.big_num = big_num;
-            }
-            return res;
+            res.value = to_big_num().concat(arg0.to_big_num());
         }
+        return res;
     }
 
     template <typename U, typename... Ts>
-    auto concat(U arg0, Ts... args) {
+    requires(sizeof...(Ts) > 0) auto concat(U arg0, Ts... args) const {
         return concat(arg0).concat(args...);
     }
 
@@ -245,13 +239,10 @@ public:
      */
     template <typename... Ts>
     [[maybe_unused]] auto unpack(Ts &...args) const {
-        if constexpr (big_endian) {
-            auto tuples = std::forward_as_tuple(args...);
-            auto reversed = util::reverse_tuple(tuples);
-            std::apply([this](auto &&...args) { this->template unpack_(args...); }, reversed);
-        } else {
-            return this->template unpack_(args...);
-        }
+        // the last one gets the right-most bits
+        auto tuples = std::forward_as_tuple(args...);
+        auto reversed = util::reverse_tuple(tuples);
+        std::apply([this](auto &&...args) { this->template unpack_<0>(args...); }, reversed);
     }
 
     /*
@@ -976,34 +967,25 @@ private:
     /*
      * unpacking, which is basically slicing as syntax sugars
      */
-    template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-    requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
+    // base is the position in the storage
+    template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
+    requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0,
+                                       Ts &...args) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
+        arg0 = this->template slice_<index(base), index(upper_bound)>();
+        this->template unpack_<base + arg0_size>(args...);
     }
 
-    template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
-        auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
+    template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
+    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0,
+                                       Ts &...args) const {
+        this->template unpack_<base>(arg0.value, args...);
         arg0.xz_mask.clear();
     }
 
-    template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
-    [[maybe_unused]] auto unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
-        auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
-        this->template unpack_<base + arg0_size>(args...);
-    }
-
-    template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
-    [[maybe_unused]] auto unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
-        auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
-        this->template unpack_<base + arg0_size>(args...);
-    }
+    template <int>
+    void unpack_() const {}
 
     template <int, int, bool, bool>
     friend struct bit;
@@ -1073,6 +1055,17 @@ private:
         }
     }
 
+    // the bits as an unsigned big number
+    [[nodiscard]] big_num<size, false> to_big_num() const {
+        big_num<size, false> res;
+        if constexpr (native_num) {
+            res.values[0] = raw_word();
+        } else {
+            res.values = value.values;
+        }
+        return res;
+    }
+
     // native number as a 64-bit word without any sign extension
     [[nodiscard]] constexpr uint64_t raw_word() const requires(native_num) {
         return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index a68c561..6cb8a75 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -220,9 +220,10 @@ public:
      * concatenation
      */
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr final_size = size + logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        // always unsigned, LRM 11.8.1
+        auto res = logic<final_size - 1, 0>();
         res.value = value.concat(arg0.value);
         // concat masks as well
         res.xz_mask = xz_mask.concat(arg0.xz_mask);
@@ -230,17 +231,17 @@ public:
     }
 
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr final_size = size + bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1, 0>();
         res.value = value.concat(arg0);
         // concat masks as well
-        res.xz_mask = xz_mask.template extend<final_size>();
+        res.xz_mask = xz_mask.concat(bit<arg0_msb, arg0_lsb>());
         return res;
     }
 
     template <typename U, typename... Ts>
-    constexpr auto concat(U arg0, Ts... args) {
+    requires(sizeof...(Ts) > 0) constexpr auto concat(U arg0, Ts... args) const {
         return this->concat(arg0).concat(args...);
     }
 
@@ -249,13 +250,8 @@ public:
      */
     template <typename... Ts>
     auto unpack(Ts &...args) const {
-        if constexpr (big_endian) {
-            auto tuples = std::forward_as_tuple(args...);
-            auto reversed = util::reverse_tuple(tuples);
-            std::apply([this](auto &&...args) { this->template unpack_(args...); }, reversed);
-        } else {
-            return this->template unpack_(args...);
-        }
+        value.unpack(args.value...);
+        xz_mask.unpack(args.xz_mask...);
     }
 
     /*
@@ -1077,28 +1073,7 @@ private:
         xz_mask.template set<idx, false>();
     }
 
-    /*
-     * unpacking, which is basically slicing as syntax sugars
-     */
-    template <int base, int arg0_msb, int arg0_lsb, int arg0_signed>
-    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
-        auto constexpr arg0_size = logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = value.template slice<base, upper_bound>();
-        arg0.xz_mask = xz_mask.template slice<base, upper_bound>();
-    }
-
-    template <int base = lsb, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
-    [[maybe_unused]] auto unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
-        auto constexpr arg0_size = logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
-        this->template unpack_<base + arg0_size>(args...);
-    }
 
-    template <int>
-    [[maybe_unused]] void unpack_() const {
-        // noop to keep gcc happy
-    }
 
     template <bool l_signed>
     void set_(int64_t idx, const logic<0, 0, l_signed> &l) {
-- 
2.43.0


From 8da3d76b57a223f9e399b6d973828d4a414d8b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 26/45] fix: construct vectors from integers and from vectors
 of another sign or range

---
 include/logic/big_num.hh |  5 +++--
 include/logic/bit.hh     | 10 ++++++++++
 include/logic/logic.hh   | 10 +++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 1476fd3..a172a9b 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -880,8 +880,9 @@ public:
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-    explicit constexpr big_num(T v) : values({v}) {
-        if constexpr (signed_) {
+    explicit constexpr big_num(T v) : values({static_cast<big_num_holder_type>(v)}) {
+        // extended with the sign of the value, regardless of the target
+        if constexpr (std::is_signed_v<T>) {
             if (v < 0) {
                 for (auto i = 1u; i < s; i++) {
                     values[i] = std::numeric_limits<big_num_holder_type>::max();
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 5b0c75e..de0277e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -913,6 +913,9 @@ public:
     }
 
     explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) { mask_off(); }
+    // only keep the low bit. converting to bool directly doesn't do that
+    template <typename K>
+    requires(std::is_integral_v<K> && size == 1) explicit constexpr bit(K v) : value(v & 1) {}
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
@@ -957,6 +960,13 @@ public:
         assign_(b);
     }
 
+    // shifting msb and lsb
+    template <int new_msb, int new_lsb>
+    requires(util::abs_diff(new_msb, new_lsb) ==
+             util::abs_diff(msb, lsb)) explicit constexpr bit(const bit<new_msb, new_lsb> &b) {
+        assign_(b);
+    }
+
     static constexpr bit<0> one_() {
         bit<0> r;
         r.value = true;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 6cb8a75..8ba3486 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1014,7 +1014,12 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
         value = b.value;
-        xz_mask = b.xz_mask;
+        if constexpr (new_signed) {
+            // an x or z sign bit is extended as well
+            xz_mask = b.xz_mask.to_signed();
+        } else {
+            xz_mask = b.xz_mask;
+        }
         return *this;
     }
 
@@ -1027,8 +1032,7 @@ public:
 
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
-        xz_mask = b.xz_mask;
+        *this = b;
     }
 
     // useful constants
-- 
2.43.0


From c5146fbd1861b5ddbc0ce08354439613d935a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 27/45] fix: parse lower case hex digits, upper case unknown
 digits and digits above bit 31

---
 src/util.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..cea8b34 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -57,7 +57,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == '1' || c == 'z') {
+                if (idx < 64 && (c == '1' || c == 'z' || c == 'Z')) {
                     result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
@@ -70,15 +70,16 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                uint64_t s;
+                uint64_t s = 0;
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == '_')
                     s = 0;
                 else if (c == 'z' || c == 'Z')
                     s = 0b111;
-                else
+                else if (c >= '0' && c <= '7')
                     s = c - '0';
-                result |= s << (idx * 3ull);
+                // digits above 64 bits are dropped
+                if (idx * 3ull < 64) result |= s << (idx * 3ull);
                 if (c != '_') idx++;
             }
             break;
@@ -97,10 +98,10 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
-                result |= s << (idx * 4ull);
+                if (idx * 4ull < 64) result |= s << (idx * 4ull);
                 if (c != '_') idx++;
             }
             break;
@@ -132,8 +133,8 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == 'x' || c == 'z') {
-                    result |= 1u << idx;
+                if (idx < 64 && (c == 'x' || c == 'X' || c == 'z' || c == 'Z')) {
+                    result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
             }
@@ -149,7 +150,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b111;
-                    result |= s << (idx * 3);
+                    if (idx * 3 < 64) result |= s << (idx * 3);
                 }
                 if (c != '_') idx++;
             }
@@ -164,7 +165,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b1111;
-                    result |= s << (idx * 4);
+                    if (idx * 4 < 64) result |= s << (idx * 4);
                 }
                 if (c != '_') idx++;
             }
-- 
2.43.0


From 752b442e36731289fe1e2c27d961dd59a916bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 28/45] fix: parse literals wider than 64 bits digit by digit
 (octal, decimal and underscores across words)

---
 src/util.cc | 74 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index cea8b34..c3a5306 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -202,48 +202,64 @@ uint64_t get_stride(char base) {
     }
 }
 
+// value = value * 10 + digit. whatever doesn't fit is dropped
+void append_decimal(char digit, uint64_t num_array, uint64_t* ptr) {
+    uint64_t carry = digit - '0';
+    for (auto i = 0u; i < num_array; i++) {
+        auto v = static_cast<__uint128_t>(ptr[i]) * 10 + carry;
+        ptr[i] = static_cast<uint64_t>(v);
+        carry = static_cast<uint64_t>(v >> 64);
+    }
+}
+
+// place digits one by one, since they may not be aligned with the 64-bit boundary
+template <typename F>
+void parse_digits(std::string_view value, char base, uint64_t size, uint64_t* ptr, F parse_digit) {
+    auto const stride = get_stride(base);
+    uint64_t pos = 0;
+    for (auto i = 0ull; i < value.size() && pos < size; i++) {
+        auto c = value[value.size() - i - 1];
+        if (c == '_' && base != 's' && base != 'S') continue;
+        auto v = parse_digit(std::string_view(&c, 1), base);
+        auto const idx = pos / 64;
+        auto const offset = pos % 64;
+        ptr[idx] |= v << offset;
+        if (offset + stride > 64 && idx + 1 < (size + 63) / 64) {
+            ptr[idx + 1] |= v >> (64 - offset);
+        }
+        pos += stride;
+    }
+}
+
+// drop the bits that are not part of the number
+void clear_unused(uint64_t size, uint64_t* ptr) {
+    if (size % 64) ptr[size / 64] &= std::numeric_limits<uint64_t>::max() >> (64 - size % 64);
+}
+
 void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
-    // use existing functions to parse single uint64_t values, except for decimals.
-    // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
     value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
-    auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
+    std::fill(ptr, ptr + num_array, 0);
+    if (base == 'd' || base == 'D') {
+        for (auto c : value) {
+            if (c >= '0' && c <= '9') append_decimal(c, num_array, ptr);
+        }
+    } else {
+        parse_digits(value, base, size, ptr, parse_raw_str_);
     }
+    clear_unused(size, ptr);
 }
 
 void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
-    // use existing functions to parse single uint64_t values, except for decimals.
-    // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
     value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
-    auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_xz_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
-    }
+    std::fill(ptr, ptr + num_array, 0);
+    parse_digits(value, base, size, ptr, parse_xz_raw_str_);
+    clear_unused(size, ptr);
 }
 
 constexpr std::array<uint64_t, 128> compute_decimal_size() {
-- 
2.43.0


From be935af601dca5439cba9a2c513562858ca78462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 29/45] fix: literals are truncated to the declared width

---
 include/logic/bit.hh   | 3 +--
 include/logic/logic.hh | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index de0277e..17916ea 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -905,8 +905,7 @@ public:
      */
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
-            value = static_cast<T>(util::parse_raw_str(v));
-            mask_off();
+            set_word(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
         }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 8ba3486..b041db5 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -989,8 +989,8 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
-            xz_mask.value = util::parse_xz_raw_str(v);
+            value.set_word(util::parse_raw_str(v));
+            xz_mask.set_word(util::parse_xz_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
-- 
2.43.0


From 425b5807c670176f93338079960183dcc5757747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 30/45] fix: a quote inside a raw string is not a base prefix

---
 src/util.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index c3a5306..eb6a9e7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -7,20 +7,21 @@
 namespace logic::util {
 
 constexpr std::pair<char, uint64_t> get_input_base(std::string_view value) {
-    char base = 'b';
+    // without a base it's a raw string
+    char base = 's';
     uint64_t pos = 0;
 
     auto p = value.find_first_of('\'');
-    if (p != std::string::npos) {
+    // only an optional size can be in front of the base
+    if (p != std::string::npos && value.find_first_not_of("0123456789_") == p) {
         // need to find the next base values
         value = value.substr(p + 1);
         auto b = value.find_first_not_of("0123456789");
-        if (b != std::string::npos) {
+        constexpr std::string_view bases = "bBoOdDhHsS";
+        if (b != std::string::npos && bases.find(value[b]) != std::string::npos) {
             base = value[b];
             pos = b + 1 + p + 1;
         }
-    } else {
-        base = 's';
     }
 
     return {base, pos};
-- 
2.43.0


From eff42ec3d0fc69d1e00f3a51a9f216d2f2f8a040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 31/45] fix: decimal field width of 128-bit vectors

---
 src/util.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index eb6a9e7..beebbf4 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -263,15 +263,15 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     clear_unused(size, ptr);
 }
 
-constexpr std::array<uint64_t, 128> compute_decimal_size() {
-    // we precompute 128 entries of decimal sizes. if larger than that we need to
+constexpr std::array<uint64_t, 129> compute_decimal_size() {
+    // we precompute entries up to 128 bits of decimal sizes. if larger than that we need to
     // recompute each time. no caching allowed for the sakes of concurrency since
     // we need to protect the cache with a mutex if that is the case
-    std::array<uint64_t, 128> result{};
+    std::array<uint64_t, 129> result{};
     // zero is ill-defined
     result[0] = 1;
 
-    for (auto i = 1u; i < 128; i++) {
+    for (auto i = 1u; i <= 128; i++) {
         __uint128_t value = 0;
         value = ~value;
         // shift based on the size
-- 
2.43.0


From ac8b6c1413e650ae9ec16f91667d2e08c446aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:47 +0000
Subject: [PATCH 32/45] fix: two-state vectors are formatted as four-state
 vectors of the same value

---
 src/util.cc | 129 +++++-----------------------------------------------
 1 file changed, 11 insertions(+), 118 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index beebbf4..2bdb43c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -398,58 +398,6 @@ std::string format_value_2power(char base, uint64_t value) {
     return ss.str();
 }
 
-std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    // now print out the format
-    std::stringstream ss;
-    switch (base) {
-        case 'b':
-        case 'B': {
-            auto b = std::bitset<64>(value);
-            auto s = b.to_string().substr(64 - size);
-            // need to reverse it
-            std::reverse(s.begin(), s.end());
-            ss << s;
-            break;
-        }
-        case 'o':
-        case 'O':
-        case 'x':
-        case 'h':
-        case 'X':
-        case 'H': {
-            ss << format_value_2power(base, value);
-            break;
-        }
-        case 's':
-        case 'S':
-            for (auto i = 0u; i < size; i += 8) {
-                auto c = value >> (i * 8) & 0xFF;
-                ss << c;
-            }
-            break;
-        case 'd':
-        case 'D': {
-            if (value == 0) {
-                ss << 0;
-            } else {
-                while (value > 0) {
-                    auto r = value % 10;
-                    ss << r;
-                    value /= 10;
-                }
-            }
-            break;
-        }
-        default:;
-    }
-    return pad_result(is_negative, base, actual_size, padding, ss);
-}
-
 uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max() >> (64 - stride); }
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
@@ -604,72 +552,6 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, uint6
     return to_string_(fmt, size, value, xz_mask, is_negative, true);
 }
 
-std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* value, bool is_negative,
-                       bool use_padding) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-
-    std::stringstream ss;
-    if (base != 'd' && base != 'D') {
-        // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
-        if (base == 'o' || base == 'O') {
-            auto num_chunks = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 3));
-            for (auto i = 0u; i < num_chunks; i++) {
-                auto start = i * 3;
-                auto value_idx = start / 64;
-                auto start_idx = start % 64;
-                // if it's across the 64-bit boundary
-                uint64_t v;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                } else {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                }
-                auto s = to_string(fmt, 3, v, false);
-                ss << s;
-            }
-        } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string(fmt, 64, value[i], false);
-            }
-            if (size % 64) {
-                ss << to_string(fmt, size % 64, value[num_array - 1], false);
-            }
-        }
-    } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-        }
-        v |= value[0];
-        auto q = v;
-        while (q != 0) {
-            auto r = q % 10;
-            ss << static_cast<uint64_t>(r);
-            q = q / 10;
-        }
-    }
-
-    if (use_padding)
-        return pad_result(is_negative, base, actual_size, padding, ss);
-    else
-        return ss.str();
-}
-
-std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
-                      bool is_negative) {
-    return to_string_(fmt, size, value, is_negative, true);
-}
-
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
                       const uint64_t* xz_mask, bool is_negative) {
     char base;
@@ -772,6 +654,17 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
     return pad_result(is_negative, base, actual_size, padding, ss);
 }
 
+// two-state values are formatted as four-state values without any x or z
+std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
+    return to_string(fmt, size, value, 0, is_negative);
+}
+
+std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
+                      bool is_negative) {
+    auto const xz_mask = std::vector<uint64_t>((size + 63) / 64, 0);
+    return to_string(fmt, size, value, xz_mask.data(), is_negative);
+}
+
 bool decimal_fmt(std::string_view fmt) {
     auto base = get_output_base(fmt);
     return base == 'd' || base == 'D';
-- 
2.43.0


From f6f00c30f84e95525ddfd1ce0a3f1978b566dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 33/45] fix: digits that are not full and sign-extended holders
 in formatting

---
 src/util.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 2bdb43c..c6f25ac 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -402,9 +402,10 @@ uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max()
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
     auto stride = get_stride(base);
-    const auto mask = get_mask(stride);
     std::stringstream ss;
     for (auto i = 0u; i < size; i += stride) {
+        // the most significant digit may not have all the bits
+        const auto mask = get_mask(std::min<uint64_t>(stride, size - i));
         auto v = (value >> i) & mask;
         auto xz = (xz_mask >> i) & mask;
         if (xz != 0) {
@@ -499,6 +500,10 @@ std::string to_string_(std::string_view fmt, uint64_t size, uint64_t value, uint
     bool padding;
     parse_fmt(fmt, size, base, actual_size, padding);
 
+    // native holders of signed numbers are sign extended
+    value &= get_mask(size);
+    xz_mask &= get_mask(size);
+
     std::stringstream ss;
 
     // need to obey the rule of LRM 21.2.1.4
-- 
2.43.0


From 7792df418e87e97d778a8a23cfe1c099c533ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 34/45] fix: format the last word and the octal digits across
 words of wide vectors

---
 src/util.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index c6f25ac..d38efcf 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -578,26 +578,24 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 // if it's across the 64-bit boundary
                 uint64_t v;
                 uint64_t xz;
-                if ((64 - start_idx) < 3) {
+                if ((64 - start_idx) < 3 && value_idx + 1 < num_array) {
                     v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    v |= (value[value_idx + 1] << (64 - start_idx)) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                    xz |= (xz_mask[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    xz |= (xz_mask[value_idx + 1] << (64 - start_idx)) & 0x7;
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
                 }
-                auto s = to_string_(fmt, 3, v, xz, false, false);
+                auto s = to_string_(fmt, std::min<uint64_t>(3, size - start), v, xz, false, false);
                 ss << s;
             }
         } else {
             for (auto i = 0u; i < num_array - 1; i++) {
                 ss << to_string_(fmt, 64, value[i], xz_mask[i], false, false);
             }
-            if (size % 64) {
-                ss << to_string_(fmt, size % 64, value[num_array - 1], xz_mask[num_array - 1],
-                                 false, false);
-            }
+            ss << to_string_(fmt, size - 64 * (num_array - 1), value[num_array - 1],
+                             xz_mask[num_array - 1], false, false);
         }
 
     } else {
-- 
2.43.0


From 0bf2b558f63c836ce928c9f4e7ee07b5b76c4b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:54 +0000
Subject: [PATCH 35/45] fix: decimal text of zero and unknown wide vectors

---
 src/util.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index d38efcf..9d884ee 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -614,12 +614,13 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
         xz |= xz_mask[0];
         if (xz != 0) {
             // contains x/z
-            if ((~xz) == 0) {
+            auto const mask = ~static_cast<__uint128_t>(0) >> (128 - size_);
+            if (xz == mask) {
                 // all x or z
                 if (v == 0) {
                     ss << 'x';
                 } else {
-                    if ((~v) == 0) {
+                    if (v == mask) {
                         // all z
                         ss << 'z';
                     } else {
@@ -646,11 +647,11 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
             }
         } else {
             auto q = v;
-            while (q != 0) {
+            do {
                 auto r = q % 10;
                 ss << static_cast<uint64_t>(r);
                 q = q / 10;
-            }
+            } while (q != 0);
         }
     }
 
-- 
2.43.0


From 627e6b4f932ef7a56dc29c42e24cb20cfe722fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:04 +0000
Subject: [PATCH 36/45] fix: decimal text of unknown signed values

---
 include/logic/logic.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index b041db5..0156d0e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -26,7 +26,8 @@ public:
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (signed_) {
-            auto is_negative = value.negative();
+            // unknown values don't have a sign
+            auto is_negative = value.negative() && !xz_mask.any_set();
             if (is_negative && util::decimal_fmt(fmt)) {
                 auto value_ = value.negate().value;
                 if constexpr (util::native_num(size)) {
-- 
2.43.0


From 4d32c2321a13c0acd2b2185850a573983bf767a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:22 +0000
Subject: [PATCH 37/45] fix: numeric value of one-bit signed vectors

---
 include/logic/bit.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 17916ea..bd9a9d1 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -850,7 +850,7 @@ public:
      */
     [[nodiscard]] uint64_t to_uint64() const {
         if constexpr (native_num) {
-            return value;
+            return extended_word();
         } else {
             return value.to_uint64();
         }
@@ -872,7 +872,9 @@ public:
         }
     }
 
-    [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) { return value; }
+    [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) {
+        return static_cast<int8_t>(extended_word());
+    }
 
     [[nodiscard]] uint8_t to_num() const requires(!signed_ && size <= 8) { return value; }
 
-- 
2.43.0


From 6bb26ee91f37101db2032c20cf4472e594ae6ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 38/45] fix: element addresses and bounds of packed arrays

---
 include/logic/array.hh | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..d3b733d 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -42,6 +42,10 @@ private:
     }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
+    constexpr static bool declared(int64_t index) {
+        return index >= util::min(msb, lsb) && index <= util::max(msb, lsb);
+    }
+
 public:
     // compute the base size
     static constexpr auto base_size = T::size;
@@ -78,41 +82,29 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
-        // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        // if the value is not a declared index, we return X
+        int64_t const index = op.to_index();
+        if (!declared(index)) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
             auto idx = index - util::min(msb, lsb);
             auto start_addr = idx * base_size;
             auto end_addr = (idx + 1) * base_size;
-            return VT::template slice<base_size>(start_addr, end_addr);
+            return VT::template slice<base_size>(end_addr - 1, start_addr);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        int64_t const index = op.to_index();
+        if (!declared(index)) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
             auto idx = index - util::min(msb, lsb);
-            int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
-            VT::template update_(start_addr, end_addr, value);
+            int64_t start_addr = idx * base_size;
+            int64_t end_addr = (idx + 1) * base_size;
+            VT::template update_(end_addr - 1, start_addr, value);
         }
     }
 
-- 
2.43.0


From 6c54ac93f276bd1c1329d8309d7926609b9e108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 39/45] fix: stores to declared indices of unpacked arrays that
 don't start at 0

---
 include/logic/array.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index d3b733d..27e16b2 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -123,7 +123,7 @@ public:
 
     const T &operator[](int idx) const {
         const static T x_ = T{};
-        auto i = static_cast<uint32_t>(idx - util::min(msb, lsb));
+        auto i = static_cast<uint64_t>(static_cast<int64_t>(idx) - util::min(msb, lsb));
         if (i >= size) {
             return x_;
         } else {
@@ -133,11 +133,12 @@ public:
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
-        // need to compute the base
-        auto constexpr i = idx - util::min(msb, lsb);
-        // use the underlying logic implementation
-        value[i] = v;
+        if constexpr (util::in_bounds(idx, idx, msb, lsb)) {
+            // need to compute the base
+            auto constexpr i = idx - util::min(msb, lsb);
+            // use the underlying logic implementation
+            value[i] = v;
+        }
     }
 
 private:
-- 
2.43.0


From 424213286e3bb30cfe2f6abc0fffb02613398a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 40/45] fix: saturate slice bounds close to the limits of
 int64_t

---
 include/logic/bit.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index bd9a9d1..00b9e02 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -29,7 +29,10 @@ public:
      * declared indices. bit 0 of the storage is always the right-most one
      */
     // position of a declared index in the storage. can be out of bounds
-    static constexpr int64_t position(int64_t idx) { return big_endian ? idx - lsb : lsb - idx; }
+    static constexpr int64_t position(int64_t idx) {
+        idx = util::max(-util::max_index, util::min(idx, util::max_index));
+        return big_endian ? idx - lsb : lsb - idx;
+    }
     static constexpr bool in_bounds(int64_t pos) { return pos >= 0 && pos < size; }
     // declared index of a position in the storage
     static constexpr int index(int pos) { return big_endian ? pos + lsb : lsb - pos; }
-- 
2.43.0


From ad3e252b8de008e1252bedb86b2fe5861ddfcc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 41/45] fix: operators on equally wide operands of any declared
 range

---
 include/logic/bit.hh   | 40 ++++++++++++++++++++++++----------------
 include/logic/logic.hh | 40 ++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 00b9e02..3ae714e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -304,8 +304,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
         result.mask_off();
@@ -336,8 +337,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
         result.mask_off();
@@ -368,8 +370,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
         result.mask_off();
@@ -584,8 +587,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result.set_word(raw_word() + op.raw_word());
@@ -613,8 +617,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result.set_word(raw_word() - op.raw_word());
@@ -642,8 +647,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result.set_word(raw_word() * op.raw_word());
@@ -671,8 +677,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (!native_num) {
             result.value = value % op.value;
@@ -709,8 +716,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (!native_num) {
             result.value = value / op.value;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0156d0e..5cd7efe 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -278,8 +278,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 0 0 0
@@ -338,8 +339,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 1 x x
@@ -403,8 +405,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 1 0 x x
@@ -721,8 +724,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -753,8 +757,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -785,8 +790,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -817,8 +823,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
@@ -850,8 +857,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
-- 
2.43.0


From 4fe631c656012cbab6ada29c4e518aa3ef0eb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 42/45] fix: post-increments of vectors whose range doesn't end
 at 0

---
 include/logic/bit.hh   | 4 ++--
 include/logic/logic.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3ae714e..6e82c7c 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -444,14 +444,14 @@ public:
 
     // NOLINTNEXTLINE
     bit<size - 1, 0, signed_> operator++(int) {
-        bit<size - 1, 0, signed_> v = *this;
+        bit<size - 1, 0, signed_> v(*this);
         this->operator++();
         return v;
     }
 
     // NOLINTNEXTLINE
     bit<size - 1, 0, signed_> operator--(int) {
-        bit<size - 1, 0, signed_> v = *this;
+        bit<size - 1, 0, signed_> v(*this);
         this->operator--();
         return v;
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 5cd7efe..be2d8d4 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -509,14 +509,14 @@ public:
 
     // NOLINTNEXTLINE
     logic<size - 1, 0, signed_> operator++(int) {
-        logic<size - 1, 0, signed_> v = *this;
+        logic<size - 1, 0, signed_> v(*this);
         this->operator++();
         return v;
     }
 
     // NOLINTNEXTLINE
     logic<size - 1, 0, signed_> operator--(int) {
-        logic<size - 1, 0, signed_> v = *this;
+        logic<size - 1, 0, signed_> v(*this);
         this->operator--();
         return v;
     }
-- 
2.43.0


From c7e53781d25cd71611513a85cbf995dc34811f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:40 +0000
Subject: [PATCH 43/45] fix: highest bit of a native negative vector

---
 include/logic/bit.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 6e82c7c..9afe14b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -806,7 +806,7 @@ public:
             if (value == 0)
                 return size;
             else {
-                auto r = __builtin_clzll(static_cast<uint64_t>(value));
+                auto r = __builtin_clzll(raw_word());
                 return 64 - r - 1;
             }
         } else {
-- 
2.43.0


From 77fc75f8a58ee901a55bbff6b1f559a236e9603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:04 +0000
Subject: [PATCH 44/45] fix: complement of a big_num kept set bits above its
 size

---
 include/logic/big_num.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index a172a9b..207018b 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -173,9 +173,7 @@ public:
             result.values[i] = ~values[i];
         }
         // mask off the top bit, if any
-        for (auto i = size; i < s * big_num_threshold; i++) {
-            result.set(i, false);
-        }
+        result.mask_off();
         return result;
     }
 
-- 
2.43.0


From cd2fba265a7a881be2ee761978e75347b4143205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:17 +0000
Subject: [PATCH 45/45] fix: mixed-sign operands of a big_num operator are
 extended as unsigned

---
 include/logic/big_num.hh | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 207018b..64a7f8a 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -127,6 +127,14 @@ public:
         }
     }
 
+    // per LRM 11.8.2 operands are extended according to the sign of the whole expression
+    template <uint64_t op_size, bool as_signed>
+    big_num<op_size, as_signed> extend_as() const {
+        big_num<size, as_signed> v;
+        v.values = values;
+        return v.template extend<op_size>();
+    }
+
     // doesn't matter about the sign, but endianness must match
     template <uint64_t ss, bool num_signed>
     auto concat(const big_num<ss, num_signed> &num) const {
@@ -202,8 +210,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto and_(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l & r;
         return result;
     }
@@ -237,8 +245,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto xor_(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l ^ r;
         return result;
     }
@@ -272,8 +280,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto or_(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l | r;
         return result;
     }
@@ -558,8 +566,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto add(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l + r;
         return result;
     }
@@ -580,8 +588,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto minus(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l - r;
         return result;
     }
@@ -641,8 +649,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto multiply(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l * r;
         return result;
     }
@@ -662,8 +670,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto divide(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l / r;
         return result;
     }
@@ -683,8 +691,8 @@ public:
     requires(target_size >=
              util::max(size, op_size)) auto mod(const big_num<op_size, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template extend_as<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template extend_as<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l % r;
         return result;
     }
-- 
2.43.0

