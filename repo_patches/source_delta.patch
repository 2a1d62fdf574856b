From 8b74dd24d24a7b0fb5bd592e7f14d0a4f204eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 01/79] fix: WidthMask must be all ones for the full word width

Shifting by 64 is undefined; depending on the optimiser the mask came out as 0.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..04ccaed 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (1ull << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From cc5a830fc0e607fd96b18790fcc06a12bf9c0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 02/79] fix: portable popcnt32 overflows its 4-bit sums

popcnt32(0xFFFFFFFF) returned 1; sel and everything above it were wrong on
dense words.
---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 04ccaed..8b0060e 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0Fu;
+    return 0x01010101u*x >> 24;
 #endif
 }
 
-- 
2.43.0


From 1e3d57739a4ada71c0849a222fb9e5f24b6c7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 03/79] fix: portable clz of a 32-bit word was off by 32

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 8b0060e..6316292 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -294,7 +294,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From c2bb50365d585c4527ea21e05b9a8dd7f62ba6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 04/79] fix: sel does not compile when BMI2 is enabled

_pdep_u64 returns unsigned long long, which makes the call of ctz ambiguous.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 6316292..c352bd1 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -511,7 +511,7 @@ constexpr uint8_t kLtSel[9][256] = {
 /* Select operation for 1 index at byte */
 inline int sel(uint64_t x, size_t i) {
 #ifdef __BMI2__
-    return ctz(_pdep_u64(1ull << (i-1), x)) + 1; // for 1 index
+    return ctz(static_cast<uint64_t>(_pdep_u64(1ull << (i-1), x))) + 1; // for 1 index
 #else
     size_t ret = 0;
     auto bit_cnt = bit_util::popcnt32(x);
-- 
2.43.0


From f8779fcd9c2422fb37a5c3ae84c8bb036d579360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 05/79] fix: clz256 counted the words below the highest one
 instead of those above

---
 include/sim_ds/bit_util256.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a32e93b..854e8d9 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -76,7 +76,7 @@ inline int ctz256(const uint64_t* x_addr) {
 
 inline int clz256(const uint64_t* x_addr) {
     for (int i = 3; i >= 0; i--) if (*(x_addr+i))
-        return 64 * i + clz(*(x_addr+i));
+        return 64 * (3-i) + clz(*(x_addr+i));
     return 256;
 }
 
-- 
2.43.0


From 9fc6cd18186c2d2e42303ecee7ccb7c1e2c11105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 06/79] fix: xor_map must be inline in a header

---
 include/sim_ds/bit_util256.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index 854e8d9..5f3880e 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -83,7 +83,7 @@ inline int clz256(const uint64_t* x_addr) {
 
 // MARK: - xor_map
 
-void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
+inline void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
     for (int i = 0; i < 4; i++)
         *(dst_addr+i) = *(x_addr+i);
     if (mask & 1) {
@@ -133,7 +133,7 @@ void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
 }
 
 #if defined(__AVX2__)
-__m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
+inline __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
     if (mask & 1) {
         x = _mm256_or_si256(_mm256_slli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0x5555555555555555)), 1),
                             _mm256_srli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0xAAAAAAAAAAAAAAAA)), 1));
-- 
2.43.0


From 7a347ce46a19bf5f3443b5f9e65c0c3a246444ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 07/79] fix: xor_map_intrinsics does not compile when AVX-512
 is enabled

The AVX-512 branch used intrinsics that do not exist; the AVX2 code is used
for every such target.
---
 include/sim_ds/bit_util256.hpp | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index 5f3880e..5a98b6a 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -146,18 +146,6 @@ inline __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
         x = _mm256_or_si256(_mm256_slli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0x0F0F0F0F0F0F0F0F)), 4),
                             _mm256_srli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0xF0F0F0F0F0F0F0F0)), 4));
     }
-#if defined(__AVX512VL__) && defined(__AVX512F__)
-    if (mask & 8)
-        x = _mm256_permutexvar_epi8(_mm256_set_epi8(30, 31, 28, 29, 26, 27, 24, 25, 22, 23, 20, 21, 18, 19, 16, 17, 14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1), x);
-    if (mask & 16)
-        x = _mm256_permutexvar_epi16(_mm256_set_epi16(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1), x);
-    if (mask & 32)
-        x = _mm256_permutexvar_epi32(_mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1), x);
-    if (mask & 64)
-        x = _mm256_permutexvar_epi64(_mm256_set_epi64(2, 3, 0, 1), x);
-    if (mask & 128)
-        x = _mm256_permutexvar_epi128(_mm256_set_epi128(0, 1), x);
-#else
     if (mask & 8)
         x = _mm256_or_si256(_mm256_srli_epi16(x, 8), _mm256_slli_epi16(x, 8));
     if (mask & 16)
@@ -168,7 +156,6 @@ inline __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
         x = _mm256_permute4x64_epi64(x, 0b10110001);
     if (mask & 128)
         x = _mm256_permute2x128_si256(x, x, 0x21);
-#endif
     return x;
 }
 #endif
-- 
2.43.0


From 50e23885d1919c030a4abe512a4df05dbfad367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 08/79] fix: 256-bit copy and fill must accept any word-aligned
 address

The AVX2 variants assumed 32-byte alignment, which neither the interface nor
the portable variants require and std::vector<uint64_t> does not provide.
---
 include/sim_ds/bit_util256.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index 5a98b6a..a045fa0 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -18,7 +18,7 @@ namespace sim_ds::bit_util {
 inline void set256_epi1(bool bit, uint64_t* x_addr) {
 #ifdef __AVX2__
     uint64_t mask = bit ? uint64_t(-1) : uint64_t(0);
-    _mm256_store_si256(reinterpret_cast<__m256i*>(x_addr), _mm256_set1_epi64x(mask));
+    _mm256_storeu_si256(reinterpret_cast<__m256i*>(x_addr), _mm256_set1_epi64x(mask));
 #else
     uint64_t mask = bit ? uint64_t(-1) : uint64_t(0);
     for (int i = 0; i < 4; i++)
@@ -31,7 +31,7 @@ inline void set256_epi1(bool bit, uint64_t* x_addr) {
 
 inline void copy256_epi64(const uint64_t* x_addr, uint64_t* dst_addr) {
 #ifdef __AVX2__
-    _mm256_store_si256(reinterpret_cast<__m256i*>(dst_addr), _mm256_load_si256(reinterpret_cast<const __m256i*>(x_addr)));
+    _mm256_storeu_si256(reinterpret_cast<__m256i*>(dst_addr), _mm256_loadu_si256(reinterpret_cast<const __m256i*>(x_addr)));
 #else
     for (int i = 0; i < 4; i++)
         *(dst_addr+i) = *(x_addr+i);
-- 
2.43.0


From c50989800fe511bb16626d93ca9bd51529d19d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 09/79] fix: SizeFitsInUnits shifted by the word width for
 large values

SizeFitsInBits(1ull << 63) never returned.
---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..f228d88 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -15,7 +15,7 @@ namespace sim_ds::calc {
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
     size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    while (++size * unit < sizeof(value) * 8 && static_cast<bool>(value >> (size * unit))) continue;
     return size;
 }
 
-- 
2.43.0


From 8dba71fc76c4334552b22209014158f0403bde84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 10/79] fix: the multiplier table lacks an entry for 64-bit
 keys

64 is the default width of MultiplyHash and SplitMixHash; it read past the end
of the table and ihash did not invert hash.
---
 include/sim_ds/BijectiveHash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..fbf042c 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -88,7 +88,8 @@ constexpr uint64_t PRIME_TABLE[][2][3] = {
     {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
     {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
     {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}},  // 64
 };
 
 class MultiplyHash {
-- 
2.43.0


From 97953bf7e428e8f0561b80098700ae289b1589d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 11/79] fix: the split search of DACs wrote one entry past its
 result

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index f228d88..41c4cf2 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -120,7 +120,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From 136b62ed678f60fd9c055b3d8112a4bd14888fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 12/79] fix: calc.hpp must include what it uses

---
 include/sim_ds/calc.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 41c4cf2..e5a5714 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -8,6 +8,13 @@
 #ifndef calc_hpp
 #define calc_hpp
 
+#include <cstddef>
+#include <cstdint>
+#include <algorithm>
+#include <iostream>
+#include <iterator>
+#include <limits>
+#include <utility>
 #include <vector>
 
 namespace sim_ds::calc {
-- 
2.43.0


From 30e365ac74102c9a2c85d2d90217d24c489492d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 13/79] fix: log.hpp must include what it uses

---
 include/sim_ds/log.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/log.hpp b/include/sim_ds/log.hpp
index 60c380c..473d3e0 100644
--- a/include/sim_ds/log.hpp
+++ b/include/sim_ds/log.hpp
@@ -10,6 +10,7 @@
 
 #include <cstdio>
 #include <iomanip>
+#include <iostream>
 
 namespace sim_ds {
     
-- 
2.43.0


From d3347fd7299e84be46c54caa1279404212a8fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 14/79] fix: writing an empty vector must not form a reference
 to its first element

---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index c6f7f0d..3892803 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -109,7 +109,7 @@ inline void write_val(const T& val, std::ostream& os) {
 template<typename T, class A>
 inline void write_vec(const std::vector<T, A> &vec, std::ostream &os) {
     write_val(vec.size(), os);
-    os.write(reinterpret_cast<const char*>(&vec[0]), sizeof(T) * vec.size());
+    os.write(reinterpret_cast<const char*>(vec.data()), sizeof(T) * vec.size());
 }
 
 inline void write_string(const std::string &str, std::ostream &os) {
-- 
2.43.0


From cd8df35ce708b8b2b2af96db5676cce7cad88ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 15/79] fix: address of a constant bit reference does not
 compile

---
 include/sim_ds/BitReference.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 82f78bb..b756af8 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -76,7 +76,7 @@ public:
     }
     
     BitIterator<_Bv, true> operator&() const {
-        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(__ctz(mask_)));
+        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(bit_util::ctz(mask_)));
     }
     
 private:
-- 
2.43.0


From db737889f4242581a2f3f7952146abf306aedc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 16/79] fix: post-increment and post-decrement of bit iterators
 do not compile

---
 include/sim_ds/BitReference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index b756af8..3a0c4fe 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -129,7 +129,7 @@ public:
     
     BitIterator operator++(int) {
         BitIterator itr = *this;
-        ++this;
+        ++(*this);
         return itr;
     }
     
@@ -145,7 +145,7 @@ public:
     
     BitIterator operator--(int) {
         BitIterator itr = *this;
-        --this;
+        --(*this);
         return itr;
     }
     
-- 
2.43.0


From 2716a2a16a7442ac88ed27a441f9d5c2a575eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 17/79] fix: bit iterators from references and const_iterator
 from iterator do not compile

---
 include/sim_ds/BitReference.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 3a0c4fe..c4b40be 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -31,6 +31,8 @@ class BitReference {
     friend class BitIterator<_Bv, false>;
     
 public:
+    BitReference(const BitReference&) = default;
+    
     operator bool() const {
         return static_cast<bool>(*seg_ & mask_);
     }
@@ -199,6 +201,9 @@ private:
     BitIterator(_word_pointer pointer, size_t ctz) : seg_(pointer), ctz_(ctz) {}
     
     friend typename _Bv::_self;
+    friend class BitReference<_Bv>;
+    friend class BitConstReference<_Bv>;
+    friend class BitIterator<_Bv, true>;
     
 };
 
-- 
2.43.0


From e11c11e683d93bc996ebaedc8a7c394289c587f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 18/79] fix: BitVector(10) selects the constructor from
 containers and does not compile

---
 include/sim_ds/BitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/BitVector.hpp b/include/sim_ds/BitVector.hpp
index 1891ce1..462c3c2 100644
--- a/include/sim_ds/BitVector.hpp
+++ b/include/sim_ds/BitVector.hpp
@@ -164,7 +164,7 @@ public:
         std::transform(bits.begin(), bits.end(), _base::_make_iter(0), [](bool b) {return b;});
     }
 
-    template <typename BitArray>
+    template <typename BitArray, typename = std::enable_if_t<not std::is_arithmetic_v<BitArray>>>
     BitVector(const BitArray& bits) : _base(bits.size()) {
         std::transform(bits.begin(), bits.end(), _base::_make_iter(0), [](auto b) {return bool(b);});
     }
-- 
2.43.0


From 264fa9f010afe38cf55daf21283c8e1a3918b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 19/79] fix: elements of width 0 have no storage but are
 dereferenced

---
 include/sim_ds/FitVector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 50d271a..342182a 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -125,7 +125,7 @@ public:
     size_t unit_width() const { return bits_per_element_; }
     
     void resize(size_t size) {
-        storage_.resize(size == 0 or bits_per_element_ == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        storage_.resize(num_words_(size));
         size_ = size;
     }
     
@@ -143,7 +143,7 @@ public:
     }
     
     void reserve(size_t size) {
-        storage_.reserve(size == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        storage_.reserve(num_words_(size));
     }
     
     void push_back(value_type value) {
@@ -166,6 +166,10 @@ public:
     }
     
 private:
+    size_t num_words_(size_t size) const {
+        return size == 0 ? 0 : bits_per_element_ == 0 ? 1 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1;
+    }
+    
     size_t abs_(size_t index) const {return index * bits_per_element_ / kBitsPerWord;}
     
     size_t rel_(size_t index) const {return index * bits_per_element_ % kBitsPerWord;}
-- 
2.43.0


From 1cea7ffb4af302a808f08a2903375b0a9e6b68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 20/79] fix: elements added after a shrink must be zero

---
 include/sim_ds/FitVector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 342182a..d937ee0 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -125,6 +125,9 @@ public:
     size_t unit_width() const { return bits_per_element_; }
     
     void resize(size_t size) {
+        const auto end_bit = size_ * bits_per_element_;
+        if (size > size_ and end_bit % kBitsPerWord != 0) // drop what a previous shrink left behind
+            storage_[end_bit / kBitsPerWord] &= bit_util::WidthMask(end_bit % kBitsPerWord);
         storage_.resize(num_words_(size));
         size_ = size;
     }
-- 
2.43.0


From b59abdffb9a0745ed3309f213aaae5748deec1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 21/79] fix: FitVector iterators step by single bits, name a
 member that does not exist and return references to locals

---
 include/sim_ds/BitsReference.hpp | 55 +++++++++++++++-----------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/include/sim_ds/BitsReference.hpp b/include/sim_ds/BitsReference.hpp
index 0ce649c..b51837e 100644
--- a/include/sim_ds/BitsReference.hpp
+++ b/include/sim_ds/BitsReference.hpp
@@ -31,6 +31,7 @@ class BitsReference {
     
     friend typename Sequence::Self;
     friend class BitsConstReference<Sequence>;
+    friend class BitsIterator<Sequence, false>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -84,6 +85,7 @@ class BitsConstReference {
     const word_type mask_;
     
     friend typename Sequence::Self;
+    friend class BitsIterator<Sequence, true>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -118,6 +120,8 @@ public:
     using value_type = typename Sequence::value_type;
     using difference_type = typename Sequence::difference_type;
     using reference = std::conditional_t<IsConst, BitsConstReference<Sequence>, BitsReference<Sequence>>;
+    using pointer = BitsIterator;
+    using iterator_category = std::random_access_iterator_tag;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -128,24 +132,19 @@ private:
     word_pointer seg_;
     size_t start_;
     
-    const size_t bits_per_entity_;
+    size_t bits_per_entity_;
     
 public:
     BitsIterator() : seg_(nullptr), start_(0), bits_per_entity_(64) {}
     
-    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.offset_), bits_per_entity_(x.bits_per_entity_) {}
+    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.start_), bits_per_entity_(x.bits_per_entity_) {}
     
-    value_type operator*() const {
+    reference operator*() const {
         return reference(seg_, start_, bits_per_entity_, bit_util::WidthMask(bits_per_entity_));
     }
     
     BitsIterator& operator++() {
-        if (start_ == kBitsPerWord - 1) {
-            ++seg_;
-            start_ = 0;
-        } else {
-            ++start_;
-        }
+        return *this += 1;
     }
     
     BitsIterator operator++(int) {
@@ -155,12 +154,7 @@ public:
     }
     
     BitsIterator& operator--() {
-        if (start_ == 0) {
-            --seg_;
-            start_ = kBitsPerWord - 1;
-        } else {
-            --start_;
-        }
+        return *this -= 1;
     }
     
     BitsIterator operator--(int) {
@@ -170,13 +164,9 @@ public:
     }
     
     BitsIterator& operator+=(difference_type difference) {
-        if (difference >= 0) {
-            seg_ += (start_ + difference) / kBitsPerWord;
-        } else {
-            seg_ += static_cast<difference_type>(-difference - kBitsPerWord + start_ + 1) / static_cast<difference_type>(kBitsPerWord);
-        }
-        difference &= kBitsPerWord - 1;
-        start_ = static_cast<size_t>((difference + start_) % kBitsPerWord);
+        const auto bit = static_cast<difference_type>(start_) + difference * static_cast<difference_type>(bits_per_entity_);
+        start_ = static_cast<size_t>(bit & static_cast<difference_type>(kBitsPerWord - 1));
+        seg_ += (bit - static_cast<difference_type>(start_)) / static_cast<difference_type>(kBitsPerWord);
         return *this;
     }
     
@@ -184,29 +174,33 @@ public:
         return *this += -difference;
     }
     
-    BitsIterator& operator+(difference_type difference) {
+    BitsIterator operator+(difference_type difference) const {
         BitsIterator itr = *this;
         itr += difference;
         return itr;
     }
     
-    BitsIterator& operator-(difference_type difference) {
+    BitsIterator operator-(difference_type difference) const {
         BitsIterator itr = *this;
         itr -= difference;
         return itr;
     }
     
-    friend BitsIterator& operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
+    friend BitsIterator operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
     
-    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {return static_cast<difference_type>(x.seg_ - y.seg_) * kBitsPerWord + static_cast<difference_type>(x.offset_ - y.offset_);}
+    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {
+        const auto bits = (x.seg_ - y.seg_) * static_cast<difference_type>(kBitsPerWord)
+                        + static_cast<difference_type>(x.start_) - static_cast<difference_type>(y.start_);
+        return bits / static_cast<difference_type>(x.bits_per_entity_);
+    }
     
-    value_type operator[](difference_type pos) const {return *(*this + pos);}
+    reference operator[](difference_type pos) const {return *(*this + pos);}
     
-    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.offset_ == y.offset_;}
+    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.start_ == y.start_;}
     
     friend bool operator!=(const BitsIterator& x, const BitsIterator& y) {return !(x == y);}
     
-    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.offset_ < y.offset_);}
+    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.start_ < y.start_);}
     
     friend bool operator>(const BitsIterator& x, const BitsIterator& y) {return y < x;}
     
@@ -218,6 +212,9 @@ private:
     BitsIterator(word_pointer seg, size_t start, size_t bits_per_entity) : seg_(seg), start_(start), bits_per_entity_(bits_per_entity) {}
     
     friend typename Sequence::Self;
+    friend class BitsReference<Sequence>;
+    friend class BitsConstReference<Sequence>;
+    friend class BitsIterator<Sequence, true>;
     
 };
 
-- 
2.43.0


From 501c592e2ae7eb0880fc0b368ca51e3e9e5943b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 22/79] fix: assignment to a block flows off its end

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..8e73c4e 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From 985d3b1cb411e1415400f5545740b9f410d5fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 23/79] fix: set_element_sizes and LoadFrom must replace the
 existing table

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 8e73c4e..4aa36fd 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -239,6 +239,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From 5412908f7562ffd822152bb5452a22857608f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 24/79] fix: size of a MultipleVector without elements reads
 past the table

---
 include/sim_ds/MultipleVector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 4aa36fd..2fec190 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -248,6 +248,8 @@ public:
     }
     
     size_t block_size() const {
+        if (element_table_.empty())
+            return 0;
         auto& elem_back = element_table_.back();
         return elem_back.pos + elem_back.size;
     }
@@ -257,7 +259,7 @@ public:
     }
     
     size_t size() const {
-        return bytes_.size() / block_size();
+        return block_size() == 0 ? 0 : bytes_.size() / block_size();
     }
     
     reference block(size_t index) {
-- 
2.43.0


From dcf2e637bfce7f9ab31ce62695899192889b88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 25/79] fix: set_at shifts narrow values by more than their
 width

---
 include/sim_ds/MultipleVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 2fec190..f6c9b59 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -58,7 +58,7 @@ public:
     
     template <typename T>
     id_type set_at(size_t id, T x) {
-        return _set_at(id, x);
+        return _set_at(id, static_cast<id_type>(x));
     }
     
     _self operator=(std::initializer_list<id_type> x) {
-- 
2.43.0


From 10c31bf9fdc70d82013b3587142c5b3836a6f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 26/79] fix: a default constructed SuccinctBitVector has no
 block to answer rank from

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..b92d5b0 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -20,7 +20,7 @@ private:
     /* Contains large/small block as follows:
      * || large tip - 64bits - || small tip reversal - 9bits - | ... * 8||   -- 127bits per block
      */
-    std::vector<uint64_t> basic_block_;
+    std::vector<uint64_t> basic_block_ = std::vector<uint64_t>(2);
     // Available if only UseSelect
     std::vector<uint32_t> select_tips_;
     
-- 
2.43.0


From bbd25029c20b364eeeecc45eff794070b8c49ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 27/79] fix: rank(size()) reads the word past the end

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index b92d5b0..eae43dd 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -133,7 +133,7 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            (index%64 == 0 ? 0 : bit_util::cnt(bits_.data()[index/64], index%64)));
 }
 
 
-- 
2.43.0


From 64fd64fbf022bc8e21a32cd6c80a4ef94940ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 28/79] fix: select reads past the tips when the last block
 passes a multiple of 512 ones

---
 include/sim_ds/SuccinctBitVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index eae43dd..96a7fbc 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -152,7 +152,8 @@ SuccinctBitVector<true>::select(size_t index) const {
     if (select_tips_.size() != 0) {
         auto select_tip_index = i / 512;
         left = select_tips_[select_tip_index];
-        right = select_tips_[select_tip_index + 1] + 1;
+        if (select_tip_index + 1 < select_tips_.size())
+            right = select_tips_[select_tip_index + 1] + 1;
     }
     while (left + 1 < right) {
         const auto center = (left + right) / 2;
-- 
2.43.0


From 49fb968f938d9d654a006b9302564fa9905862ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 29/79] fix: an empty DacVector has indeterminate layers and
 writes what it cannot read

---
 include/sim_ds/DacVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..b9c1f04 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -121,13 +121,13 @@ public:
     }
     
 private:
-    size_t num_layers_;
+    size_t num_layers_ = 0;
     std::vector<size_t> layers_unit_bits_;
     std::vector<layer_type> layers_;
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() = default;
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -141,7 +141,7 @@ public:
     
     // MARK: getter
     
-    size_t size() const {return layers_[0].size();}
+    size_t size() const {return layers_.empty() ? 0 : layers_[0].size();}
     
     bool empty() const {return size() == 0;}
     
-- 
2.43.0


From 6611fe331740cd2659d54e2cd838e9a8381d0fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 30/79] fix: unit lists wider than the data read past the
 frequency list

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index b9c1f04..fb2de31 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -268,7 +268,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     { // Memory reservation
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
-        for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
+        for (size_t i = 0, t = 0; i < num_layers and t < cf.size(); t += layers_unit_bits_[i], i++) {
             layers_[i].reserve(cf[t]);
             if (i < num_layers - 1)
                 paths_src_[i].reserve(cf[t]);
-- 
2.43.0


From b4bf90e402455b8e2d0091249389897af80aa189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 31/79] fix: ShowStatus reads a path that does not exist

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index fb2de31..4c57a78 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -230,7 +230,7 @@ public:
         os << "size:   " << size_bytes << endl;
         os << "sizeBits/element:   " << (float(size_bytes * 8) / size()) << endl;
         auto bitsSize = 0;
-        for (size_t i = 0; i == 0 || i + 1 < num_layers(); i++)
+        for (size_t i = 0; i + 1 < num_layers(); i++)
             bitsSize += paths_[i].size_in_bytes();
         os << "size bits:   " << bitsSize << endl;
         auto flowSize = 0;
-- 
2.43.0


From 7a26ebc0853e47826d9d1de29988766e768d5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 32/79] fix: DacVector shifts by the word width when a unit has
 64 bits

---
 include/sim_ds/DacVector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 4c57a78..0055047 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -275,10 +275,11 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         }
     }
     
+    const auto drop = [](value_type x, size_t bits) {return bits < 64 ? x >> bits : 0;};
     for (auto v : vector) {
         value_type x = v;
         layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));
-        x >>= layers_unit_bits_[0];
+        x = drop(x, layers_unit_bits_[0]);
         for (size_t depth = 1; depth < num_layers; depth++) {
             bool exist = x > 0;
             paths_src_[depth - 1].push_back(exist);
@@ -286,7 +287,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
                 break;
             auto unit_bits = layers_unit_bits_[depth];
             layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));
-            x >>= unit_bits;
+            x = drop(x, unit_bits);
         }
     }
     
-- 
2.43.0


From 7ed2796185fee4ec6125787f32e51d6497c0a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 33/79] fix: DacVector::operator[] must be inline in a header

---
 include/sim_ds/DacVector.hpp         | 2 +-
 include/sim_ds/SuccinctBitVector.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 0055047..80a368a 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -296,7 +296,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         paths_.emplace_back(std::move(path));
 }
 
-DacVector::value_type DacVector::operator[](size_t index) const {
+inline DacVector::value_type DacVector::operator[](size_t index) const {
     value_type value = layers_[0][index];
     for (size_t depth = 1, shift_bits = layers_unit_bits_[depth - 1], i = index;
          depth < num_layers();
diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 96a7fbc..26b8cb1 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -138,13 +138,13 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
 
 
 template <>
-size_t
+inline size_t
 SuccinctBitVector<false>::select([[maybe_unused]] size_t index) const {
     throw "select(size_t) is not supported. You must use SuccinctBitVector<true>.";
 }
 
 template <>
-size_t
+inline size_t
 SuccinctBitVector<true>::select(size_t index) const {
     size_t left = 0, right = num_blocks();
     size_t i = index;
-- 
2.43.0


From c858dbf3bac810b1bbbb19d3b9ce88f3b8eb9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 34/79] fix: WaveletTree::Read must take the number of nodes
 from the stream

---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..4fd2ec9 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -128,6 +128,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((size_t(1) << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From 4cd88ac7e26018b05862ab5bda76976f606bbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 35/79] fix: rank(c, i) asserts that the element at i is c

---
 include/sim_ds/WaveletTree.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 4fd2ec9..28de10d 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -85,7 +85,6 @@ public:
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
             auto bit = (c >> (height_ - 1 - depth)) & 1;
-            assert(bit == cbv[idx]);
             idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);
             id = (id << 1) | bit;
         }
-- 
2.43.0


From 539625a427ca4eadf5931cd09dc0b15a83b2e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 36/79] fix: a WaveletTree over no elements dereferences the
 end, and size_ is never set

---
 include/sim_ds/WaveletTree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 28de10d..67df234 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -27,8 +27,13 @@ private:
     std::vector<bv_type> bv_list_;
     
 public:
+    WaveletTree() = default;
+    
     template <typename T>
     WaveletTree(const std::vector<T>& vec) {
+        if (vec.empty())
+            return;
+        size_ = vec.size();
         size_t max_char = *std::max_element(vec.begin(), vec.end());
         leafs_ = max_char + 1;
         
@@ -106,7 +111,7 @@ public:
     }
     
     size_t size() const {
-        return bv_list_[0].size();
+        return size_;
     }
     
     size_t node_diff(size_t node, size_t diff_height) {
-- 
2.43.0


From 1cbcab23e1cbcae3488d432d528eaf17fbd684e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 37/79] fix: CHT::erase looks for the wrong quotient

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..aff3222 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -175,7 +175,7 @@ public:
         }
 
         auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
+        auto quo = initial_h >> bucket_bits_;
         auto initial_i = initial_h & bucket_mask_;
         if (!IsOccupied(initial_i))
             return;
-- 
2.43.0


From 47757fc38a5e42d709b8ee67aac2a87acd66fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 38/79] fix: CHT::get returns erased entries

---
 include/sim_ds/CHT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index aff3222..3aca0de 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -96,6 +96,8 @@ public:
         i = ToClusterHead(i);
         do {
             if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From 763005f786d7cd201ad91ffc35bb2d803a9ee44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 39/79] fix: the deleted mark must move with its entry

---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 3aca0de..9b85688 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -142,8 +142,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From 04130f89e546c95722fdffda75220ac6c4d48319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 40/79] fix: a CHT full of erased entries never makes room

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 9b85688..7cbe1ac 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -114,7 +114,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max(size(), size_t(1))*2);
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From 5b38af1ee6bf5c3ee31523a1cadd1e26a89ae901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 41/79] fix: a default constructed CHT has indeterminate
 members

---
 include/sim_ds/CHT.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 7cbe1ac..1106a88 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -24,16 +24,16 @@ public:
     static constexpr uint64_t kDeletedMask = 1u << 3;
 
 private:
-    unsigned key_bits_;
-    size_t bucket_size_;
-    unsigned bucket_bits_;
-    uint64_t bucket_mask_;
-    size_t max_size_;
-    size_t min_size_;
+    unsigned key_bits_ = 0;
+    size_t bucket_size_ = 0;
+    unsigned bucket_bits_ = 0;
+    uint64_t bucket_mask_ = 0;
+    size_t max_size_ = 0;
+    size_t min_size_ = 0;
     BijectiveHash hasher_;
     FitVector arr_;
     FitVector values_;
-    uint64_t quo_mask_;
+    uint64_t quo_mask_ = 0;
     size_t size_ = 0;
     size_t used_ = 0;
 
-- 
2.43.0


From 5a968c552a5ba7b4f72485c25a5da0948cc3d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 42/79] fix: CDRWArray::set erases from the table of another
 width

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..8d6d885 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -46,7 +46,7 @@ public:
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
         if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
+            sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
-- 
2.43.0


From f192019f5b62a1ddbc7011767227af2cae88b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 43/79] fix: push_back to an empty CDRWVector dereferences null

---
 include/sim_ds/CDRWArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 8d6d885..2032f7b 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -16,7 +16,7 @@ private:
 public:
     explicit CDRWArray(size_t size=0) : size_(size) {
         if (size == 0) return;
-        auto size_bits = 64-bit_util::clz((uint64_t)size-1);
+        auto size_bits = std::max(64-(int)bit_util::clz((uint64_t)size-1), 1);
         widthes_ = FitVector(7, size);
         for (int i = 0; i < 64; i++) {
             sat_table_[i] = CHT<0>(size_bits);
@@ -99,7 +99,7 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max(size()*2, size_t(1)));
         size_++;
         set(size()-1, value);
     }
-- 
2.43.0


From d2478f479d0f992394874778334d29b506b1a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 44/79] fix: CDRWVector asserts that every capacity is a power
 of two

---
 include/sim_ds/CDRWArray.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 2032f7b..5e2dcdf 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -121,7 +121,6 @@ public:
 private:
     void _allocate(size_t new_cap) {
         assert(new_cap >= size());
-        assert(bit_util::popcnt(new_cap) == 1);
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-- 
2.43.0


From 50f172afa01e102225c8d66f5a784c05c931a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 45/79] fix: Heap::push breaks the heap order

---
 include/sim_ds/Heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..e316e08 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,9 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (auto id = size(); id > root() and Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))
+            std::swap(base_[id - 1], base_[parent(id) - 1]);
     }
     
     void pop() {
-- 
2.43.0


From 1342ede93669d90a22a0bbcdc694f33e145584ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 46/79] fix: WaveletTree::size of a tree read from a stream
 written before size_ was set

---
 include/sim_ds/WaveletTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 67df234..9ffb6ad 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -111,7 +111,7 @@ public:
     }
     
     size_t size() const {
-        return size_;
+        return bv_list_.empty() ? 0 : bv_list_[0].size();
     }
     
     size_t node_diff(size_t node, size_t diff_height) {
-- 
2.43.0


From f39abe09a5a84c03f5cd81e4fbf05ce3470da56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 47/79] fix: CHT.hpp must include what it uses

---
 include/sim_ds/CDRWArray.hpp | 3 +++
 include/sim_ds/CHT.hpp       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 5e2dcdf..7deff78 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -5,6 +5,9 @@
 #include "FitVector.hpp"
 #include "CHT.hpp"
 
+#include <algorithm>
+#include <array>
+
 namespace sim_ds {
 
 class CDRWArray {
diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 1106a88..eb9ec45 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -6,6 +6,8 @@
 #include "bit_util.hpp"
 
 #include <bitset>
+#include <functional>
+#include <queue>
 
 namespace sim_ds {
 
-- 
2.43.0


From 994f4e662ea000a2292b18554bc2db683b123055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 48/79] fix: InitializableArray.hpp must include what it uses

---
 include/sim_ds/InitializableArray.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..169d977 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -4,6 +4,12 @@
 #include <array>
 #include <vector>
 #include <bitset>
+#include <cassert>
+#include <cstdint>
+#include <cstring>
+#include <iostream>
+#include <iterator>
+#include <limits>
 #include <numeric>
 #include <type_traits>
 
-- 
2.43.0


From efcbe26f41f9edadcebd9c9c274d9a6f7c0bee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 49/79] fix: pattern matching functions must be inline in a
 header

---
 .../sim_ds/string_util/PatternMatching.hpp    | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..6f2d5c5 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -22,7 +22,7 @@ public:
     virtual ~_PatternMatchingInterface();
     virtual std::vector<size_t> find_all(std::string_view text) const = 0;
 };
-_PatternMatchingInterface::~_PatternMatchingInterface() {}
+inline _PatternMatchingInterface::~_PatternMatchingInterface() {}
 
 class _PatternMatchingBase : protected _PatternMatchingInterface {
 public:
@@ -34,7 +34,7 @@ public:
     ~_PatternMatchingBase();
     size_t key_size() const {return key_.size();}
 };
-_PatternMatchingBase::~_PatternMatchingBase() {}
+inline _PatternMatchingBase::~_PatternMatchingBase() {}
 
 
 // MARK: Simple
@@ -47,7 +47,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Simple::find_all(std::string_view text) const {
     std::vector<size_t> matchies;
     if (text.size() < key_.size())
@@ -91,7 +91,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Kmp::find_all(std::string_view text) const {
     std::vector<size_t> matchies;
     difference_type pos = 0;
@@ -126,7 +126,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Bm::find_all(std::string_view text) const {
     const size_t kWindowSize = key_.size();
     
@@ -160,7 +160,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Bom::find_all(std::string_view text) const {
     const long long kWindowSize = key_.size();
     
@@ -209,7 +209,7 @@ private:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 TurboBom::find_all(std::string_view text) const {
     const long long kWindowSize = key_.size();
     const long long kKmpWindowSize = kAlpha * kWindowSize;
@@ -272,7 +272,7 @@ public:
     const Pat* ordered_pattern(size_t num) const {return &pattern_[num];}
     
 };
-Sunday::~Sunday() {}
+inline Sunday::~Sunday() {}
 
 
 class SundayQS : public Sunday {
@@ -294,7 +294,7 @@ public:
  
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 SundayQS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
@@ -366,7 +366,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 SundayMS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
@@ -390,31 +390,31 @@ SundayMS::find_all(std::string_view text) const {
 
 // MARK: - Pattern matching functions
 
-std::vector<size_t> PatternMatchSimple(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSimple(std::string_view text, std::string_view key) {
     return Simple(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchKMP(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchKMP(std::string_view text, std::string_view key) {
     return Kmp(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchBM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchBM(std::string_view text, std::string_view key) {
     return Bm(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchBOM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchBOM(std::string_view text, std::string_view key) {
     return Bom(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchTurboBOM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchTurboBOM(std::string_view text, std::string_view key) {
     return TurboBom(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchSundayQS(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSundayQS(std::string_view text, std::string_view key) {
     return SundayQS(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchSundayMS(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSundayMS(std::string_view text, std::string_view key) {
     return SundayMS(key).find_all(text);
 }
 
-- 
2.43.0


From 2af022637f1627ab5b9f0e3654d6a101e6efd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 50/79] fix: skip tables of BM and Sunday are indexed by
 negative characters and lack 0xFF

---
 include/sim_ds/string_util/PatternMatching.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 6f2d5c5..a861015 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -114,9 +114,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -140,7 +140,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip_[uint8_t(text[i])];
         
     }
     return matchies;
@@ -283,9 +283,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[uint8_t(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
-- 
2.43.0


From 2fa2e365ec2b28a2c13c93f427f30bc78f725066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 51/79] fix: Sunday compares characters of different signedness

---
 include/sim_ds/string_util/PatternMatching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index a861015..d75ccd5 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -244,7 +244,7 @@ TurboBom::find_all(std::string_view text) const {
 
 class Sunday : protected _PatternMatchingBase {
 protected:
-    using Pat = std::pair<difference_type, uint8_t>;
+    using Pat = std::pair<difference_type, char>;
     std::vector<Pat> pattern_;
     
 public:
-- 
2.43.0


From 8ab5b67903cd36032b25b7394dcd1a429ebb6828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 52/79] fix: KMP reads past the key after a match

---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index d75ccd5..b69fd09 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From c20f82a907fa31c904cd14b016548667b498e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 53/79] fix: Sunday searches read past a text shorter than the
 key

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index b69fd09..e6a243b 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -301,7 +301,7 @@ SundayQS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == text[i + pat->first]) {
@@ -373,7 +373,7 @@ SundayMS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == text[i + pat->first]) {
-- 
2.43.0


From ee7e896b692fa59de55db2d5c638bab01eae90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 54/79] fix: KMP and BM read out of bounds when the key is
 empty

---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index e6a243b..aa366ca 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -93,6 +93,8 @@ public:
 
 inline std::vector<size_t>
 Kmp::find_all(std::string_view text) const {
+    if (key_.empty())
+        return Simple(key_).find_all(text);
     std::vector<size_t> matchies;
     difference_type pos = 0;
     for (size_t i = 0; i < text.size(); i++) {
@@ -116,7 +118,7 @@ private:
     
 public:
     Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
-        for (size_t i = 0; i < key.size() - 1; i++) {
+        for (size_t i = 0; i + 1 < key.size(); i++) {
             skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
@@ -129,6 +131,8 @@ public:
 
 inline std::vector<size_t>
 Bm::find_all(std::string_view text) const {
+    if (key_.empty())
+        return Simple(key_).find_all(text);
     const size_t kWindowSize = key_.size();
     
     std::vector<size_t> matchies;
-- 
2.43.0


From 1054338a1bf9853be0d55cc82259e6cf665bff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 55/79] fix: a factor oracle over the empty text writes to an
 empty table

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..b9cc8e7 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.size() < kNumStates) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From ba5c34b392684c9d40fc1582ea25ec9c8fd50909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 56/79] fix: transitions on NUL are lost when a state moves

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index b9cc8e7..ad26189 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -167,7 +167,7 @@ public:
         if (b == kEmptyValue)
             return {};
         std::vector<id_type> transes;
-        for (size_t c = 1; c <= 0xff; c++) {
+        for (size_t c = 0; c <= 0xff; c++) {
             auto n = next(b ^ c);
             if (used_trans_[b ^ c] and n > 0 and check(n) == c) {
                 transes.push_back(n);
-- 
2.43.0


From 05e2849924d199266016073f1594d9a515056984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 57/79] fix: FactorOracle::image reads past the last state

---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index ad26189..6e8c68f 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -238,6 +238,8 @@ public:
     
     explicit FactorOracleBaseCTAFO(std::string_view text) : FactorOracleBaseCTAFO(text.begin(), text.end()) {}
     
+    size_t num_states() const {return base_.size();}
+    
     uint8_t check(size_t index) const {return index == 0 ? '\0' : check_[index - 1];}
     
     id_type base(size_t index) const {return base_[index];}
@@ -281,7 +283,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state + 1 < Base::num_states() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From 3ef0c6ef8b903ceb37d7a3e8ea7c7273a21b5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 58/79] fix: suffix arrays of texts with NUL or bytes above
 0x7F index out of bounds

---
 include/sim_ds/string_util/SuffixArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..880598d 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -130,7 +130,7 @@ void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
-    vector<size_t> sArr = Sais_(strVec, 0xff);
+    vector<size_t> sArr = Sais_(strVec, 0x100);
     // Erase first element. suffix[0]: '\0'
     sArr.erase(sArr.begin());
     s_arr_ = FitVector(sArr);
@@ -140,7 +140,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is the end
     saisS.push_back(0);
 }
 
-- 
2.43.0


From e1076a44e196e00ddcda3adf3d740eb07450828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 59/79] fix: the suffix array of the empty text reads past its
 statistics

---
 include/sim_ds/string_util/SuffixArray.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 880598d..9a7a3e8 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -314,6 +314,9 @@ inline void SuffixArray::BuildLCP_() {
     
     lcp_arr_ = FitVector(lcp_arr);
     
+    if (lcp_arr.empty())
+        return;
+    
     size_t maxL = 0;
     long long sum = 0;
     std::sort(lcp_arr.begin(), lcp_arr.end());
-- 
2.43.0


From 06460f23f613cac51ca7f5dcdfd2aa8f3dc5a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 60/79] fix: SuffixArray members must be inline in a header

---
 include/sim_ds/string_util/SuffixArray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 9a7a3e8..abf7889 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -126,7 +126,7 @@ private:
     
 };
 
-void SuffixArray::BuildSA_(const string &str) {
+inline void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
@@ -137,7 +137,7 @@ void SuffixArray::BuildSA_(const string &str) {
 }
 
 
-void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
+inline void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
         saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is the end
@@ -145,7 +145,7 @@ void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
 }
 
 
-void SuffixArray::MakeBuckets_(vector<Bucket> &buckets, const vector<size_t> &str, size_t maxValue) const {
+inline void SuffixArray::MakeBuckets_(vector<Bucket> &buckets, const vector<size_t> &str, size_t maxValue) const {
     buckets.resize(maxValue + 1);
     for (auto s : str) {
         buckets[s].count++;
-- 
2.43.0


From 52fed791d7067464e0668c7e4588b2e5f235f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 61/79] fix: terminal() of a trie with narrow indices is always
 true

---
 include/sim_ds/string_util/graph_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..456fb40 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -49,7 +49,7 @@ public:
         item_index_ = item_index;
     }
     
-    bool terminal() const {return item_index() != -1;}
+    bool terminal() const {return item_index() != kItemEmpty;}
     
     template <class ACTION>
     void for_each_edge(ACTION action) const {
@@ -122,7 +122,7 @@ public:
     
     item_type* traverse(std::string_view key) {
         auto item_index = _traverse(key);
-        return item_index != -1 ? &storage_[item_index] : nullptr;
+        return item_index != size_t(-1) ? &storage_[item_index] : nullptr;
     }
     
     template <class NODE_ACTION>
-- 
2.43.0


From 5eeb503e199aa8a46cfc786008ae4c64bc99f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 62/79] fix: sim_ds.hpp includes a header that does not exist

---
 include/sim_ds.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds.hpp b/include/sim_ds.hpp
index 20867e9..32a1cc4 100644
--- a/include/sim_ds.hpp
+++ b/include/sim_ds.hpp
@@ -20,7 +20,6 @@
 #include "sim_ds/string_util/PatternMatching.hpp"
 #include "sim_ds/string_util/graph_util.hpp"
 #include "sim_ds/string_util/Samc.hpp"
-#include "sim_ds/EmptyLinkedVector.hpp"
 #include "sim_ds/InitializableArray.hpp"
 #include "sim_ds/bit_util.hpp"
 #include "sim_ds/bit_util256.hpp"
-- 
2.43.0


From bd05271de64f55cde9740b16c6b0310fa335b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 63/79] fix: InitializableArray of 64-bit elements does not
 compile

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 169d977..d3fca5d 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -77,7 +77,7 @@ class _InitializableArray;
 
 template <typename T, size_t Size>
 using InitializableArray = _InitializableArray<T, Size,
-    (1ull<<(std::numeric_limits<T>::digits)) >= (Size+(Size%2))>;
+    (std::numeric_limits<T>::digits >= 64 or (1ull<<(std::numeric_limits<T>::digits%64)) >= (Size+(Size%2)))>;
 
 
 // In-Place Initializable Arrays for a Special Case
-- 
2.43.0


From 71dea6b3a6a4509ec05084e2f00c3b39b9d60169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 64/79] fix: iterators of InitializableArray do not compile

---
 include/sim_ds/InitializableArray.hpp | 36 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index d3fca5d..f82eac9 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -271,23 +271,31 @@ public:
     
 private:
     template <bool IsConst>
-    class _iterator : public std::iterator<std::random_access_iterator_tag, T> {
-        using _base = std::iterator<std::random_access_iterator_tag, T>;
+    class _iterator {
     public:
-        using ptrdiff_t = typename _base::ptrdiff_t;
-        using reference_type = std::conditional_t<IsConst, const_reference, reference>;
+        using iterator_category = std::random_access_iterator_tag;
+        using value_type = T;
+        using difference_type = std::ptrdiff_t;
+        using ptrdiff_t = std::ptrdiff_t;
+        using reference = std::conditional_t<IsConst, typename _InitializableArray::const_reference, typename _InitializableArray::reference>;
+        using reference_type = reference;
+        using pointer = void;
     private:
-        const _InitializableArray &arr_;
+        using array_type = std::conditional_t<IsConst, const _InitializableArray, _InitializableArray>;
+        array_type *arr_;
         size_t i_;
         friend class _InitializableArray;
-        _iterator(const _InitializableArray &arr, size_t i) : arr_(arr), i_(i) {}
+        _iterator(array_type &arr, size_t i) : arr_(&arr), i_(i) {}
     public:
-        reference_type operator*() const { return reference_type(arr_, i_); }
+        reference_type operator*() const { return (*arr_)[i_]; }
+        friend bool operator==(const _iterator &l, const _iterator &r) { return l.i_ == r.i_; }
+        friend bool operator!=(const _iterator &l, const _iterator &r) { return l.i_ != r.i_; }
+        friend ptrdiff_t operator-(const _iterator &l, const _iterator &r) { return ptrdiff_t(l.i_) - ptrdiff_t(r.i_); }
         _iterator& operator++() { ++i_; return *this; }
         _iterator operator++(int) { auto c = *this; ++(*this); return c; }
         _iterator& operator--() { --i_; return *this; }
         _iterator operator--(int) { auto c = *this; --(*this); return c; }
-        _iterator operator+(ptrdiff_t x) const { return _iterator(arr_, i_ + x); }
+        _iterator operator+(ptrdiff_t x) const { return _iterator(*arr_, i_ + x); }
         _iterator& operator+=(ptrdiff_t x) { return *this = *this + x; }
         _iterator operator-(ptrdiff_t x) const { return *this + -x; }
         _iterator& operator-=(ptrdiff_t x) { return *this = *this - x; }
@@ -296,12 +304,12 @@ public:
     using const_iterator = _iterator<true>;
     using iterator = _iterator<false>;
     
-    const_iterator begin() const { return _iterator(*this, 0); }
-    const_iterator end() const { return _iterator(*this, Size); }
-    iterator begin() { return _iterator(*this, 0); }
-    iterator end() { return _iterator(*this, Size); }
-    const_iterator cbegin() const { return _iterator(*this, 0); }
-    const_iterator cend() const { return _iterator(*this, Size); }
+    const_iterator begin() const { return const_iterator(*this, 0); }
+    const_iterator end() const { return const_iterator(*this, Size); }
+    iterator begin() { return iterator(*this, 0); }
+    iterator end() { return iterator(*this, Size); }
+    const_iterator cbegin() const { return const_iterator(*this, 0); }
+    const_iterator cend() const { return const_iterator(*this, Size); }
     
 };
 
-- 
2.43.0


From 1b77c57b6d1786ff41ae9b04e2c16fcebb1164be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 65/79] fix: Sunday::ordered_pattern forms a reference past the
 pattern

---
 include/sim_ds/string_util/PatternMatching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index aa366ca..abc2a16 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -274,7 +274,7 @@ public:
     
     virtual ~Sunday();
     
-    const Pat* ordered_pattern(size_t num) const {return &pattern_[num];}
+    const Pat* ordered_pattern(size_t num) const {return pattern_.data() + num;}
     
 };
 inline Sunday::~Sunday() {}
-- 
2.43.0


From 6432952b17d2f039c898eaac94320c1817feec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 66/79] fix: rank of a symbol above every symbol of a wavelet
 tree counts another symbol

---
 include/sim_ds/WaveletTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9ffb6ad..eb54fc1 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -86,6 +86,8 @@ public:
     }
     
     size_t rank(uint8_t c, size_t index) const {
+        if (c >> height_ != 0) // larger than every symbol of the sequence
+            return 0;
         size_t idx = index;
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
-- 
2.43.0


From a5ed80b8e4810dfa1d50ea1be8a95436cd2d4c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 67/79] fix: HeapSort of an empty range dereferences its
 iterators

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..dffb8d5 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (size() > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From 3ceac6a6a11bfac11290541a015fa02546e0c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:40 +0000
Subject: [PATCH 68/79] fix: TurboBOM misses occurrences that end inside its
 KMP window and reads past the key

---
 include/sim_ds/string_util/PatternMatching.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index abc2a16..ec9525b 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -203,11 +203,15 @@ public:
     std::vector<size_t> find_all(std::string_view text) const override;
     
 private:
-    long long kmp_search(std::string_view text, difference_type pos = 0) const {
+    long long kmp_search(std::string_view text, size_t offset, difference_type pos, std::vector<size_t>& matchies) const {
         for (size_t i = 0; i < text.size(); i++) {
             while (pos > -1 and key_[pos] != text[i])
                 pos = kmp_.next(pos);
-                pos++;
+            pos++;
+            if (pos == difference_type(key_.size())) {
+                matchies.push_back(offset + i + 1 - key_.size());
+                pos = kmp_.next(pos);
+            }
         }
         return pos;
     }
@@ -236,7 +240,7 @@ TurboBom::find_all(std::string_view text) const {
         } else {
             const auto prefix_size = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
+            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), kmp_begin, prefix_size, matchies);
             critpos = kmp_begin + kKmpWindowSize;
             back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
         }
-- 
2.43.0


From 2a1d29edd7e45a08162c75a6789439e7ded36bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 69/79] fix: the suffix array of the empty text induces from an
 LMS that does not exist

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index abf7889..fb3b957 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -208,6 +208,8 @@ inline size_t SuffixArray::PutBucket_(vector<Bucket> *buckets, vector<size_t> *s
 
 inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxValue) const {
     using std::move;
+    if (str.size() == 1) // The end alone has no LMS to induce from
+        return {0};
     const vector<bool> slTypes = Classified_(str);
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
-- 
2.43.0


From 2d909c67d6630cfbfb6ff150c00133a5470a769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 70/79] fix: suffixes of texts whose LMS substrings are unique
 are not in order

---
 include/sim_ds/string_util/SuffixArray.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index fb3b957..73143f4 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -214,16 +214,17 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
+    const vector<size_t> subStr = std::move(get<1>(inducedSorted));
+    vector<size_t> subSais(subStr.size());
     if (countShared == 0) {
-        return sArr;
+        // Unique names are the order of the LMSs
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
     } else {
-        const vector<size_t> subStr = std::move(get<1>(inducedSorted));
-        const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
-        const vector<size_t> rSais = Induce_(maxValue, str, slTypes, lmsIds, &subSais);
-        return rSais;
+        subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
     }
+    return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
 }
 
 inline typename SuffixArray::InducedRV SuffixArray::InducedSort_(size_t maxValue, const vector<size_t> &str, const vector<bool> &slTypes, const vector<size_t> &lmsIds) const {
-- 
2.43.0


From b7fcef2f06729549b41b11fbfca5f8cda6e2b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 71/79] fix: quotients of keys wider than 60 bits overflow the
 elements of a small CHT

---
 include/sim_ds/CHT.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index eb9ec45..dbb1d79 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -47,15 +47,20 @@ private:
 
     uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
 
+    // A quotient and its flags have to fit in an element of arr_.
+    static size_t MinBucketSize(unsigned key_bits) {
+        return key_bits + kFlagBits > 64 ? size_t(1) << (key_bits + kFlagBits - 64) : 1;
+    }
+
 public:
     CHT() = default;
     explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
         key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        bucket_size_(std::max(bucket_size, MinBucketSize(key_bits))),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size_)),
         bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        max_size_(bucket_size_*MaxLoadFactorPercent/100),
+        min_size_(bucket_size_*(MaxLoadFactorPercent-1)/400+1),
         values_(ValueBits, bucket_size_),
         hasher_(key_bits_) {
         assert(bit_util::popcnt(bucket_size) == 1);
-- 
2.43.0


From bfe1119bcd834ec41f584fd857a071d7bdd009be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 72/79] fix: elements a CDRWVector gains after shrinking show
 values stored before

---
 include/sim_ds/CDRWArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 7deff78..87fd2e2 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -85,6 +85,8 @@ public:
         if (new_size > cap_) {
             _allocate(std::max(new_size, cap_*2));
         }
+        for (; size_ < new_size; size_++)
+            set(size_, 0);
         size_ = new_size;
     }
 
-- 
2.43.0


From e54ef9f77f79e08ae1c33796af549619a5b11287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 73/79] fix: a trie with narrow indices finds items under
 prefixes of keys with NUL

---
 include/sim_ds/string_util/graph_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index 456fb40..b63aa4e 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -182,7 +182,7 @@ private:
         node = target;
         
         auto& terminal = container_[node];
-        return terminal.item_index();
+        return terminal.terminal() ? size_t(terminal.item_index()) : size_t(-1);
     }
     
 };
-- 
2.43.0


From 01107ff404d3ce26b46484fc8fd8f019e8da4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 74/79] fix: looking up a string with NUL in a Samc reads past
 its code table

---
 include/sim_ds/string_util/Samc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..9da86c3 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -321,6 +321,8 @@ Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    if (c == _base::kLeafChar)
+      return false;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
@@ -443,6 +445,8 @@ SamcDict<CodeType>::lookup(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    if (c == _base::kLeafChar)
+      return kSearchError;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
-- 
2.43.0


From 3ab2840184c9929fe88edb4eefbc5c2b58e79af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 75/79] fix: building a Samc from no strings dereferences the
 end

---
 include/sim_ds/string_util/Samc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 9da86c3..7a37511 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -38,7 +38,7 @@ public:
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
       auto it = begin_;
-      if (begin_->size() == depth_) {
+      if (begin_ != end_ and begin_->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
         while (++it != end_ and it->size() == depth_) {}
       }
-- 
2.43.0


From 852992154889f45986762a7af14751249968d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 76/79] fix: looking up a string in a default constructed Samc
 reads empty tables

---
 include/sim_ds/string_util/Samc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 7a37511..edc4059 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -80,7 +80,8 @@ protected:
     std::vector<code_type> head_;
 
 public:
-    _SamcImpl() = default;
+    // Same as built from no strings.
+    _SamcImpl() : storage_(1, '^'), code_table_(1), head_{0,1,1} {}
 
     char_type check(size_t index) const {return storage_[index];}
 
-- 
2.43.0


From e10cfa5a4658493d13eb569c0c8ca6547ba9e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 77/79] fix: size_in_bytes of MultipleVector drops half of the
 list length

---
 include/sim_ds/MultipleVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index f6c9b59..cd251cd 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -327,7 +327,7 @@ public:
     
     size_t size_in_bytes() const {
         auto size = size_vec(bytes_);
-        size += size_vec(element_table_) / 2;
+        size += sizeof(size_t) + sizeof(param_type) * element_table_.size();
         return size;
     }
     
-- 
2.43.0


From 463d5eb86c3fbe9a499b8a33725c50c836222ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 78/79] fix: size_in_bytes of DacVector counts the number of
 layers twice

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 80a368a..905cbc3 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -180,7 +180,7 @@ public:
     
     size_t size_in_bytes() const {
         auto size = sizeof(num_layers_);
-        size += size_vec(layers_unit_bits_);
+        size += sizeof(size_t) * layers_unit_bits_.size();
         for (size_t i = 0; i < num_layers(); i++)
             size += layers_[i].size_in_bytes();
         if (num_layers() > 0)
-- 
2.43.0


From b935a9284a76133750f6f1039ac8b6f8160c8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:35 +0000
Subject: [PATCH 79/79] fix: SamcDict::access asserts that no key contains 0xFF

---
 include/sim_ds/string_util/Samc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index edc4059..c2f353c 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -471,7 +471,6 @@ SamcDict<CodeType>::access(size_t value) const {
   size_t depth = std::upper_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;
   while (depth > 0) {
     auto c = _base::check(node);
-    assert(c != _base::kEmptyChar);
     node -= _base::code(--depth, c);
     text.push_back(c);
   }
-- 
2.43.0

