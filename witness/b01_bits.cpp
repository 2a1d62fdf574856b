// Bit primitives against their bit-by-bit definitions, for every input word.
#include "sds.h"
#include "sim_ds/bit_util.hpp"
#include "sim_ds/bit_util256.hpp"
#include "sim_ds/calc.hpp"
using namespace sim_ds;
namespace bu = sim_ds::bit_util;

static unsigned ones(uint64_t x, unsigned n) { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += x >> i & 1; return c; }
static unsigned groups(uint64_t x, unsigned w, unsigned pat) { // aligned w-bit groups equal to pat
  unsigned c = 0; for (unsigned i = 0; i + w <= 64; i += w) { unsigned hit = 1; for (unsigned k = 0; k < w; k++) { unsigned b = x >> (i + k) & 1; hit &= (pat >> k & 1) ? b : b ^ 1; } c += hit; } return c; }
static unsigned tz(uint64_t x, unsigned n) { unsigned r = n; for (unsigned i = n; i-- > 0;) if (x >> i & 1) r = i; return r; }
static unsigned lz(uint64_t x, unsigned n) { unsigned r = n; for (unsigned i = 0; i < n; i++) if (x >> i & 1) r = n - 1 - i; return r; }
static uint64_t lowmask(unsigned w) { uint64_t m = 0; for (unsigned i = 0; i < w; i++) m |= 1ull << i; return m; }

SDS_WITNESS(W_popcnt, "")() {
  uint64_t x = sds_u64();
  sds_check_eq(bu::popcnt8((uint8_t)x), ones(x, 8), "popcnt8 counts the ones of a byte");
  sds_check_eq(bu::popcnt16((uint16_t)x), ones(x, 16), "popcnt16 counts the ones of a 16-bit word");
  sds_check_eq(bu::popcnt32((uint32_t)x), ones(x, 32), "popcnt32 counts the ones of a 32-bit word");
  sds_check_eq(bu::popcnt64(x), ones(x, 64), "popcnt64 counts the ones of a 64-bit word");
  sds_check_eq(bu::popcnt<uint8_t>((uint8_t)x), ones(x, 8), "popcnt<8> counts the ones");
  sds_check_eq(bu::popcnt<uint16_t>((uint16_t)x), ones(x, 16), "popcnt<16> counts the ones");
  sds_check_eq(bu::popcnt<uint32_t>((uint32_t)x), ones(x, 32), "popcnt<32> counts the ones");
  sds_check_eq(bu::popcnt<uint64_t>(x), ones(x, 64), "popcnt<64> counts the ones");
} SDS_END
SDS_WITNESS(W_groups, "")() {
  uint64_t x = sds_u64();
  sds_check_eq(bu::popcnt11(x), groups(x, 2, 3), "popcnt11 counts the aligned pairs 11");
  sds_check_eq(bu::popcnt10(x), groups(x, 2, 2), "popcnt10 counts the aligned pairs 10");
  sds_check_eq(bu::popcnt111(x), groups(x, 3, 7), "popcnt111 counts the aligned triples 111");
  sds_check_eq(bu::popcnt110(x), groups(x, 3, 6), "popcnt110 counts the aligned triples 110");
  sds_check_eq(bu::popcnt101(x), groups(x, 3, 5), "popcnt101 counts the aligned triples 101");
  sds_check_eq(bu::popcnt100(x), groups(x, 3, 4), "popcnt100 counts the aligned triples 100");
} SDS_END
SDS_WITNESS(W_masks, "0-64")(uint64_t w) {
  sds_check_eq(bu::WidthMask(w), lowmask(w), "WidthMask has exactly the low bits set");
  if (w < 64) sds_check_eq(bu::OffsetMask(w), 1ull << w, "OffsetMask has exactly one bit set");
  uint64_t x = sds_u64();
  sds_check_eq(bu::cnt(x, w), ones(x, w), "cnt counts the ones of a prefix");
} SDS_END
SDS_WITNESS(W_bextr, "0-63;0-64")(uint64_t start, uint64_t len) {
  uint64_t x = sds_u64();
  uint64_t r = 0; for (unsigned k = 0; k < len && start + k < 64; k++) r |= (x >> (start + k) & 1) << k;
  sds_check_eq(bu::bextr(x, start, len), r, "bextr extracts the bit field");
} SDS_END
SDS_WITNESS(W_ctz32, "")() { uint64_t x = sds_u64(); sds_check_eq((uint64_t)bu::ctz((uint32_t)x), tz((uint32_t)x, 32), "ctz of a 32-bit word"); } SDS_END
SDS_WITNESS(W_ctz64, "")() { uint64_t x = sds_u64(); sds_check_eq((uint64_t)bu::ctz((uint64_t)x), tz(x, 64), "ctz of a 64-bit word"); } SDS_END
SDS_WITNESS(W_clz32, "")() { uint64_t x = sds_u64(); sds_check_eq((uint64_t)bu::clz((uint32_t)x), lz((uint32_t)x, 32), "clz of a 32-bit word"); } SDS_END
SDS_WITNESS(W_clz64, "")() { uint64_t x = sds_u64(); sds_check_eq((uint64_t)bu::clz((uint64_t)x), lz(x, 64), "clz of a 64-bit word"); } SDS_END
SDS_WITNESS(W_sel, "1-64")(uint64_t i) {
  uint64_t x = sds_u64();
  unsigned c = 0, want = 0; for (unsigned p = 0; p < 64; p++) { if ((x >> p & 1) && c == i - 1) want = p + 1; c += x >> p & 1; }
  sds_assume(c >= i);
  sds_check_eq((uint64_t)bu::sel(x, i), want, "sel finds the position of the i-th one");
} SDS_END
SDS_WITNESS(W_swap, "")() {
  uint64_t x = sds_u64();
  auto sw = [&](unsigned k) { uint64_t r = 0; for (unsigned i = 0; i < 64; i++) r |= (x >> (i ^ k) & 1) << i; return r; };
  sds_check_eq(bu::swap_pi1(x), sw(1), "swap_pi1 exchanges neighbouring groups");
  sds_check_eq(bu::swap_pi2(x), sw(2), "swap_pi2 exchanges neighbouring groups");
  sds_check_eq(bu::swap_pi4(x), sw(4), "swap_pi4 exchanges neighbouring groups");
  sds_check_eq(bu::swap_pi8(x), sw(8), "swap_pi8 exchanges neighbouring groups");
  sds_check_eq(bu::swap_pi16(x), sw(16), "swap_pi16 exchanges neighbouring groups");
  sds_check_eq(bu::swap_pi32(x), sw(32), "swap_pi32 exchanges neighbouring groups");
} SDS_END
struct alignas(32) W256 { uint64_t w[4]; };
static uint64_t bit(const W256 &x, unsigned i) { return x.w[i / 64] >> (i % 64) & 1; }
SDS_WITNESS(W_256, "")() {
  W256 x, y; for (auto &w : x.w) w = sds_u64();
  unsigned c = 0; for (unsigned i = 0; i < 256; i++) c += bit(x, i);
  sds_check_eq((uint64_t)bu::popcnt256(x.w), c, "popcnt256 counts the ones");
  unsigned t = 256, l = 256; for (unsigned i = 256; i-- > 0;) if (bit(x, i)) t = i; for (unsigned i = 0; i < 256; i++) if (bit(x, i)) l = 255 - i;
  sds_check_eq((uint64_t)bu::ctz256(x.w), t, "ctz256 counts the trailing zeros");
  sds_check_eq((uint64_t)bu::clz256(x.w), l, "clz256 counts the leading zeros");
  sds_check(bu::is_zero256(x.w) == (t == 256), "is_zero256 recognises zero");
  bu::copy256_epi64(x.w, y.w);
  for (int i = 0; i < 4; i++) sds_check_eq(y.w[i], x.w[i], "copy256 copies every word");
  bool b = sds_bool(); bu::set256_epi1(b, y.w);
  for (int i = 0; i < 4; i++) sds_check_eq(y.w[i], b ? ~0ull : 0, "set256 writes every bit");
} SDS_END
SDS_WITNESS(W_xormap, "0-255")(uint64_t mask) {
  W256 x, y, z; for (auto &w : x.w) w = sds_u64();
  for (int k = 0; k < 4; k++) { uint64_t r = 0; for (unsigned i = 0; i < 64; i++) r |= bit(x, (64 * k + i) ^ mask) << i; z.w[k] = r; }
  bu::xor_map(x.w, mask, y.w);
  for (int i = 0; i < 4; i++) sds_check_eq(y.w[i], z.w[i], "xor_map permutes the bits by exclusive-or of the position");
#ifdef __AVX2__
  __m256i v = bu::xor_map_intrinsics(_mm256_load_si256((const __m256i *)x.w), mask);
  _mm256_store_si256((__m256i *)y.w, v);
  for (int i = 0; i < 4; i++) sds_check_eq(y.w[i], z.w[i], "xor_map_intrinsics agrees with xor_map");
#endif
} SDS_END
SDS_WITNESS(W_fits, "0-63")(uint64_t top) { // every value whose highest set bit is `top`
  uint64_t x = (1ull << top) | (top ? sds_bits(top) : 0);
  sds_check_eq(calc::SizeFitsInBits(x), top + 1, "SizeFitsInBits is the bit length");
  sds_check_eq(calc::SizeFitsInBytes(x), top / 8 + 1, "SizeFitsInBytes is the byte length");
} SDS_END
SDS_WITNESS(W_fits0, "")() {
  sds_check_eq(calc::SizeFitsInBits(0), 1, "zero occupies one bit"); sds_check_eq(calc::SizeFitsInBytes(0), 1, "zero occupies one byte");
  sds_check_eq(calc::SizeFitsInUnits(0, 64), 1, "zero occupies one unit");
  uint64_t x = sds_u64(); sds_check_eq(calc::SizeFitsInUnits(x, 64), 1, "any 64-bit value fits one 64-bit unit");
} SDS_END
