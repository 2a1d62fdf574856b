// The compact dynamic arrays behave like arrays of integers.
#include "sds.h"
#include <algorithm>
#include <string>
#include <vector>
#include "sim_ds/CDRWArray.hpp"
using namespace sim_ds;
// a value of exactly w bits (listed), otherwise any value of up to 3 bits
static uint64_t value(uint64_t w) { return w == 0 ? 0 : w == 100 ? sds_bits(2) : w == 1 ? 1 : (1ull << (w - 1)) | sds_bits(w - 1); }
static uint64_t pick(uint64_t n) { uint64_t p = n <= 1 ? 0 : n == 2 ? sds_bits(1) : sds_bits(2); return p < n ? p : 0; }
template <class A> static void same(const A &a, const uint64_t *m, uint64_t n) {
  sds_check_eq(a.size(), n, "size");
  for (uint64_t i = 0; i < n; i++) sds_check_eq(a.get(i), m[i], "reading a position gives the value last written, zero if none was");
}
static void put(uint64_t *m, uint64_t n, uint64_t i, uint64_t v) { for (uint64_t x = 0; x < n; x++) m[x] = x == i ? v : m[x]; }
static const uint8_t widths[8] = {0, 1, 2, 7, 32, 63, 64, 100};
// writes of listed widths at arbitrary positions
SDS_WITNESS(W_array, "1-4;1-3;0,2,5,7;0,4,6,7;0,2,7|1-4;1-3;0-7;0-7;0-7")(uint64_t n, uint64_t len, uint64_t a, uint64_t b, uint64_t c) {
  if ((len < 3 && c) || (len < 2 && b)) sds_stop();
  CDRWArray t(n); uint64_t m[4] = {};
  uint64_t w[3] = {widths[a], widths[b], widths[c]};
  for (uint64_t i = 0; i < len; i++) { uint64_t p = pick(n), v = value(w[i]); t.set(p, v); put(m, n, p, v); }
  same(t, m, n);
} SDS_END
// every width at every position of a full array, written twice
SDS_WITNESS(W_all, "1-9,17;0-1;0,1|1-9,12,17;0-3;0,1")(uint64_t n, uint64_t sh, uint64_t twice) {
  CDRWArray t(n); uint64_t m[32] = {};
  for (uint64_t i = 0; i < n; i++) { m[i] = value((i * (2 * sh + 1) + sh * 5) % 65); t.set(i, m[i]); }
  if (twice) for (uint64_t i = 0; i < n; i += 2) { m[i] = value((i * 3 + sh) % 65); t.set(i, m[i]); }
  same(t, m, n);
} SDS_END
SDS_WITNESS(W_width, "0-64;0,1,8,63,64|0-64;0-64")(uint64_t v, uint64_t w) { CDRWArray t(2); uint64_t m[2]; m[1] = value(v); t.set(1, m[1]); m[0] = value(v); t.set(0, m[0]); m[1] = value(w); t.set(1, m[1]); same(t, m, 2); } SDS_END
SDS_WITNESS(W_from, "0-5")(uint64_t n) { uint64_t m[8]; for (uint64_t i = 0; i < n; i++) m[i] = value(widths[i]); const CDRWArray t(m, m + n); same(t, m, n); } SDS_END
// vectors: listed operations on arbitrary values
SDS_WITNESS(W_vector, "0,2,3;0-5;0-5;0-5;3|0-3;0-5;0-5;0-5;0,3,6")(uint64_t n, uint64_t a, uint64_t b, uint64_t c, uint64_t w) {
  CDRWVector t(n); uint64_t m[32] = {}; uint64_t op[3] = {a, b, c};
  for (uint64_t i = 0; i < n; i++) { m[i] = value(widths[w + i % 2]); t.set(i, m[i]); }
  for (uint64_t i = 0; i < 3; i++) {
    if (op[i] == 0) { m[n] = value(widths[(w + i + 1) % 7]); t.push_back(m[n]); n++; }
    else if (op[i] == 1) { t.pop_back(); if (n) n--; }
    else if (op[i] == 2) { uint64_t to = n + 2; t.resize(to); while (n < to) m[n++] = 0; }
    else if (op[i] == 3) { n = n > 2 ? n - 2 : 0; t.resize(n); }
    else if (op[i] == 4) { t.shrink_to_fit(); sds_check_eq(t.capacity(), n, "capacity after shrink_to_fit"); }
    else { t.reserve(n + 3); sds_check(t.capacity() >= n + 3, "capacity after reserve"); }
    sds_check(t.capacity() >= n, "capacity");
  }
  sds_check(t.empty() == (n == 0), "empty");
  same(t, m, n);
} SDS_END
SDS_WITNESS(W_pushes, "0-10,17;0-1|0-20,33;0-3")(uint64_t n, uint64_t sh) { CDRWVector t; uint64_t m[64]; for (uint64_t i = 0; i < n; i++) { m[i] = value((i * (2 * sh + 1) + sh * 5) % 65); t.push_back(m[i]); } same(t, m, n); for (uint64_t i = 0; i < 3 && n; i++) { t.pop_back(); n--; same(t, m, n); } } SDS_END
SDS_WITNESS(W_clear, "0-3;0-3")(uint64_t n, uint64_t k) { CDRWVector t; for (uint64_t i = 0; i < n; i++) t.push_back(value(5)); t.clear(); uint64_t m[4] = {}; same(t, m, 0); t.resize(k); same(t, m, k); } SDS_END
SDS_WITNESS(W_copies, "1-3;0-3")(uint64_t n, uint64_t how) {
  CDRWVector t; uint64_t m[4], o[4]; for (uint64_t i = 0; i < n; i++) { m[i] = o[i] = value(widths[i + 1]); t.push_back(m[i]); }
  if (how == 0) { CDRWVector c(t); o[0] = value(9); t.set(0, o[0]); same(c, m, n); same(t, o, n); }
  else if (how == 1) { CDRWVector c(2); c.set(1, value(4)); c = t; o[0] = value(9); c.set(0, o[0]); same(c, o, n); same(t, m, n); }
  else if (how == 2) { CDRWVector c(std::move(t)); same(c, m, n); }
  else { CDRWVector c; c = std::move(t); c.push_back(3); m[n] = 3; same(c, m, n + 1); }
} SDS_END
// long histories of a vector: pushes, pops, writes, resizes in both directions, shrinking; values of every width
SDS_WITNESS(W_churn, "0-11;40,120|0-59;40,120,300")(uint64_t seed, uint64_t len) {
  CDRWVector t; uint64_t m[256] = {}, n = 0, x = seed * 0x9E3779B97F4A7C15ull + 7; auto rnd = [&](uint64_t k) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % k; };
  auto val = [&]() { return value(seed & 1 ? rnd(65) : rnd(6) ? rnd(10) : rnd(65)); };
  for (uint64_t i = 0; i < len; i++) {
    uint64_t o = rnd(12);
    if (o < 4 && n < 250) { uint64_t v = val(); t.push_back(v); m[n++] = v; }
    else if (o < 9) { if (n) { uint64_t p = rnd(n), v = val(); t.set(p, v); m[p] = v; } }
    else if (o == 9) { if (n) { t.pop_back(); m[--n] = 0; } }
    else if (o == 10) { uint64_t to = rnd(2) ? n + rnd(9) : n - (n ? rnd(n < 6 ? n : 6) : 0); if (to > 200) to = 200; t.resize(to); for (uint64_t j = n; j < to; j++) m[j] = 0; for (uint64_t j = to; j < n; j++) m[j] = 0; n = to; }
    else if (seed % 3 == 0) t.shrink_to_fit(); else t.reserve(n + rnd(20));
    sds_check(t.capacity() >= n, "capacity");
    if ((i & 7) == 7 || i + 1 == len) same(t, m, n);
  }
} SDS_END
SDS_WITNESS(W_array_churn, "0-7;1,9,33,64|0-39;1,9,33,64,100")(uint64_t seed, uint64_t n) {
  CDRWArray t(n); uint64_t m[128] = {}, x = seed * 0x9E3779B97F4A7C15ull + 3; auto rnd = [&](uint64_t k) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % k; };
  for (uint64_t i = 0; i < 3 * n; i++) { uint64_t p = rnd(n), v = value(seed & 1 ? rnd(65) : rnd(9)); t.set(p, v); m[p] = v; if (i % 16 == 15) same(t, m, n); }
  same(t, m, n);
} SDS_END
