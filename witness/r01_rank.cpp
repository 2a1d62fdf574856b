// rank(i) is the number of ones before position i, for every contents and every i <= size.
#include "sds.h"
#include <vector>
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace sim_ds;
static BitVector arbitrary(uint64_t n) { BitVector v(n); for (uint64_t i = 0; i < n; i++) v[i] = sds_bool(); return v; }
template <class S> static void ranks(const S &s, const BitVector &v, uint64_t from, uint64_t step) {
  uint64_t c = 0, n = v.size(); sds_check_eq(s.size(), n, "the dictionary has the size of its bits");
  for (uint64_t i = 0; i <= n; i++) {
    if (i % step == from || i % 64 == 0 || i % 64 == 63 || i == n) { sds_check_eq(s.rank(i), c, "rank counts the ones before the position"); sds_check_eq(s.rank_1(i), c, "rank_1 counts the ones before the position"); sds_check_eq(s.rank_0(i), i - c, "rank_0 counts the zeros before the position"); }
    if (i < n) { bool b = v[i]; if (i % step == from) sds_check(s[i] == b, "the dictionary keeps the bits"); c += b; }
  }
}
SDS_WITNESS(W_rank, "0-3,62-66,127-129,191-193,255-257,447-449,510-514,575-577,639,640,1023-1025,1087,1088,1535-1537,2047-2049|0-1030,1080-1090,1530-1540,2040-2050")(uint64_t n) {
  BitVector v = arbitrary(n); const SuccinctBitVector<false> s(v); ranks(s, v, n % 7, 7);
} SDS_END
SDS_WITNESS(W_rank_select, "0-2,63-65,511-513,1023-1025,1536,1600")(uint64_t n) {
  BitVector v = arbitrary(n); const SuccinctBitVector<true> s(v); ranks(s, v, n % 7, 7);
} SDS_END
SDS_WITNESS(W_rank_all, "70,200,520,640")(uint64_t n) { BitVector v = arbitrary(n); const SuccinctBitVector<false> s(v); ranks(s, v, 0, 1); } SDS_END
SDS_WITNESS(W_rank_moved, "0,1,64,600")(uint64_t n) {
  BitVector v = arbitrary(n), w(v); SuccinctBitVector<false> s(std::move(w)), t(s), u; u = t; SuccinctBitVector<false> x(std::move(t)); ranks(s, v, 0, 13); ranks(u, v, 0, 13); ranks(x, v, 0, 13);
} SDS_END
SDS_WITNESS(W_rank_shrunk, "0-2,62-65,100,511-513")(uint64_t n) { // bits that were dropped by a shrink do not count
  BitVector v = arbitrary(n + 70); v.resize(n); const SuccinctBitVector<false> s(v); ranks(s, v, 0, 5);
} SDS_END
SDS_WITNESS(W_rank_init, "")() { bool a = sds_bool(), b = sds_bool(), c = sds_bool(); SuccinctBitVector<false> s{a, b, c}; sds_check(s.size() == 3 && s[0] == a && s[1] == b && s[2] == c && s.rank(3) == (uint64_t)a + b + c && s.rank(2) == (uint64_t)a + b && s.rank(1) == (uint64_t)a && s.rank(0) == 0, "a dictionary built from a list has its bits"); SuccinctBitVector<false> e; sds_check(e.size() == 0 && e.rank(0) == 0, "a default dictionary is empty"); } SDS_END
// the number of elements before i that equal element i
template <unsigned U> static void multi(uint64_t n, uint64_t type, uint64_t sel) {
  constexpr uint64_t per = 64 / U; uint64_t i = sel == 0 ? n - 1 : sel == 1 ? n / 2 : sel == 2 ? (n - 1) / per * per : sel == 3 ? (n - 1) / per * per - 1 : sel * 7 % n;
  if (i >= n || (i == 0 && n > 2 && type + 1 != 1u << U)) sds_stop();
  MultiBitVector<U> v; uint8_t a[600];
  for (uint64_t k = 0; k < n; k++) { a[k] = k == i ? type : k == 0 ? (1u << U) - 1 : sds_bits(U); v.set(k, a[k]); }
  v.build();
  uint64_t c = 0; // counted group by group (the masks only help the analysis: a group holds at most 64 elements)
  for (uint64_t g = 0; g < i; g += per) { uint64_t h = 0; for (uint64_t k = g; k < i && k < g + per; k++) h += a[k] == type; c += U == 3 ? h & 31 : h; }
  sds_check_eq(v.rank(i), c, "rank counts the equal elements before the position"); sds_check_eq(v[i], type, "building the tables keeps the elements");
}
SDS_WITNESS(W_multi1, "1-3,63-66,128,200,256,257,270,513;1;0-9")(uint64_t n, uint64_t t, uint64_t i) { multi<1>(n, t, i); } SDS_END
SDS_WITNESS(W_multi2, "1-3,31-34,63-65,128,255-258,513;1-3;0-9")(uint64_t n, uint64_t t, uint64_t i) { multi<2>(n, t, i); } SDS_END
SDS_WITNESS(W_multi3, "1-3,20-23,41-43,63,64;1-7;0-9")(uint64_t n, uint64_t t, uint64_t i) { multi<3>(n, t, i); } SDS_END
// the largest symbol t occurs at positions p and i only
template <unsigned U> static void rare(uint64_t n, uint64_t t, uint64_t p, uint64_t d) {
  constexpr uint64_t per = 64 / U; uint64_t i = p + d; if (i >= n || t >= 1u << U) sds_stop();
  MultiBitVector<U> v; uint8_t a[300];
  for (uint64_t k = 0; k < n; k++) { a[k] = k == i || k == p ? t : U == 3 && (k / per != i / per || k % 2) ? k * 5 % t : sds_bits(U) & (t - 1); v.set(k, a[k]); }
  v.build(); const MultiBitVector<U> w(v);
  sds_check_eq(v.rank(i), d != 0, "rank counts the equal elements before the position"); sds_check_eq(w.rank(p), 0, "rank counts the equal elements before the position");
  if (i + 1 < n) for (uint64_t k = i + 1; k < n; k += 17) if (t > 1 && k > i) { uint64_t c = 0; (void)c; sds_check_eq(v[k], a[k], "building the tables keeps the elements"); }
}
SDS_WITNESS(W_multi1_rare, "1,2,64,65,130,257;1;0-2,31,62-65,127-129,255,256;0,1,5,64,70")(uint64_t n, uint64_t t, uint64_t p, uint64_t d) { rare<1>(n, t, p, d); } SDS_END
SDS_WITNESS(W_multi2_rare, "1,2,32,33,64,65,130,257;1-3;0-2,30-33,62-65,127-129,255,256;0,1,5,32,64,70")(uint64_t n, uint64_t t, uint64_t p, uint64_t d) { rare<2>(n, t, p, d); } SDS_END
SDS_WITNESS(W_multi3_rare, "1,2,21,22,42,43,84,130,253;1,4,6,7;0,1,20,21,41,42,63,83,84,126,252;0,1,5,21,42,70")(uint64_t n, uint64_t t, uint64_t p, uint64_t d) { rare<3>(n, t, p, d); } SDS_END
// more than 2^16 of everything counted: counters and block numbers must not be kept in fewer bits than they need
SDS_WITNESS(W_rank_wide, "0,1")(uint64_t k) {
  if (k == 0) {
    uint64_t n = 70000 * 64; BitVector v(n, true); v[100] = false; v[n - 200] = sds_bool(); v[n - 1] = sds_bool(); uint64_t a = v[n - 200], b = v[n - 1];
    const SuccinctBitVector<false> s(v);
    sds_check_eq(s.rank(n - 200), n - 201, "rank counts the ones before the position"); sds_check_eq(s.rank(n - 1), n - 3 + a, "rank counts the ones before the position"); sds_check_eq(s.rank(n), n - 3 + a + b, "rank counts the ones before the position"); sds_check_eq(s.rank(66000), 65999, "rank counts the ones before the position");
  } else {
    uint64_t n = 70000; MultiBitVector<2> v; for (uint64_t i = 0; i < n; i++) v.set(i, i == 7 || i == n - 2 ? 3 : 2); v.set(n - 5, sds_bool() ? 2 : 1); uint64_t x = v[n - 5] == 2; v.build();
    sds_check_eq(v.rank(n - 1), n - 4 + x, "rank counts the equal elements before the position"); sds_check_eq(v.rank(n - 2), 1, "rank counts the equal elements before the position"); sds_check_eq(v.rank(66000), 65999, "rank counts the equal elements before the position");
  }
} SDS_END
// listed longer contents of several shapes, at every position
template <unsigned U> static void listed(uint64_t n, uint64_t kind, uint64_t seed) {
  MultiBitVector<U> v; uint64_t x = seed * 0x9E3779B97F4A7C15ull + kind, M = (1u << U) - 1, cur = M; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  std::vector<uint8_t> a; for (uint64_t i = 0; i < n; i++) a.push_back(kind == 0 ? rnd(M + 1) : kind == 1 ? (rnd(50) ? 0 : M) : kind == 2 ? M : kind == 3 ? i / 60 % (M + 1) : kind == 4 ? i % (M + 1) : (cur = rnd(300) ? cur : rnd(M + 1)));
  a[n / 2] = M; for (uint64_t i = 5; i + 1 < n; i += 1 + n / 8) { bool f = sds_bool(); uint8_t y = a[i], z = a[i + 1]; a[i] = f ? z : y; a[i + 1] = f ? y : z; } // neighbours in unknown order
  for (uint64_t i = 0; i < n; i++) v.set(i, a[i]); v.build();
  uint64_t c[8] = {}; for (uint64_t i = 0; i < n; i++) { uint64_t e = 0; for (uint64_t t = 0; t <= M; t++) e = a[i] == t ? c[t] : e; if (a[i]) sds_check_eq(v.rank(i), e, "rank counts the equal elements before the position"); sds_check_eq(v[i], a[i], "building the tables keeps the elements"); for (uint64_t t = 0; t <= M; t++) c[t] += a[i] == t; }
}
SDS_WITNESS(W_multi_listed, "1-3;255,256,257,700,1500;0-5;0|1-3;250-260,511-513,700,1500,5000;0-5;0-3")(uint64_t u, uint64_t n, uint64_t kind, uint64_t seed) { if (u == 1) listed<1>(n, kind, seed); else if (u == 2) listed<2>(n, kind, seed); else listed<3>(n, kind, seed); } SDS_END
