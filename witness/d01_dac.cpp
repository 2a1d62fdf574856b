// A variable-length-code sequence returns the integers it was built from. The bit lengths of the integers are the
// arguments of the obligations (0 = the value zero), everything below the top bit is arbitrary.
#include "sds.h"
#include <vector>
#include "sim_ds/DacVector.hpp"
using namespace sim_ds;
static uint64_t ofLength(uint64_t len) { return len == 0 ? 0 : (1ull << (len - 1)) | (len > 1 ? sds_bits(len - 1) : 0); }
template <class T> static void same(const DacVector &v, const std::vector<T> &s) {
  sds_check(v.size() == s.size() && v.empty() == s.empty(), "the sequence reports the number of integers");
  for (uint64_t i = 0; i < s.size(); i++) { sds_check_eq(v[i], s[i], "an integer is returned by index"); sds_check_eq(v.at(i), s[i], "an integer is returned by checked access"); }
  if (s.empty()) { sds_check(v.begin() == v.end(), "an empty sequence has nothing to visit"); return; }
  sds_check_eq(v.front(), s[0], "front is the first integer"); sds_check_eq(v.back(), s.back(), "back is the last integer");
  uint64_t k = 0;
  for (uint64_t x : v) { if (k >= s.size()) sds_fail("iteration runs past the end"); sds_check_eq(x, s[k], "iteration visits the integers in order"); k++; }
  sds_check_eq(k, s.size(), "iteration visits every integer");
}
template <class T> static std::vector<T> seq(uint64_t n, uint64_t a, uint64_t b, uint64_t c) { // lengths a,b,c repeated
  std::vector<T> s; for (uint64_t i = 0; i < n; i++) s.push_back((T)ofLength(i % 3 == 0 ? a : i % 3 == 1 ? b : c)); return s;
}
SDS_WITNESS(W_dac_auto, "0-3;0,1,2,7,8,9,16,17,31,32,33,40,63,64;0,1,3,8,32,33,64;0,5,64|0-4;0-64;0-64;0,1,5,33,64")(uint64_t n, uint64_t a, uint64_t b, uint64_t c) {
  if ((n < 3 && c) || (n < 2 && b) || (n < 1 && a)) sds_stop();
  auto s = seq<uint64_t>(n, a, b, c); const DacVector v(s); same(v, s);
  auto t = s; const DacVector w(t, std::vector<uint64_t>{}); same(w, s);
} SDS_END
SDS_WITNESS(W_dac_narrow, "1-3;0-8;0,1,5,8")(uint64_t n, uint64_t a, uint64_t b) { // narrow and signed element types
  { auto s = seq<uint8_t>(n, a, b, a); const DacVector v(s); same(v, s); }
  { auto s = seq<uint32_t>(n, a * 4, b, a); const DacVector v(s); same(v, s); }
  { auto s = seq<int>(n, a * 3, b, a); const DacVector v(s); same(v, s); }
} SDS_END
// several integers of few lengths, so that the automatic choice splits into layers and later layers have several entries
SDS_WITNESS(W_dac_many, "8,20,66;1,4,8;9,17,33,64;2,5,64|8,20,40,66,130;1,4,8;9,17,33,64;2,5,64")(uint64_t n, uint64_t small, uint64_t big, uint64_t every) {
  std::vector<uint64_t> s; for (uint64_t i = 0; i < n; i++) s.push_back(ofLength(i % every == every - 1 ? big : i % 7 == 3 ? 0 : small));
  const DacVector v(s); same(v, s);
} SDS_END
// explicitly given unit widths (list number l) that cover the largest value
static std::vector<uint64_t> widths(uint64_t l) {
  switch (l) {
  case 0: return {64}; case 1: return {8, 8, 8, 8, 8, 8, 8, 8}; case 2: return {1, 63}; case 3: return {32, 32}; case 4: return {7, 57}; case 5: return {3, 61};
  case 6: return {63, 1}; case 7: return {16, 16, 32}; case 8: return {8, 56, 8}; case 9: return {1, 1, 62}; case 10: return {33, 31}; case 11: return {4, 4, 8, 48}; case 12: return {64, 8};
  case 13: return {13, 17, 19, 15}; case 14: return {2, 30, 32, 4}; default: return {20, 20, 20, 20}; } }
SDS_WITNESS(W_dac_given, "1-3;0-15;0,1,3,8,9,32,33,63,64;0,4,33,64|1-3;0-15;0-64;0-64")(uint64_t n, uint64_t l, uint64_t a, uint64_t b) {
  if (n < 2 && b) sds_stop();
  auto s = seq<uint64_t>(n, a, b, a); const DacVector v(s, widths(l)); same(v, s);
  sds_check_eq(v.num_layers(), widths(l).size(), "the given widths are used");
} SDS_END
// index iterators
SDS_WITNESS(W_dac_iter, "1-5;0-5;0-5")(uint64_t n, uint64_t i, uint64_t j) {
  if (i > n || j > n) sds_stop();
  std::vector<uint64_t> s; for (uint64_t k = 0; k < n; k++) s.push_back(ofLength(1 + 13 * k));
  const DacVector v(s); auto a = v.begin() + i, b = v.begin() + j;
  sds_check(b - a == (long long)j - (long long)i && a + (b - a) == b && b - (b - a) == a, "differences of positions");
  sds_check((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "positions compare as their indices");
  if (j < n) { sds_check_eq(*b, s[j], "an iterator reads the element at its position"); sds_check_eq(a[(long long)j - (long long)i], s[j], "an iterator reads at an offset"); auto c = b; sds_check(c++ == b && c == v.begin() + (j + 1), "post-increment"); sds_check(--c == b, "pre-decrement"); }
  if (j > 0) { auto c = b; sds_check(c-- == b && c == v.begin() + (j - 1), "post-decrement"); sds_check(++c == b, "pre-increment"); auto d = v.begin(); d += j; sds_check(d == b, "advance"); d -= j; sds_check(d == v.begin(), "retreat"); sds_check((long long)j + v.begin() == b, "offset plus iterator"); }
  sds_check(v.end() - v.begin() == (long long)n, "end minus begin is the size");
} SDS_END
// long sequences: rank over several blocks of each layer; most integers are fixed, some arbitrary within their length
SDS_WITNESS(W_dac_long, "513,640,1100;0-3|513,640,1100,2100;0-7")(uint64_t n, uint64_t k) {
  std::vector<uint64_t> s;
  for (uint64_t i = 0; i < n; i++) {
    uint64_t len = k == 0 ? 1 + i % 9 : k == 1 ? (i % 3 ? 20 : 4) : k == 2 ? 40 : k == 3 ? (i < 512 ? 3 : 33) : k == 4 ? (i == n - 1 ? 64 : 5) : k == 5 ? (i * i) % 65 : k == 6 ? (i < 600 ? 64 : 0) : 17;
    s.push_back(i % 41 == 7 || i == n - 1 || i == 512 ? ofLength(len) : len == 0 ? 0 : (1ull << (len - 1)) | ((i * 0x9E3779B97F4A7C15ull) & ((1ull << (len - 1)) - 1)));
  }
  const DacVector v(s); same(v, s);
  const DacVector w(s, std::vector<int>{2, 7, 55}); same(w, s);
} SDS_END
// more than 2^16 integers
SDS_WITNESS(W_dac_wide, "0,1")(uint64_t k) {
  uint64_t n = 67000; std::vector<uint64_t> s(n, 5); s[3] = ofLength(40); s[n - 2] = ofLength(40); s[n - 70] = ofLength(33); for (uint64_t i = 66000; i < 66100; i++) s[i] = ofLength(i % 3 * 8);
  auto at = [&](const DacVector &v) { sds_check(v.size() == n, "the sequence reports the number of integers"); for (uint64_t i : {uint64_t(0), uint64_t(3), uint64_t(65535), uint64_t(65536), uint64_t(66000), uint64_t(66001), uint64_t(66002), n - 70, n - 2, n - 1}) sds_check_eq(v[i], s[i], "an integer is returned by index"); sds_check_eq(v.back(), s[n - 1], "back is the last integer"); };
  if (k) at(DacVector(s)); else at(DacVector(s, std::vector<uint64_t>{2, 10, 30}));
} SDS_END
