// Wavelet tree over byte symbols: access, rank of a position, rank of a symbol before a position.
#include "sds.h"
#include <vector>
#include "sim_ds/WaveletTree.hpp"
using namespace sim_ds;
// symbols of h significant bits; symbol m has the top one set so that the alphabet is known. In every symbol the bits of
// a window (position w, 3 bits; all bits when the sequence is short) are arbitrary, the others follow a pattern.
static uint8_t sym(uint64_t h, uint64_t w, uint64_t width, uint64_t base) {
  uint64_t M = (1u << h) - 1, win = ((1u << width) - 1) << w & M;
  return (uint8_t)((base & M & ~win) | (sds_bits(8) & win));
}
static std::vector<uint8_t> seq(uint64_t n, uint64_t h, uint64_t m, uint64_t w, uint64_t width) {
  std::vector<uint8_t> s; for (uint64_t i = 0; i < n; i++) { uint8_t x = sym(h, w, width, i * 0x9E3779B1u >> 5); if (i == m) x |= 1u << (h - 1); s.push_back(x); } return s;
}
static void all(const WaveletTree &t, const std::vector<uint8_t> &s) {
  sds_check_eq(t.size(), s.size(), "the tree reports the length of the sequence");
  for (uint64_t i = 0; i < s.size(); i++) {
    sds_check_eq(t[i], s[i], "a symbol is returned by index");
    uint64_t r = 0; for (uint64_t j = 0; j < i; j++) r += s[j] == s[i];
    sds_check_eq(t.rank(i), r, "the rank of a position is the number of earlier equal symbols");
    auto p = t.AccessAndRank(i);
    sds_check_eq(p.first, s[i], "combined access returns the symbol"); sds_check_eq(p.second, r, "combined access returns the rank");
  }
}
SDS_WITNESS(W_tree, "1-4;1-8;0-3;0-7|1-5;1-8;0-4;0-7")(uint64_t n, uint64_t h, uint64_t m, uint64_t w) {
  if (m >= n || w >= h || (m && m < n - 1)) sds_stop();
  uint64_t width = n * h <= 8 ? 8 : n <= 3 ? 3 : 2; if (width == 8 && w) sds_stop();
  auto s = seq(n, h, m, w, width); const WaveletTree t(s); all(t, s);
} SDS_END
// occurrences of a symbol (present or not, inside the alphabet or above it) before every position including the end
SDS_WITNESS(W_tree_count, "1-4;1-8;0-3;0-7|1-5;1-8;0-4;0-7")(uint64_t n, uint64_t h, uint64_t m, uint64_t w) {
  if (m >= n || w >= h || (m && m < n - 1)) sds_stop();
  auto s = seq(n, h, m, w, n <= 2 ? 3 : 2); const WaveletTree t(s); uint64_t win = 7u << w & 255;
  for (uint64_t base = 0; base < 4; base++) {
    uint8_t c = (uint8_t)(((base == 3 ? 0xA5 : base * 0x9E3779B1u >> 5) & ~win) | (sds_bits(8) & win)); // the pattern of symbol number base, or another
    for (uint64_t i = base; i <= n; i += 1 + (n - base + 1) / 2) { uint64_t r = 0; for (uint64_t j = 0; j < i; j++) r += s[j] == c; sds_check_eq(t.rank(c, i), r, "the rank of a symbol is the number of its occurrences before the position"); }
  }
} SDS_END
// all symbols zero, empty sequences
SDS_WITNESS(W_tree_small, "0-3")(uint64_t n) {
  std::vector<uint8_t> s(n, 0); const WaveletTree t(s); all(t, s);
  for (uint64_t i = 0; i <= n; i++) { sds_check_eq(t.rank(0, i), i, "the rank of a symbol is the number of its occurrences before the position"); if (n) sds_check_eq(t.rank(1, i), 0, "a symbol that does not occur has rank zero"); }
  const WaveletTree d; sds_check_eq(d.size(), 0, "a default tree is empty");
} SDS_END
// long sequences: the tree crosses words and blocks; fixed symbols with arbitrary ones around position p
SDS_WITNESS(W_tree_long, "65,130,530,1030;1,2,3,5,8;0-3")(uint64_t n, uint64_t h, uint64_t k) {
  uint64_t p = k == 0 ? 0 : k == 1 ? 62 : k == 2 ? n / 2 : n - 3; uint64_t M = (1u << h) - 1;
  std::vector<uint8_t> s;
  for (uint64_t i = 0; i < n; i++) s.push_back(i == p + 3 || i == n - 5 ? M : i >= p && i < p + 2 ? sym(h, (k + 1) % h, 2, i * 77) : (uint8_t)((k == 1 ? i / 70 : i * 0x9E3779B1u >> 7) & M));
  const WaveletTree t(s); sds_check_eq(t.size(), n, "the tree reports the length of the sequence");
  uint64_t at[] = {0, p, p + 1, p + 2, n / 3, n - 1, 63, 64, 511 % n, 512 % n};
  for (uint64_t i : at) {
    sds_check_eq(t[i], s[i], "a symbol is returned by index");
    uint64_t r = 0; for (uint64_t j = 0; j < i; j++) r += s[j] == s[i];
    sds_check_eq(t.rank(i), r, "the rank of a position is the number of earlier equal symbols");
    auto q = t.AccessAndRank(i); sds_check(q.first == s[i] && q.second == r, "combined access");
  }
  for (uint64_t c = 0; c <= M; c += 1 + M / 5) for (uint64_t i : {p + 2, n}) { uint64_t r = 0; for (uint64_t j = 0; j < i; j++) r += s[j] == c; sds_check_eq(t.rank(c, i), r, "the rank of a symbol is the number of its occurrences before the position"); }
} SDS_END
// more than 2^16 symbols
SDS_WITNESS(W_tree_wide, "1,2")(uint64_t h) {
  uint64_t n = 66600, M = (1u << h) - 1; std::vector<uint8_t> s(n, M); s[9] = 0; s[n - 3] = sym(h, 0, 2, 0); s[n - 2] = sym(h, 0, 2, 0);
  const WaveletTree t(s); sds_check_eq(t.size(), n, "the tree reports the length of the sequence");
  for (uint64_t i : {n - 3, n - 2, n - 1, uint64_t(66000), uint64_t(9)}) { uint64_t r = 0; r = (i > n - 3 && s[n - 3] == s[i]) + (i > n - 2 && s[n - 2] == s[i]); if (s[i] == M) r += i > n - 3 ? n - 4 : i > 9 ? i - 1 : i; else if (s[i] == 0 && i > 9) r++;
    sds_check_eq(t[i], s[i], "a symbol is returned by index"); sds_check_eq(t.rank(i), r, "the rank of a position is the number of earlier equal symbols"); sds_check_eq(t.AccessAndRank(i).second, r, "combined access returns the rank"); }
  sds_check_eq(t.rank((uint8_t)M, n - 3), n - 4, "the rank of a symbol is the number of its occurrences before the position");
} SDS_END
// listed longer sequences over several alphabets, every position
SDS_WITNESS(W_tree_listed, "63,64,65,300,900;0-8;0|31-33,63-65,127-129,300,511-513,900,2000;0-8;0-3")(uint64_t n, uint64_t kind, uint64_t seed) {
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + kind, cur = 200; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  std::vector<uint8_t> s; for (uint64_t i = 0; i < n; i++) s.push_back(kind == 0 ? rnd(256) : kind == 1 ? rnd(5) : kind == 2 ? (rnd(30) ? 1 : 255) : kind == 3 ? i % 256 : kind == 4 ? (cur = rnd(20) ? cur : rnd(256)) : kind == 5 ? 128 + rnd(3) : kind == 6 ? rnd(1 + rnd(17)) : kind == 7 ? (i < n / 2 ? 0 : 129) : 7);
  const WaveletTree t(s); sds_check_eq(t.size(), n, "the tree reports the length of the sequence"); uint64_t c[256] = {};
  for (uint64_t i = 0; i < n; i++) {
    sds_check_eq(t[i], s[i], "a symbol is returned by index"); sds_check_eq(t.rank(i), c[s[i]], "the rank of a position is the number of earlier equal symbols"); auto q = t.AccessAndRank(i); sds_check(q.first == s[i] && q.second == c[s[i]], "combined access");
    uint8_t o = (uint8_t)rnd(256); sds_check_eq(t.rank(o, i), c[o], "the rank of a symbol is the number of its occurrences before the position"); o = (uint8_t)(s[i] ^ 1); sds_check_eq(t.rank(o, i), c[o], "the rank of a symbol is the number of its occurrences before the position"); c[s[i]]++;
  }
  for (uint64_t o = 0; o < 256; o++) sds_check_eq(t.rank((uint8_t)o, n), c[o], "the rank of a symbol is the number of its occurrences before the position");
} SDS_END
