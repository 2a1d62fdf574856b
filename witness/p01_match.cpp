// Pattern matching: exactly the occurrences, in increasing order, for every text.
// Keys run over every pattern of equal and different characters; the text is made of arbitrary bytes.
#include "sds.h"
#include <string_view>
#include <vector>
#include "sim_ds/string_util/PatternMatching.hpp"
SDS_HEAP_LIMIT(262144)
using namespace sim_ds;
using namespace sim_ds::pattern_matching;
// the idx-th pattern (restricted growth string) of length m, as characters from one of several palettes
static bool pattern(char *k, uint64_t m, uint64_t idx, uint64_t pal) {
  static const unsigned char P[4][6] = {{'a', 'b', 'c', 'd', 'e', 'f'}, {0x00, 0xFF, 0x80, 0x7F, 0x01, 0xFE}, {0xFF, 0x00, 0x7F, 0x80, 0xC3, 'a'}, {0x80, 'z', 0x00, 0xFF, 0x81, 'y'}};
  unsigned s[8] = {0}; uint64_t mx = 0;
  for (uint64_t n = 0; n < idx; n++) { // next restricted growth string
    uint64_t i = m; for (;;) { if (i <= 1) return false; i--; unsigned top = 0; for (uint64_t j = 0; j < i; j++) if (s[j] > top) top = s[j]; if (s[i] <= top) { s[i]++; break; } s[i] = 0; }
  }
  (void)mx; for (uint64_t i = 0; i < m; i++) k[i] = (char)P[pal][s[i]]; return true;
}
static void expect(const std::vector<size_t> &r, const char *t, uint64_t n, const char *k, uint64_t m) {
  uint64_t c = 0; uint64_t at[32]; bool oc[32];
  for (uint64_t i = 0; m <= n && i <= n - m; i++) { bool o = true; for (uint64_t j = 0; j < m; j++) o &= t[i + j] == k[j]; at[i] = c; oc[i] = o; c += o; }
  sds_check_eq(r.size(), c, "as many matches as occurrences are reported");
  for (uint64_t i = 0; m <= n && i <= n - m; i++) if (oc[i] && r.size() == c) sds_check_eq(r[at[i]], i, "the matches are the occurrences in increasing order");
}
static std::vector<size_t> run(uint64_t alg, std::string_view t, std::string_view k) {
  switch (alg) { case 0: return PatternMatchSimple(t, k); case 1: return PatternMatchKMP(t, k); case 2: return PatternMatchBM(t, k); case 3: return PatternMatchBOM(t, k); case 4: return PatternMatchTurboBOM(t, k); case 5: return PatternMatchSundayQS(t, k); default: return PatternMatchSundayMS(t, k); }
}
static void match(uint64_t alg, char *k, uint64_t m, uint64_t n) { char t[32]; for (uint64_t i = 0; i < n; i++) t[i] = (char)sds_bits(8); expect(run(alg, {t, n}, {k, m}), t, n, k, m); }
SDS_WITNESS(W_match, "0-6;0-4;0-14;0,1;0-8")(uint64_t alg, uint64_t m, uint64_t idx, uint64_t pal, uint64_t n) { char k[8]; if (!pattern(k, m, idx, pal)) sds_stop(); match(alg, k, m, n); } SDS_END
SDS_WITNESS(W_match5, "0-6;5;0-51;0;7,9|0-6;5,6;0-202;0-3;7-12")(uint64_t alg, uint64_t m, uint64_t idx, uint64_t pal, uint64_t n) { char k[8]; if (!pattern(k, m, idx, pal)) sds_stop(); match(alg, k, m, n); } SDS_END
// longer keys over two letters: bit i of s says whether character i differs from the first
SDS_WITNESS(W_match2, "1-6;6,7;0-63;3|0-6;6-10;0-511;1,3-5")(uint64_t alg, uint64_t m, uint64_t s, uint64_t extra) {
  if (s >> (m - 1)) sds_stop(); char k[16]; k[0] = 'a'; for (uint64_t i = 1; i < m; i++) k[i] = s >> (i - 1) & 1 ? (char)0xE2 : 'a'; match(alg, k, m, m + extra);
} SDS_END
// one searcher asked several times answers each time, and its key is the one it was built for
template <class S> static void again(uint64_t m, uint64_t idx, uint64_t n) {
  char k[8], t[32], u[32]; if (!pattern(k, m, idx, 0)) sds_stop(); for (uint64_t i = 0; i < n; i++) { t[i] = (char)sds_bits(8); u[i] = (char)sds_bits(8); }
  const S x(std::string_view(k, m)); S y = x; expect(x.find_all({t, n}), t, n, k, m); expect(x.find_all({u, n}), u, n, k, m); expect(x.find_all({t, n}), t, n, k, m); expect(y.find_all({u, n}), u, n, k, m);
}
SDS_WITNESS(W_again, "0-6;1-3;0-4;4")(uint64_t alg, uint64_t m, uint64_t idx, uint64_t n) {
  switch (alg) { case 0: again<Simple>(m, idx, n); break; case 1: again<Kmp>(m, idx, n); break; case 2: again<Bm>(m, idx, n); break; case 3: again<Bom>(m, idx, n); break; case 4: again<TurboBom>(m, idx, n); break; case 5: again<SundayQS>(m, idx, n); break; default: again<SundayMS>(m, idx, n); }
} SDS_END
// long keys and texts: listed texts of several kinds, keys cut out of them (and then changed in one place), a few unknown bytes in the text
SDS_WITNESS(W_match_long, "0-6;0-7;0-11|0-6;0-7;0-59")(uint64_t alg, uint64_t kind, uint64_t seed) {
  char t[160], k[80]; uint64_t x = seed * 0x9E3779B97F4A7C15ull + kind; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  uint64_t n = 40 + rnd(110), per = 1 + rnd(9); char last = 'a';
  for (uint64_t i = 0; i < n; i++) t[i] = kind == 0 ? 'a' : kind == 1 ? (char)('a' + rnd(2)) : kind == 2 ? (char)(rnd(3) * 127) : kind == 3 ? (char)rnd(256) : kind == 4 ? (i < per || !rnd(40) ? (char)('a' + rnd(3)) : t[i - per]) : kind == 5 ? (last = rnd(7) ? last : (char)('a' + rnd(2))) : kind == 6 ? (i < 2 ? (char)('a' + i) : t[i - 1] == 'a' ? (rnd(9) ? 'b' : 'a') : 'a') : (char)('a' + (i * i / (1 + per) % 5));
  uint64_t m = 1 + rnd(seed % 3 == 0 ? 6 : seed % 3 == 1 ? 20 : 70); if (m > n) m = n; uint64_t from = rnd(n - m + 1); for (uint64_t i = 0; i < m; i++) k[i] = t[from + i];
  if (seed % 4 == 3) k[rnd(m)] = 'b';
  if (seed % 2) for (uint64_t j = 0; j < 2; j++) t[rnd(n)] = sds_bool() ? 'a' : 'b';
  std::vector<size_t> r = run(alg, {t, n}, {k, m}); uint64_t c = 0;
  uint64_t at[160]; bool oc[160];
  for (uint64_t i = 0; i + m <= n; i++) { bool o = true; for (uint64_t j = 0; j < m; j++) o &= t[i + j] == k[j]; at[i] = c; oc[i] = o; c += o; }
  sds_check_eq(r.size(), c, "as many matches as occurrences are reported");
  for (uint64_t i = 0; i + m <= n; i++) if (oc[i] && r.size() == c) sds_check_eq(r[at[i]], i, "the matches are the occurrences in increasing order");
} SDS_END
