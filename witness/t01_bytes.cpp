// Text algorithms accept any bytes: no access outside their tables, the key or the text. Only memory accesses are judged here
// (what the algorithms answer is the subject of P01, F01 and X01). Keys and texts lie in blocks of exactly their length.
#include "sds.h"
#include <string>
#include <string_view>
#include <vector>
#include "sim_ds/string_util/PatternMatching.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
using namespace sim_ds;
using namespace sim_ds::pattern_matching;
static bool pattern(char *k, uint64_t m, uint64_t idx, uint64_t pal) {
  static const unsigned char P[4][8] = {{0x00, 0xFF, 0x80, 0x7F, 0x01, 0xFE, 0x02, 0xFD}, {0xFF, 0x00, 0x7F, 0x80, 0xC3, 'a', 0x10, 0x11}, {0x80, 'z', 0x00, 0xFF, 0x81, 'y', 0x82, 'x'}, {0x7F, 0xFF, 0xFE, 0x00, 0x20, 0xE3, 0x81, 0x82}};
  unsigned s[8] = {0};
  for (uint64_t n = 0; n < idx; n++) { uint64_t i = m; for (;;) { if (i <= 1) return false; i--; unsigned top = 0; for (uint64_t j = 0; j < i; j++) if (s[j] > top) top = s[j]; if (s[i] <= top) { s[i]++; break; } s[i] = 0; } }
  for (uint64_t i = 0; i < m; i++) k[i] = (char)P[pal][s[i]]; return true;
}
static std::vector<size_t> run(uint64_t alg, std::string_view t, std::string_view k) {
  switch (alg) { case 0: return PatternMatchSimple(t, k); case 1: return PatternMatchKMP(t, k); case 2: return PatternMatchBM(t, k); case 3: return PatternMatchBOM(t, k); case 4: return PatternMatchTurboBOM(t, k); case 5: return PatternMatchSundayQS(t, k); default: return PatternMatchSundayMS(t, k); }
}
static void text(uint64_t alg, const char *k, uint64_t m, uint64_t n) {
  char *kk = new char[m], *t = new char[n]; for (uint64_t i = 0; i < m; i++) kk[i] = k[i]; for (uint64_t i = 0; i < n; i++) t[i] = (char)sds_bits(8);
  run(alg, {t, n}, {kk, m}); delete[] kk; delete[] t;
}
SDS_WITNESS(W_search, "0-6;0-4;0-14;0-2;0-4,7|0-6;0-5;0-51;0-3;0-10")(uint64_t alg, uint64_t m, uint64_t idx, uint64_t pal, uint64_t n) { char k[8]; if (!pattern(k, m, idx, pal)) sds_stop(); text(alg, k, m, n); } SDS_END
SDS_WITNESS(W_search2, "1-6;6,7;0-63;1-3|0-6;6-9;0-255;0-5")(uint64_t alg, uint64_t m, uint64_t s, uint64_t extra) { if (s >> (m - 1)) sds_stop(); char k[16]; k[0] = (char)0xFF; for (uint64_t i = 1; i < m; i++) k[i] = s >> (i - 1) & 1 ? 0 : k[0]; text(alg, k, m, m + extra); } SDS_END
// one-letter keys of every value, arbitrary texts
SDS_WITNESS(W_search_letter, "0-6;0-255;3")(uint64_t alg, uint64_t c, uint64_t n) { char k = (char)c; text(alg, &k, 1, n); } SDS_END
SDS_WITNESS(W_oracle, "0-5;0-51;0-3;0-3")(uint64_t n, uint64_t idx, uint64_t pal, uint64_t l) {
  char k[8]; if (!pattern(k, n, idx, pal)) sds_stop(); char *t = new char[n], *q = new char[n + l]; for (uint64_t i = 0; i < n; i++) t[i] = k[i]; for (uint64_t i = 0; i < n + l; i++) q[i] = (char)sds_bits(8);
  const FactorOracle o(t, t + n); delete[] t; o.accept(std::string_view(q, n + l)); size_t state = 0; for (uint64_t i = 0; i < n + l; i++) if (!o.image(state, (uint8_t)q[i])) break; delete[] q;
} SDS_END
// every text of up to 3 arbitrary bytes drawn from the extremes, and letters of every value
SDS_WITNESS(W_oracle_letter, "0-255;0-2")(uint64_t c, uint64_t d) { char t[3] = {(char)c, (char)(d == 0 ? c : d == 1 ? ~c : 0), (char)(c + d)}; const FactorOracle o(t, t + 3); size_t state = 0; o.image(state, (uint8_t)sds_bits(8)); o.image(state, (uint8_t)sds_bits(8)); o.image(state, (uint8_t)sds_bits(8)); o.image(state, (uint8_t)sds_bits(8)); } SDS_END
SDS_WITNESS(W_oracle_long, "255-257,511-513;0-2,4")(uint64_t n, uint64_t mul) { char *t = new char[n]; for (uint64_t i = 0; i < n; i++) t[i] = (char)(mul < 3 ? i * (2 * mul + 1) + mul : mul == 3 ? (i & 1 ? i * 3 : 0xFF) : 0); const FactorOracle o(t, t + n); delete[] t; size_t state = 0; for (int i = 0; i < 3; i++) o.image(state, (uint8_t)sds_bits(8)); } SDS_END
SDS_WITNESS(W_suffixes, "0-7;0-2|0-9;0-3")(uint64_t n, uint64_t kind) { std::string t; for (uint64_t i = 0; i < n; i++) t.push_back(kind == 0 ? (char)(sds_bool() ? 0xFF : 0) : kind == 1 ? (char)(0x7F + sds_bits(1)) : kind == 2 ? (char)(0xFE + sds_bits(1)) : (char)sds_bits(1)); const SuffixArray a(t); } SDS_END
SDS_WITNESS(W_suffixes_letter, "0-255;0-3")(uint64_t c, uint64_t d) { std::string t; t.push_back((char)c); if (d) t.push_back((char)(c + d * 85)); if (d > 1) t.push_back((char)c); const SuffixArray a(t); for (uint64_t i = 0; i < t.size(); i++) a.char_at(i); } SDS_END
