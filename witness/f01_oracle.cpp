// The factor oracle of a text: every factor is accepted, among strings of the length of the text only the text, nothing longer.
// Texts run over every pattern of equal and different characters; queries are made of arbitrary bytes.
#include "sds.h"
#include <string>
#include <string_view>
#include "sim_ds/string_util/FactorOracle.hpp"
SDS_HEAP_LIMIT(1048576)
using namespace sim_ds;
static bool pattern(char *k, uint64_t m, uint64_t idx, uint64_t pal) {
  static const unsigned char P[4][8] = {{'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'}, {0x00, 0xFF, 0x80, 0x7F, 0x01, 0xFE, 0x02, 0xFD}, {0xFF, 0x00, 0x7F, 0x80, 0xC3, 'a', 0x10, 0x11}, {0x80, 'z', 0x00, 0xFF, 0x81, 'y', 0x82, 'x'}};
  unsigned s[8] = {0};
  for (uint64_t n = 0; n < idx; n++) { uint64_t i = m; for (;;) { if (i <= 1) return false; i--; unsigned top = 0; for (uint64_t j = 0; j < i; j++) if (s[j] > top) top = s[j]; if (s[i] <= top) { s[i]++; break; } s[i] = 0; } }
  for (uint64_t i = 0; i < m; i++) k[i] = (char)P[pal][s[i]]; return true;
}
static void ask(const FactorOracle &o, const char *t, uint64_t n) {
  for (uint64_t l = 0; l <= n + 1; l++) {
    char q[16]; for (uint64_t i = 0; i < l; i++) q[i] = (char)sds_bits(8);
    bool factor = false; for (uint64_t s = 0; s + l <= n; s++) { bool e = true; for (uint64_t i = 0; i < l; i++) e &= q[i] == t[s + i]; factor |= e; }
    bool a = o.accept(std::string_view(q, l));
    if (factor) sds_check(a, "every factor of the text is accepted");
    if (l >= n && !factor) sds_check(!a, "no other string that is as long as the text is accepted");
    FactorOracle::Exproler x(std::string_view(q, l)); bool b = o.accept(x); sds_check(a == b, "the explorer gives the same answer"); if (b) sds_check_eq(x.pos(), l, "the explorer consumed the accepted string");
  }
}
SDS_WITNESS(W_oracle, "0-5;0-51;0-3;0-1|0-7;0-876;0-3;0-1")(uint64_t n, uint64_t idx, uint64_t pal, uint64_t how) {
  char t[8]; if (!pattern(t, n, idx, pal)) sds_stop();
  if (how == 0) { const FactorOracle o(t, t + n); ask(o, t, n); } else { const FactorOracle o(std::string(t, n)); ask(o, t, n); }
} SDS_END
SDS_WITNESS(W_oracle6, "6;0-202;0")(uint64_t n, uint64_t idx, uint64_t pal) { char t[8]; if (!pattern(t, n, idx, pal)) sds_stop(); const FactorOracle o(t, t + n); ask(o, t, n); } SDS_END
// longer texts: over two letters (bit i of s), and over all byte values
SDS_WITNESS(W_oracle2, "8;0-127;0-1|8-11;0-1023;0-1")(uint64_t n, uint64_t s, uint64_t pal) {
  if (s >> (n - 1)) sds_stop(); char t[16]; t[0] = pal ? (char)0xFF : 'a'; for (uint64_t i = 1; i < n; i++) t[i] = s >> (i - 1) & 1 ? (pal ? 0 : 'b') : t[0];
  const FactorOracle o(t, t + n);
  for (uint64_t l = 1; l <= n + 1; l++) { char q[16]; for (uint64_t i = 0; i < l; i++) q[i] = sds_bool() ? t[0] : pal ? 0 : 'b'; bool factor = false; for (uint64_t b = 0; b + l <= n; b++) { bool e = true; for (uint64_t i = 0; i < l; i++) e &= q[i] == t[b + i]; factor |= e; }
    bool a = o.accept(std::string_view(q, l)); if (factor) sds_check(a, "every factor of the text is accepted"); if (l >= n && !factor) sds_check(!a, "no other string that is as long as the text is accepted"); }
} SDS_END
SDS_WITNESS(W_oracle_bytes, "254-258,300,520;0-4")(uint64_t n, uint64_t mul) {
  std::string t; for (uint64_t i = 0; i < n; i++) t.push_back((char)(mul < 4 ? i * (2 * mul + 1) + mul : mul == 4 ? (i & 1 ? i * 3 : 7) : i % 100 < 50 ? 200 + i % 7 : i * i));
  const FactorOracle o(t); 
  for (uint64_t l = 1; l <= 3; l++) { char q[4]; for (uint64_t i = 0; i < l; i++) q[i] = (char)sds_bits(8); bool factor = false; for (uint64_t s = 0; s + l <= n; s++) { bool e = true; for (uint64_t i = 0; i < l; i++) e &= q[i] == t[s + i]; factor |= e; } bool a = o.accept(std::string_view(q, l)); if (factor) sds_check(a, "every factor of the text is accepted"); }
  sds_check(o.accept(t), "the text itself is accepted"); t.push_back((char)sds_bits(8)); sds_check(!o.accept(t), "no string longer than the text is accepted");
} SDS_END
// long listed texts: many factors of each, and strings of the length of the text that differ from it in one place
SDS_WITNESS(W_oracle_listed, "0-7;0-9|0-7;0-59")(uint64_t kind, uint64_t seed) {
  std::string t; uint64_t x = seed * 0x9E3779B97F4A7C15ull + kind; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  uint64_t n = 20 + rnd(280), per = 1 + rnd(9); char last = 'a';
  for (uint64_t i = 0; i < n; i++) t.push_back(kind == 0 ? (char)rnd(40) : kind == 1 ? (char)('a' + rnd(2)) : kind == 2 ? (char)(rnd(3) * 127) : kind == 3 ? (char)rnd(256) : kind == 4 ? (i < per || !rnd(40) ? (char)('a' + rnd(3)) : t[i - per]) : kind == 5 ? (last = rnd(7) ? last : (char)('a' + rnd(2))) : kind == 6 ? (char)(255 - i * 7) : (char)(rnd(12) ? rnd(8) * 17 : 0));
  const FactorOracle o(t);
  sds_check(o.accept(t), "the text itself is accepted");
  for (uint64_t i = 0; i < n; i++) { uint64_t l = 1 + rnd(n - i); if (i & 1) l = l % 6 + 1 > n - i ? n - i : l % 6 + 1; sds_check(o.accept(std::string_view(t).substr(i, l)), "every factor of the text is accepted"); sds_check(o.accept(std::string_view(t).substr(i)), "every factor of the text is accepted"); }
  for (uint64_t i = 0; i < 40; i++) { std::string u = t; uint64_t p = rnd(n); u[p] = sds_bits(8); bool same = u[p] == t[p]; sds_check(o.accept(u) == same, "no other string that is as long as the text is accepted"); }
} SDS_END
