// The suffix array lists the suffixes in order, and the common-prefix array tells how much neighbours share.
#include "sds.h"
#include <string>
#include <vector>
#include "sim_ds/string_util/SuffixArray.hpp"
SDS_HEAP_LIMIT(1048576)
using namespace sim_ds;
struct S { void *p = sds_stream(); std::ostream &os() { return *reinterpret_cast<std::ostream *>(p); } std::istream &is() { return *reinterpret_cast<std::istream *>(p); } };
static void verify(const SuffixArray &a, const std::string &t) {
  uint64_t n = t.size(); S s; a.WriteSA(s.os()); const FitVector sa(s.is()); S l; a.WriteLCP(l.os()); const FitVector lcp(l.is());
  sds_check_eq(sa.size(), n, "the suffix array has one entry per suffix"); sds_check_eq(lcp.size(), n, "the common-prefix array has one entry per suffix");
  
  for (uint64_t i = 0; i < n; i++) sds_check((uint8_t)t[i] == a.char_at(i), "the text is kept");
  for (uint64_t p = 0; p < n; p++) { // the rank of suffix p is the number of smaller suffixes
    uint64_t r = 0; for (uint64_t q = 0; q < n; q++) { if (p == q) continue; bool less = false, eq = true; for (uint64_t k = 0;; k++) { if (q + k >= n) { less |= eq; break; } if (p + k >= n) break; uint8_t x = t[q + k], y = t[p + k]; less |= eq & (x < y); eq &= x == y; } r += less; }
    sds_check_eq((uint64_t)sa[r], p, "the suffix array lists the suffixes in lexicographic order");
    // what p shares with its successor, the smallest larger suffix: the most it shares with any larger one
    uint64_t best = 0; bool any = false; for (uint64_t q = 0; q < n; q++) { if (p == q) continue; uint64_t c = 0; bool eq = true, greater = false; for (uint64_t k = 0;; k++) { if (p + k >= n) { greater |= eq; break; } if (q + k >= n) break; uint8_t x = t[q + k], y = t[p + k]; greater |= eq & (x > y); eq &= x == y; c += eq; } any |= greater; if (greater && c > best) best = c; }
    sds_check_eq((uint64_t)lcp[r], best, "the common-prefix array gives the length shared with the next suffix"); (void)any;
  }
}
static char letter(uint64_t kind) { return kind == 0 ? (sds_bool() ? 'b' : 'a') : kind == 1 ? (char)(sds_bits(2) * 85) : kind == 2 ? (char)(sds_bool() ? 0xFF : 0) : kind == 3 ? (char)sds_bits(8) : (char)(0x7F + sds_bits(1)); }
SDS_WITNESS(W_suffixes, "0-8;0,2,4|0-10;0,2,4")(uint64_t n, uint64_t kind) { std::string t; for (uint64_t i = 0; i < n; i++) t.push_back(letter(kind)); const SuffixArray a(t); verify(a, t); } SDS_END
SDS_WITNESS(W_suffixes4, "1-6;1|1-7;1")(uint64_t n, uint64_t kind) { std::string t; for (uint64_t i = 0; i < n; i++) t.push_back(letter(kind)); const SuffixArray a(t); verify(a, t); } SDS_END
SDS_WITNESS(W_suffixes_bytes, "1;3")(uint64_t n, uint64_t kind) { std::string t; for (uint64_t i = 0; i < n; i++) t.push_back(letter(kind)); const SuffixArray a(t); verify(a, t); } SDS_END
// the first letters are listed, the others arbitrary
SDS_WITNESS(W_suffixes_long, "12;1,4,7,10,13,16,19,23,26,29,32,35,39,46,49,52,56,59,62,65,68,72,79,88,95,98,102,106,110,113,116,120,123,126,130,133,136,140,143,150,155,159,164,168,175,178,182,187,190,194,199,202,206,209,212,216,219,224,227,231,234,239,242,245,248,251,255;0|14;0-1023;0")(uint64_t n, uint64_t s, uint64_t kind) {
  std::string t; uint64_t f = n < 14 ? 8 : 10; if (s >> f) sds_stop(); for (uint64_t i = 0; i < n; i++) t.push_back(i < f ? (s >> i & 1 ? (kind ? (char)0xFF : 'b') : (kind ? 0 : 'a')) : letter(kind)); const SuffixArray a(t); verify(a, t);
} SDS_END
// written and read again, and asked for parts of the text
SDS_WITNESS(W_suffixes_io, "0-5;0")(uint64_t n, uint64_t kind) {
  std::string t; for (uint64_t i = 0; i < n; i++) t.push_back(letter(kind)); const SuffixArray a(t); S s; a.Write(s.os()); SuffixArray b; b.Read(s.is()); sds_check_eq(sds_stream_left(s.p), 0, "reading consumes what was written"); verify(b, t);
  for (uint64_t i = 0; i <= n; i++) { auto v = b.suffix(i); sds_check_eq(v.size(), n - i, "a suffix reaches to the end"); for (uint64_t k = 0; k < v.size(); k++) sds_check(v[k] == t[i + k], "a suffix is the end of the text"); for (uint64_t l = 0; i + l <= n; l++) { auto w = b.suffix(i, l); sds_check_eq(w.size(), l, "a part has the requested length"); for (uint64_t k = 0; k < l; k++) sds_check(w[k] == t[i + k], "a part is that of the text"); } }
} SDS_END
// long listed texts of several kinds: random over 1, 2, 4, 26 and 256 letters, periodic, Fibonacci, runs
static std::string text(uint64_t n, uint64_t kind, uint64_t seed) {
  std::string t; uint64_t x = seed * 0x9E3779B97F4A7C15ull + 5; auto rnd = [&](uint64_t k) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % k; };
  if (kind == 6) { std::string a = "a", b = "ab"; while (b.size() < n) { std::string c = b + a; a = b; b = c; } b.resize(n); if (seed & 1) b[n - 1] = (char)0xC0; return b; }
  uint64_t per = 2 + seed % 7; char run = 'a';
  for (uint64_t i = 0; i < n; i++) t.push_back(kind == 0 ? 'x' : kind == 1 ? (char)('a' + rnd(2)) : kind == 2 ? (char)(rnd(4) * 85) : kind == 3 ? (char)('a' + rnd(26)) : kind == 4 ? (char)rnd(256) : kind == 5 ? (i < per || !rnd(n) ? (char)('a' + rnd(3)) : t[i - per]) : (rnd(6) ? run : run = (char)(rnd(3) * 127)));
  return t;
}
static void listed(const SuffixArray &a, const std::string &t) {
  uint64_t n = t.size(); S s; a.WriteSA(s.os()); const FitVector sa(s.is()); S l; a.WriteLCP(l.os()); const FitVector lcp(l.is()); std::vector<bool> used(n);
  sds_check_eq(sa.size(), n, "the suffix array has one entry per suffix");
  for (uint64_t i = 0; i < n; i++) {
    uint64_t p = sa[i]; sds_check(p < n && !used[p], "every suffix is listed once"); used[p] = true; if (i + 1 == n) break;
    uint64_t q = sa[i + 1], c = 0; sds_check(q < n, "every suffix is listed once"); while (p + c < n && q + c < n && t[p + c] == t[q + c]) c++;
    sds_check(p + c == n || (q + c < n && (uint8_t)t[p + c] < (uint8_t)t[q + c]), "the suffix array lists the suffixes in lexicographic order"); sds_check_eq((uint64_t)lcp[i], c, "the common-prefix array gives the length shared with the next suffix");
  }
}
SDS_WITNESS(W_suffixes_open, "14,18,40;1,2,4,5,7;0-3|14,18,40,80;1,2,4,5,7;0-15")(uint64_t n, uint64_t kind, uint64_t seed) { std::string t = text(n, kind, seed); uint64_t p = seed * 7 % n; t[p] = sds_bool() ? t[p] : kind < 4 ? 'b' : (char)0x9C; if (seed & 1) t[n - 1] = sds_bool() ? 'a' : t[n - 1]; const SuffixArray a(t); listed(a, t); } SDS_END
SDS_WITNESS(W_suffixes_listed, "9,33,63-66,127-129,200,257,300;0-7;0-2|9-70,127-129,200,255-258,300,600;0-7;0-9")(uint64_t n, uint64_t kind, uint64_t seed) { std::string t = text(n, kind, seed); const SuffixArray a(t); listed(a, t); } SDS_END
