// The string dictionaries accept exactly their keys and number them one to one.
#include "sds.h"
#include "rbtree.h"
#include <algorithm>
#include <array>
#include <limits>
#include <queue>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "sim_ds/string_util/Samc.hpp"
SDS_HEAP_LIMIT(2097152)
using namespace sim_ds;
static const unsigned char letters[4][4] = {{'a', 'b', 'c', 'd'}, {1, 0x7F, 0x80, 0xFF}, {0xFD, 0xFE, 0xFF, 0xFF}, {'0', '9', 'z', 0x80}};
// the strings over the first k letters of up to l letters, in order
static void all(std::vector<std::string> &out, const std::string &prefix, uint64_t k, uint64_t l, uint64_t pal) {
  out.push_back(prefix);
  if (l) for (uint64_t i = 0; i < k; i++) { std::string s(prefix); s.push_back((char)letters[pal][i]); all(out, s, k, l - 1, pal); }
}
static std::vector<std::string> subset(uint64_t set, uint64_t k, uint64_t l, uint64_t pal) {
  std::vector<std::string> u, r; all(u, std::string(), k, l, pal);
  for (uint64_t i = 0; i < u.size(); i++) if (set >> i & 1) r.push_back(u[i]);
  return r;
}
template <class D> static void accepts(const D &d, const std::vector<std::string> &keys, uint64_t qlen) {
  char q[8]; for (uint64_t i = 0; i < qlen; i++) q[i] = (char)sds_bits(8);
  bool in = false;
  for (auto &k : keys) { if (k.size() != qlen) continue; bool h = true; for (uint64_t i = 0; i < qlen; i++) h &= k[i] == q[i]; in |= h; }
  sds_check(d.accept(std::string_view(q, qlen)) == in, "exactly the keys are accepted");
}
template <class D> static void numbers(const D &d, const std::vector<std::string> &keys, uint64_t qlen) {
  char q[8]; for (uint64_t i = 0; i < qlen; i++) q[i] = (char)sds_bits(8);
  bool in = false;
  for (auto &k : keys) { if (k.size() != qlen) continue; bool h = true; for (uint64_t i = 0; i < qlen; i++) h &= k[i] == q[i]; in |= h; }
  sds_check((d.lookup(std::string_view(q, qlen)) != D::kSearchError) == in, "exactly the keys have a number");
}
template <class D> static void onetoone(const D &d, const std::vector<std::string> &keys) {
  uint64_t used = 0;
  for (auto &k : keys) { uint64_t v = d.lookup(k); sds_check(v < keys.size() && !(used >> v & 1), "numbers are distinct and count from zero"); used |= 1ull << v; auto s = d.access(v); sds_check(s == k, "access by number gives the key"); }
}
SDS_WITNESS(W_accept, "1-127;1;0-3;0,1|1-127;0-3;0-4;0,1")(uint64_t set, uint64_t pal, uint64_t qlen, uint64_t legacy) {
  auto k = subset(set, 2, 2, pal);
  if (legacy) accepts(Samc<uint32_t, true>(k.begin(), k.end()), k, qlen); else accepts(Samc<uint32_t>(k.begin(), k.end()), k, qlen);
} SDS_END
SDS_WITNESS(W_lookup, "1-127;2;0-3|1-127;0-3;0-4")(uint64_t set, uint64_t pal, uint64_t qlen) { auto k = subset(set, 2, 2, pal); numbers(SamcDict<uint32_t>(k.begin(), k.end()), k, qlen); } SDS_END
SDS_WITNESS(W_numbers, "1-127;0-2|1-127;0-3")(uint64_t set, uint64_t pal) { auto k = subset(set, 2, 2, pal); onetoone(SamcDict<uint32_t>(k.begin(), k.end()), k); } SDS_END
// larger sets: words of one to three letters, chosen by a listed stride
static std::vector<std::string> words(uint64_t n, uint64_t stride, uint64_t kind) {
  std::vector<std::string> r;
  for (uint64_t i = 0; i < n; i++) {
    uint64_t x = i * (2 * stride + 1); std::string s;
    if (kind == 0) { s.push_back((char)(x % 255 + 1)); }                                                                   // single letters
    else if (kind == 1) { s.push_back((char)(x % 7 * 30 + 1)); s.push_back((char)(x / 7 % 255 + 1)); }                     // fan-out below several parents
    else if (kind == 2) { for (uint64_t j = 0; j <= i % 6; j++) s.push_back((char)(x >> j & 1 ? 'b' : 'a')); }             // deep, two letters
    else { s.push_back((char)(x % 90 + 33)); s.push_back((char)(x % 3 + 'a')); s.push_back((char)(x % 5 + 0xFB)); }        // many parents of the same letter
    r.push_back(s);
  }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
SDS_WITNESS(W_words, "1-12,64-67;0-2;0-3;0,1|1-70,90,130,200;0-3;0-3;0,1")(uint64_t n, uint64_t stride, uint64_t kind, uint64_t how) {
  auto k = words(n, stride, kind);
  if (how == 0) { Samc<uint32_t> d(k.begin(), k.end()); for (auto &x : k) sds_check(d.accept(x), "every key is accepted"); }
  else { SamcDict<uint32_t> d(k.begin(), k.end()); std::vector<bool> used(k.size()); for (uint64_t i = 0; i < k.size(); i++) { uint64_t v = d.lookup(k[i]); sds_check(v < k.size() && !used[v], "numbers are distinct and count from zero"); used[v] = true; sds_check(d.access(v) == k[i], "access by number gives the key"); } }
} SDS_END
SDS_WITNESS(W_words_query, "1-12;0-1;0-3;1-3")(uint64_t n, uint64_t stride, uint64_t kind, uint64_t qlen) { auto k = words(n, stride, kind); accepts(Samc<uint32_t>(k.begin(), k.end()), k, qlen); } SDS_END
// random sets of words of one to four letters, so that terminals and leaves of different depths meet in one table
static std::vector<std::string> mixed(uint64_t seed, uint64_t n) {
  std::vector<std::string> r; uint64_t x = seed * 0x9E3779B97F4A7C15ull + 12345;
  auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
  for (uint64_t i = 0; i < n; i++) { std::string s; for (uint64_t l = rnd(4) + 1; l--;) s.push_back((char)('a' + rnd(4))); r.push_back(s); }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
SDS_WITNESS(W_mixed, "0-63;12;0-4;0-1|0-299;6,12,20;0-4;0-1")(uint64_t seed, uint64_t n, uint64_t qlen, uint64_t dict) { auto k = mixed(seed, n); if (dict) numbers(SamcDict<uint16_t>(k.begin(), k.end()), k, qlen); else accepts(Samc<uint16_t>(k.begin(), k.end()), k, qlen); } SDS_END
// larger listed sets over several alphabets: numbers, access, and queries one letter away from a key
static std::vector<std::string> many(uint64_t seed, uint64_t n, uint64_t kind) {
  std::vector<std::string> r; uint64_t x = seed * 0x9E3779B97F4A7C15ull + kind * 77 + n; auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
  for (uint64_t i = 0; i < n; i++) { std::string s; uint64_t l = kind == 0 ? 1 + rnd(9) : kind == 1 ? 1 + rnd(3) : kind == 2 ? 6 : kind == 3 ? 2 + rnd(14) : rnd(5); while (l--) s.push_back((char)(kind == 0 ? 'a' + rnd(3) : kind == 1 ? 1 + rnd(255) : kind == 2 ? '0' + rnd(10) : kind == 3 ? (rnd(4) ? 'x' : 0x80 + rnd(128)) : 1 + rnd(6) * 50)); r.push_back(s); }
  std::sort(r.begin(), r.end(), [](const std::string &a, const std::string &b) { return a < b; }); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
SDS_WITNESS(W_many, "0-4;20,80;0-4;0,1|0-39;20,80,200;0-4;0,1")(uint64_t seed, uint64_t n, uint64_t kind, uint64_t dict) {
  auto k = many(seed, n, kind);
  if (dict) {
    const SamcDict<uint32_t> d(k.begin(), k.end()); std::vector<bool> used(k.size());
    for (uint64_t i = 0; i < k.size(); i++) { uint64_t v = d.lookup(k[i]); sds_check(v < k.size() && !used[v], "numbers are distinct and count from zero"); used[v] = true; sds_check(d.access(v) == k[i], "access by number gives the key"); }
    for (uint64_t i = 0; i < k.size(); i += 1 + k.size() / 12) { std::string q = k[i]; if (q.empty()) continue; q[i % q.size()] = (char)sds_bits(8); bool in = false; for (auto &y : k) if (y.size() == q.size()) { bool e = true; for (uint64_t j = 0; j < q.size(); j++) e &= y[j] == q[j]; in |= e; } sds_check((d.lookup(q) != SamcDict<uint32_t>::kSearchError) == in, "exactly the keys have a number"); }
  } else {
    const Samc<uint32_t> d(k.begin(), k.end()); for (auto &y : k) sds_check(d.accept(y), "every key is accepted");
    for (uint64_t i = 0; i < k.size(); i += 1 + k.size() / 12) { std::string q = k[i]; if (i % 2 && !q.empty()) q.pop_back(); else q.push_back('a'); if (!q.empty()) q[i % q.size()] = (char)sds_bits(8); bool in = false; for (auto &y : k) if (y.size() == q.size()) { bool e = true; for (uint64_t j = 0; j < q.size(); j++) e &= y[j] == q[j]; in |= e; } sds_check(d.accept(q) == in, "exactly the keys are accepted"); }
  }
} SDS_END
// no keys
SDS_WITNESS(W_none, "0-5;0-3")(uint64_t how, uint64_t qlen) {
  std::vector<std::string> k;
  if (how == 0) accepts(Samc<uint32_t>(), k, qlen); else if (how == 1) accepts(Samc<uint32_t>(k.begin(), k.end()), k, qlen); else if (how == 2) accepts(Samc<uint8_t, true>(k.begin(), k.end()), k, qlen);
  else if (how == 3) numbers(SamcDict<uint32_t>(), k, qlen); else if (how == 4) numbers(SamcDict<uint32_t>(k.begin(), k.end()), k, qlen); else { Samc<uint16_t> d, e(d); d = e; accepts(d, k, qlen); }
} SDS_END
// code types, duplicate keys, character arrays instead of strings
SDS_WITNESS(W_types, "1-30,64-127;0-3;2|1-127;0-3;0-3")(uint64_t set, uint64_t ty, uint64_t qlen) {
  auto k = subset(set, 2, 2, 1);
  if (ty == 0) accepts(Samc<uint8_t>(k.begin(), k.end()), k, qlen);
  else if (ty == 1) accepts(Samc<size_t>(k.begin(), k.end()), k, qlen);
  else if (ty == 2) numbers(SamcDict<uint16_t>(k.begin(), k.end()), k, qlen);
  else { std::vector<std::string> t; for (auto &x : k) { t.push_back(x); t.push_back(x); } accepts(Samc<uint32_t>(t.begin(), t.end()), k, qlen); }
} SDS_END
// copies and moves answer alike
SDS_WITNESS(W_copies, "5,27,64,97,127;0-3")(uint64_t set, uint64_t how) {
  auto k = subset(set, 2, 2, 0);
  if (how == 0) { SamcDict<uint32_t> *d = new SamcDict<uint32_t>(k.begin(), k.end()); SamcDict<uint32_t> c(*d); delete d; onetoone(c, k); numbers(c, k, 2); }
  else if (how == 1) { SamcDict<uint32_t> *d = new SamcDict<uint32_t>(k.begin(), k.end()); SamcDict<uint32_t> c; c = *d; delete d; onetoone(c, k); numbers(c, k, 1); }
  else if (how == 2) { SamcDict<uint32_t> d(k.begin(), k.end()); SamcDict<uint32_t> c(std::move(d)); onetoone(c, k); numbers(c, k, 2); }
  else { Samc<uint32_t> d(k.begin(), k.end()); Samc<uint32_t> c; c = std::move(d); accepts(c, k, 2); }
} SDS_END
