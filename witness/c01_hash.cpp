// The compact hash table is a map. Keys and values are arbitrary; the order of insertions and erasures is listed.
#include "sds.h"
#include "sim_ds/CHT.hpp"
SDS_HEAP_LIMIT(262144)
using namespace sim_ds;
// a user's own bijection: the identity
struct Plain { explicit Plain(unsigned = 64) {} uint64_t hash(uint64_t x) const { return x; } uint64_t ihash(uint64_t x) const { return x; } };
// what a map holds: for every key of the declared width
template <unsigned K> struct Model {
  bool in[1u << K]; uint64_t v[1u << K]; uint64_t size = 0;
  Model() { for (unsigned x = 0; x < 1u << K; x++) { in[x] = false; v[x] = 0; } }
  void set(uint64_t k, uint64_t y) { bool was = false; for (unsigned x = 0; x < 1u << K; x++) { bool h = k == x; was |= h & in[x]; v[x] = h ? y : v[x]; in[x] |= h; } size += !was; }
  void erase(uint64_t k) { bool was = false; for (unsigned x = 0; x < 1u << K; x++) { bool h = k == x; was |= h & in[x]; in[x] &= !h; } size -= was; }
};
template <class T, unsigned K> static void same(const T &t, const Model<K> &m) {
  sds_check_eq(t.size(), m.size, "the size is the number of present keys");
  for (unsigned x = 0; x < 1u << K; x++) { auto r = t.get(x); sds_check(r.first == m.in[x], "a lookup tells whether the key is present"); if (m.in[x]) sds_check_eq(r.second, m.v[x], "a lookup gives the value last stored"); }
}
template <unsigned V, unsigned L, class H, unsigned K> static void script(uint64_t s, uint64_t len, uint64_t bucket) {
  CHT<V, L, H> t(K, bucket); Model<K> m;
  for (uint64_t i = 0; i < len; i++) {
    uint64_t k = sds_bits(K);
    if (s >> i & 1) { t.erase(k); m.erase(k); } else { uint64_t y = sds_bits(V > 2 ? 2 : V); t.set(k, y); m.set(k, y); }
  }
  same<CHT<V, L, H>, K>(t, m);
}
SDS_WITNESS(W_history, "1-4;0-15|1-5;0-31")(uint64_t len, uint64_t s) { if (s >> len) sds_stop(); script<2, 50, SplitMixHash, 4>(s, len, 8); } SDS_END
SDS_WITNESS(W_history5, "1-3;0-7;0,1|1-4;0-15;0,1")(uint64_t len, uint64_t s, uint64_t plain) { if (s >> len) sds_stop(); if (plain) script<2, 50, Plain, 5>(s, len, 8); else script<2, 50, SplitMixHash, 5>(s, len, 8); } SDS_END
// longer histories over a few keys whose homes lie close together
struct Few {
  uint64_t key[8]; bool in[8]; uint64_t v[8]; uint64_t n, size = 0;
  void set(uint64_t s, uint64_t y) { bool was = false; for (unsigned x = 0; x < n; x++) { bool h = s == x; was |= h & in[x]; v[x] = h ? y : v[x]; in[x] |= h; } size += !was; }
  void erase(uint64_t s) { bool was = false; for (unsigned x = 0; x < n; x++) { bool h = s == x; was |= h & in[x]; in[x] &= !h; } size -= was; }
};
static const uint8_t homes[6][4] = {{0, 0, 0, 0}, {0, 0, 1, 1}, {7, 7, 0, 1}, {3, 2, 1, 2}, {6, 7, 6, 0}, {5, 1, 4, 5}};
template <class H> static void keys(Few &m, const H &hash, uint64_t kb, uint64_t uni) {
  m.n = 4; uint64_t mask = kb == 64 ? ~0ull : (1ull << kb) - 1;
  for (unsigned x = 0; x < 4; x++) { uint64_t h = homes[uni][x] + (kb > 5 ? (x * 5 + 1) * 8 : x % 4 * 8); m.key[x] = hash.ihash(h & mask); m.in[x] = false; m.v[x] = 0; }
}
template <class T> static void agree(const T &t, const Few &m) {
  sds_check_eq(t.size(), m.size, "the size is the number of present keys");
  for (unsigned x = 0; x < m.n; x++) { auto r = t.get(m.key[x]); sds_check(r.first == m.in[x], "a lookup tells whether the key is present"); if (m.in[x]) sds_check_eq(r.second, m.v[x], "a lookup gives the value last stored"); }
}
template <class T> static void run(T &t, Few &m, uint64_t s, uint64_t from, uint64_t len, unsigned vb) {
  for (uint64_t i = from; i < len; i++) {
    uint64_t q = sds_bits(2); uint64_t k = q == 0 ? m.key[0] : q == 1 ? m.key[1] : q == 2 ? m.key[2] : m.key[3];
    if (s >> i & 1) { t.erase(k); m.erase(q); } else { uint64_t y = sds_bits(vb); t.set(k, y); m.set(q, y); }
  }
}
template <unsigned V, unsigned L, class H> static void few(uint64_t kb, uint64_t s, uint64_t len, uint64_t uni, uint64_t bucket) {
  Few m; keys(m, H(kb), kb, uni); CHT<V, L, H> t(kb, bucket); run(t, m, s, 0, len, 1); agree(t, m);
}
SDS_WITNESS(W_few, "4,5;0-31;0-5|4-6;0-63;0-5")(uint64_t len, uint64_t s, uint64_t uni) { if (s >> len) sds_stop(); few<4, 50, SplitMixHash>(7, s, len, uni, 8); } SDS_END
// other families of hash functions, load factors and initial sizes; value width chosen at run time
SDS_WITNESS(W_family, "1-4;0-15;0-3;0,2,4")(uint64_t len, uint64_t s, uint64_t f, uint64_t uni) {
  if (s >> len) sds_stop();
  if (f == 0) few<1, 50, Plain>(9, s, len, uni, 8); else if (f == 1) few<64, 50, SplitMixHash>(33, s, len, uni, 8); else if (f == 2) few<16, 50, SplitMixHash>(63, s, len, uni, 8); else few<3, 50, SplitMixHash>(64, s, len, uni, 2);
} SDS_END
SDS_WITNESS(W_load, "1-4;0-15;0-4;0,1,2,4;1,2,4,16")(uint64_t len, uint64_t s, uint64_t l, uint64_t uni, uint64_t bucket) {
  if (s >> len) sds_stop();
  if (l == 0) few<4, 90, SplitMixHash>(7, s, len, uni, bucket); else if (l == 1) few<4, 99, SplitMixHash>(7, s, len, uni, bucket); else if (l == 2) few<4, 25, SplitMixHash>(7, s, len, uni, bucket); else if (l == 3) few<4, 10, SplitMixHash>(7, s, len, uni, bucket); else few<4, 50, SplitMixHash>(7, s, len, uni, bucket);
} SDS_END
SDS_WITNESS(W_runtime_width, "1-4;0-15;0-2;1,2,7,64")(uint64_t len, uint64_t s, uint64_t uni, uint64_t w) {
  if (s >> len) sds_stop();
  Few m; keys(m, SplitMixHash(7), 7, uni); CHT<0> t(7, 4); t.set_value_width(w); run(t, m, s, 0, len, w > 2 ? 2 : w); agree(t, m);
} SDS_END
// growth to an explicit size keeps the contents
SDS_WITNESS(W_reserve, "0-3;0-7;0-2;0-5")(uint64_t len, uint64_t s, uint64_t uni, uint64_t r) {
  if (s >> len) sds_stop();
  static const uint16_t to[6] = {0, 1, 3, 8, 9, 40};
  Few m; keys(m, SplitMixHash(7), 7, uni); CHT<4> t(7); run(t, m, s, 0, len, 2); t.reserve(to[r]); agree(t, m); sds_check(t.bucket() >= m.size, "a table has room for its keys");
} SDS_END
// copies and moves hold the same map and are independent
SDS_WITNESS(W_copies, "2,3;0-7;0-2;0-3")(uint64_t len, uint64_t s, uint64_t uni, uint64_t how) {
  if (s >> len) sds_stop();
  Few m; keys(m, SplitMixHash(7), 7, uni); CHT<4> t(7); run(t, m, s, 0, len, 2); Few was = m;
  if (how == 0) { CHT<4> c(t); agree(c, m); run(t, m, 0, 0, 1, 2); agree(c, was); agree(t, m); }
  else if (how == 1) { CHT<4> c(7, 4); c.set(m.key[0], 1); c = t; agree(c, m); Few cm = m; run(c, cm, 1, 0, 1, 2); agree(c, cm); agree(t, m); }
  else if (how == 2) { CHT<4> c(std::move(t)); agree(c, m); run(c, m, 0, 0, 1, 2); agree(c, m); }
  else { CHT<4> c; c = std::move(t); agree(c, m); run(c, m, 0, 0, 1, 2); agree(c, m); }
} SDS_END
// many keys: the table grows by itself
SDS_WITNESS(W_grow, "3-20,33;0-3;0,1")(uint64_t n, uint64_t mul, uint64_t del) {
  CHT<8> t(9, 4); uint64_t v[64]; bool in[64]; uint64_t size = 0;
  for (uint64_t i = 0; i < n; i++) { v[i] = sds_bits(8); t.set((i * (2 * mul + 1) + mul * 37) & 511, v[i]); in[i] = true; size++; }
  if (del) for (uint64_t i = 0; i < n; i += 2) { t.erase((i * (2 * mul + 1) + mul * 37) & 511); in[i] = false; size--; }
  sds_check_eq(t.size(), size, "the size is the number of present keys");
  for (uint64_t i = 0; i < n; i++) { auto r = t.get((i * (2 * mul + 1) + mul * 37) & 511); sds_check(r.first == in[i], "a lookup tells whether the key is present"); if (in[i]) sds_check_eq(r.second, v[i], "a lookup gives the value last stored"); }
  uint64_t other = (n * (2 * mul + 1) + mul * 37) & 511; sds_check(!t.get(other).first, "a key never stored is absent");
} SDS_END
// long histories over many listed keys with unknown values: clusters, wrap-around, tombstones and several growths
template <unsigned V, unsigned L, class H> static void churn(uint64_t seed, uint64_t len, uint64_t kb, uint64_t range, uint64_t bucket) {
  CHT<V, L, H> t(kb, bucket); H hash(kb); uint64_t v[256], size = 0; bool in[256]; for (uint64_t i = 0; i < range; i++) { in[i] = false; v[i] = 0; }
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + 99; auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
  uint64_t mask = kb == 64 ? ~0ull : (1ull << kb) - 1, mul = kb > 12 ? 0x10001 * (2 * seed + 1) : 1; auto key = [&](uint64_t i) { return seed & 1 ? hash.ihash((i * mul + 5) & mask) : (i * mul * 7 + 3) & mask; };
  for (uint64_t i = 0; i < len; i++) {
    uint64_t k = rnd(range);
    if (rnd(8) < (seed / 2 % 3) + 2 && (i & 31) > 3) { t.erase(key(k)); size -= in[k]; in[k] = false; } else { v[k] = sds_bits(V > 8 ? 8 : V); t.set(key(k), v[k]); size += !in[k]; in[k] = true; }
    if ((i & 15) == 15 || i + 1 == len) { sds_check_eq(t.size(), size, "the size is the number of present keys"); for (uint64_t j = 0; j < range; j++) { auto r = t.get(key(j)); sds_check(r.first == in[j], "a lookup tells whether the key is present"); if (in[j]) sds_check_eq(r.second, v[j], "a lookup gives the value last stored"); } }
  }
}
SDS_WITNESS(W_churn, "0-11;0-4;60,150|0-59;0-4;60,150,400")(uint64_t seed, uint64_t kind, uint64_t len) {
  if (kind == 0) churn<8, 50, SplitMixHash>(seed, len, 6, 64, 8); else if (kind == 1) churn<8, 90, SplitMixHash>(seed, len, 8, 100, 16); else if (kind == 2) churn<16, 75, Plain>(seed, len, 40, 200, 32); else if (kind == 3) churn<64, 50, SplitMixHash>(seed, len, 64, 60, 1); else churn<1, 99, SplitMixHash>(seed, len, 5, 32, 32);
} SDS_END
