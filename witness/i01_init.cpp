// Initialisable arrays: after any writes and resets, a position holds what was last written since the last reset.
#include "sds.h"
#include <new>
#include <vector>
#include "sim_ds/InitializableArray.hpp"
using namespace sim_ds;
template <class T> static T val() { return (T)sds_bits(sizeof(T) * 8); }
// ---- separate tables: history = sets, reset, sets, reset to another value, set
template <class A, class T> struct Ref { // what an array with a reset would hold
  T v[16]; uint64_t n; void init(T x) { for (uint64_t i = 0; i < n; i++) v[i] = x; }
};
template <class A, class R> static void same(const A &a, const R &r, const char *) {
  for (uint64_t i = 0; i < r.n; i++) sds_check(a.get(i) == r.v[i], "a position holds what was last written since the last reset");
}
SDS_WITNESS(W_folklore, "4;0-3;0-3;0-3;0-3;0-3")(uint64_t n, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e) {
  using A = InitializableArrayFolklore<uint32_t>; uint32_t x = val<uint32_t>();
  A t(n, x); Ref<A, uint32_t> r{{}, n}; r.init(x); same(t, r, "");
  auto set = [&](uint64_t i) { uint32_t v = val<uint32_t>(); t.set(i, v); r.v[i] = v; same(t, r, ""); };
  auto init = [&](bool f) { uint32_t v = val<uint32_t>(); if (f) t.fill(v); else t.init(v); r.init(v); same(t, r, ""); };
  set(a); set(b); set(c); init(false); set(d); set(e); A u = t; set(a); init(true); set(e); set(c);
  t.init(); r.init(0); same(t, r, ""); sds_check_eq(t.size(), n, "the size stays"); (void)u;
} SDS_END
SDS_WITNESS(W_folklore_many, "1-12;0-4")(uint64_t n, uint64_t step) {
  using A = InitializableArrayFolklore<uint64_t>; A t(n); Ref<A, uint64_t> r{{}, n}; r.init(0);
  for (uint64_t round = 0; round < 3; round++) {
    for (uint64_t k = 0; k < n + 2; k++) { uint64_t i = (k * (step + 1) + step + round) % n; uint64_t v = sds_u64(); t.set(i, v); r.v[i] = v; if (k + 4 > n || k < 3) same(t, r, ""); }
    uint64_t v = sds_u64(); t.init(v); r.init(v); same(t, r, "");
  }
  A u = t; const A w = std::move(t); same(u, r, ""); same(w, r, ""); r.v[0] = sds_u64(); u.set(0, r.v[0]); same(u, r, "");
} SDS_END
SDS_WITNESS(W_folklore_from, "0-6")(uint64_t n) {
  std::vector<uint16_t> s; for (uint64_t i = 0; i < n; i++) s.push_back(val<uint16_t>());
  InitializableArrayFolklore<uint32_t> t(s.begin(), s.end()); sds_check_eq(t.size(), n, "the size is that of the range");
  for (uint64_t i = 0; i < n; i++) sds_check(t.get(i) == s[i], "an array from a range holds the elements of the range");
  t.init(7); for (uint64_t i = 0; i < n; i++) sds_check(t.get(i) == 7, "a reset resets every position");
} SDS_END
// ---- in place. The storage holds arbitrary contents before the object is created: that covers every earlier life of the memory
// (including everything before a reset).
template <class T, size_t N> struct InPlace {
  using A = InitializableArray<T, N>;
  alignas(A) unsigned char mem[sizeof(A)]; A *a; Ref<A, T> r;
  InPlace() { sds_havoc(mem, sizeof mem); T x = val<T>(); a = new (mem) A(x); r.n = N; r.init(x); check(); }
  void check() { const A &k = *a; for (uint64_t i = 0; i < N; i++) sds_check(k.get(i) == r.v[i], "a position holds what was last written since the last reset"); }
  void set(uint64_t i) { if (i >= N) return; T v = val<T>(); a->set(i, v); r.v[i] = v; check(); }
  void init() { T v = val<T>(); a->init(v); r.init(v); check(); }
};
template <class T, size_t N> static void hist(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { InPlace<T, N> p; p.set(a); p.set(b); p.set(c); p.set(d); sds_check_eq(p.a->size(), N, "the size stays"); }
SDS_WITNESS(W_inplace8, "0-7;0-7;0-7;0-7")(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { hist<uint8_t, 8>(a, b, c, d); } SDS_END
SDS_WITNESS(W_inplace_types, "0,3,5;0-4;0-4;0,2,4;1|0-5;0-4;0-4;0-4;0-4")(uint64_t ty, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  switch (ty) { case 0: hist<uint8_t, 5>(a, b, c, d); break; case 1: hist<uint16_t, 5>(a, b, c, d); break; case 2: hist<uint32_t, 5>(a, b, c, d); break; case 3: hist<int, 5>(a, b, c, d); break; case 4: hist<long, 5>(a, b, c, d); break; default: hist<unsigned long long, 5>(a, b, c, d); }
} SDS_END
template <class T, size_t N> static void longer(uint64_t s) { InPlace<T, N> p; for (uint64_t k = 0; k < N + 3; k++) p.set((k * k + k * (s % 7 + 1) + s) % N); p.init(); p.set(s % N); p.set((s / 2 + 3) % N); p.set(s * 5 % N); }
SDS_WITNESS(W_inplace_long, "0-6;0-23|0-6;0-99")(uint64_t sh, uint64_t s) {
  switch (sh) { case 0: longer<uint8_t, 1>(s); break; case 1: longer<uint8_t, 2>(s); break; case 2: longer<uint8_t, 3>(s); break; case 3: longer<uint8_t, 4>(s); break; case 4: longer<uint8_t, 6>(s); break; case 5: longer<uint16_t, 6>(s); break; default: longer<int8_t, 7>(s); }
} SDS_END
// the largest array each element width can index: positions at both ends, over memory that looks unchained, chained or wild
template <class T, size_t N> static void wide(uint64_t pat, uint64_t a, uint64_t b, uint64_t c) {
  using A = InitializableArray<T, N>; constexpr size_t M = N + N % 2; 
  alignas(16) static T mem[sizeof(A) / sizeof(T) + 1]; constexpr size_t K = sizeof(A) / sizeof(T);
  for (size_t i = 0; i < K; i++) { size_t j = i - (K - M); mem[i] = (T)(pat == 0 ? 0 : pat == 1 ? j : pat == 2 ? (j % 2 ? 77 : M - 2 - j) : pat == 3 ? (j % 2 ? j : (j ^ 4)) : i * 37 + 11); }
  T x = val<T>(); A *t = new (static_cast<void *>(mem)) A(x); uint64_t q[] = {0, 1, 2, 3, N / 2 - 1, N / 2, N - 3, N - 2, N - 1}; T v[9]; for (auto &e : v) e = x;
  uint64_t h[] = {a, b, c};
  for (uint64_t i : h) { T y = (T)sds_bits(N > 256 ? 9 : 8 * sizeof(T)); t->set(q[i], y); for (uint64_t k = 0; k < 9; k++) if (q[k] == q[i]) v[k] = y; for (uint64_t k = 0; k < 9; k++) sds_check(t->get(q[k]) == v[k], "a position holds what was last written since the last reset"); }
}
SDS_WITNESS(W_inplace_wide, "0-3;0-4;0,1,3,7,8;0,2,5,8;1,4,6,7")(uint64_t sh, uint64_t pat, uint64_t a, uint64_t b, uint64_t c) {
  switch (sh) { case 0: wide<uint8_t, 256>(pat, a, b, c); break; case 1: wide<uint8_t, 255>(pat, a, b, c); break; case 2: wide<int8_t, 127>(pat, a, b, c); break; default: wide<uint16_t, 300>(pat, a, b, c); }
} SDS_END
// element references and iterators say the same
template <class A, class P, class T> static void access(A *t, P &r, uint64_t i, uint64_t j, T y, T z) {
  (*t)[i] = y; r.v[i] = y; const A &k = *t;
  for (uint64_t n = 0; n < r.n; n++) { sds_check((T)k[n] == r.v[n], "indexing a constant array gives the element"); sds_check((T)(*t)[n] == r.v[n], "indexing gives the element"); }
  *(t->begin() + j) = z; r.v[j] = z;
  uint64_t n = 0; for (auto it = t->begin(); it != t->end(); ++it, n++) { if (n >= r.n) sds_fail("traversal stops at the end"); sds_check((T)*it == r.v[n], "traversal visits the elements in order"); } sds_check_eq(n, r.n, "traversal visits every element");
  n = 0; for (T e : k) { if (n >= r.n) sds_fail("traversal stops at the end"); sds_check(e == r.v[n], "constant traversal visits the elements in order"); n++; } sds_check_eq(n, r.n, "constant traversal visits every element");
  auto it = k.cend(); for (n = r.n; n-- > 0;) { auto old = it--; sds_check(old - it == 1, "stepping back moves one position"); sds_check((T)*it == r.v[n], "stepping back visits the elements in reverse"); } sds_check(it == k.cbegin(), "stepping back reaches the beginning");
  auto at = t->end(); at -= (long)(r.n - i); sds_check((T)*at == r.v[i], "an iterator moved by a distance denotes that position"); at += 0; sds_check(at - t->begin() == (long)i, "the distance of iterators is that of their positions"); sds_check((T)*(at - (long)i) == r.v[0], "an iterator moved by a distance denotes that position");
}
SDS_WITNESS(W_inplace_access, "0-2;0-6;0-6")(uint64_t ty, uint64_t i, uint64_t j) {
  auto go = [&](auto tag) { using T = decltype(tag); using A = InitializableArray<T, 7>; struct { T v[8]; uint64_t n; } r; alignas(A) unsigned char mem[sizeof(A)]; sds_havoc(mem, sizeof mem); T x = val<T>(); A *t = new (mem) A(x); r.n = 7; for (auto &e : r.v) e = x;
    access(t, r, i, j, val<T>(), val<T>()); access(t, r, j, (i + 3) % 7, val<T>(), val<T>()); T w = val<T>(); t->fill(w); for (uint64_t k = 0; k < 7; k++) sds_check((T)(*t)[k] == w, "fill resets every position"); A c = *t; T q = val<T>(); c[i] = q; sds_check((T)(*t)[i] == w && (T)c[i] == q, "copies are independent"); };
  if (ty == 0) go(uint8_t()); else if (ty == 1) go(int()); else go(uint64_t());
} SDS_END
// long histories with resets; values are taken from those that could pass for links
template <class T, size_t N> static void churn(uint64_t seed, uint64_t len) {
  using A = InitializableArray<T, N>; alignas(A) unsigned char mem[sizeof(A)]; uint64_t x = seed * 0x9E3779B97F4A7C15ull + N; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  for (size_t i = 0; i < sizeof mem; i++) mem[i] = i % sizeof(T) ? 0 : (unsigned char)rnd(N + 2);
  T v[N], y = (T)rnd(N + 2); A *t = new (mem) A(y); for (auto &e : v) e = y;
  for (uint64_t i = 0; i < len; i++) {
    if (!rnd(12)) { y = (T)rnd(N + 2); t->init(y); for (auto &e : v) e = y; } else { uint64_t p = rnd(N); y = rnd(5) ? (T)rnd(N + 2) : (T)sds_bits(8); t->set(p, y); v[p] = y; }
    if (i % 4 == 3 || i + 1 == len) for (uint64_t k = 0; k < N; k++) sds_check(t->get(k) == v[k], "a position holds what was last written since the last reset");
  }
}
SDS_WITNESS(W_churn, "0-39;0-3;60|0-399;0-3;60,300")(uint64_t seed, uint64_t sh, uint64_t len) { switch (sh) { case 0: churn<uint64_t, 12>(seed, len); break; case 1: churn<uint8_t, 9>(seed, len); break; case 2: churn<uint16_t, 31>(seed, len); break; default: churn<int32_t, 16>(seed, len); } } SDS_END
SDS_WITNESS(W_folklore_churn, "0-9;1,2,13,40|0-99;1,2,13,40,100")(uint64_t seed, uint64_t n) {
  using A = InitializableArrayFolklore<uint32_t>; uint64_t x = seed * 0x9E3779B97F4A7C15ull + n; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  std::vector<uint32_t> v(n, 0); A t(n);
  for (uint64_t i = 0; i < 100; i++) { if (!rnd(9)) { uint32_t y = (uint32_t)sds_bits(32); if (rnd(2)) t.init(y); else t.fill(y); for (auto &e : v) e = y; } else { uint64_t p = rnd(n); uint32_t y = (uint32_t)sds_bits(32); t.set(p, y); v[p] = y; } if (i % 4 == 3) for (uint64_t k = 0; k < n; k++) sds_check(t.get(k) == v[k], "a position holds what was last written since the last reset"); }
} SDS_END
