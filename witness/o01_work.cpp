// Constant-time operations: the longest path through an operation on a container sixteen times as large is not longer.
#include "zoo.h"
#include <cstring>
#include "sim_ds/string_util/Samc.hpp"
static const char *const kConst = "the work of a constant-time operation grows with the size of the container";
static const char *const kLog = "the work of a logarithmic operation grows faster than the logarithm of the size";
template <class F> static uint64_t work(F f) { uint64_t a = sds_work(); f(); return sds_work() - a; }
static void flat(uint64_t small, uint64_t large) { sds_check(large <= 2 * small + 96, kConst); }
// make(n): a container with n elements; ask(c, n, q): operation number q
template <class Make, class Ask> static void constant(Make make, Ask ask, uint64_t n, uint64_t q) {
  auto small = make(n), large = make(16 * n); flat(work([&] { ask(small, n, q); }), work([&] { ask(large, 16 * n, q); }));
}
static uint64_t at(uint64_t n, uint64_t p) { return p == 0 ? 0 : p == 1 ? n / 2 : p == 2 ? n - 1 : n * 5 / 7; }
template <class C> static void use(C &c) { asm volatile("" : : "r"(&c) : "memory"); }
static BitVector bits(uint64_t n) { BitVector v(n); for (uint64_t i = 0; i < n / 64; i++) v.data()[i] = 0x8100420018003C01ull >> (i % 7); for (uint64_t i = 0; i < n; i += n / 16 + 1) v[i] = sds_bool(); return v; }
template <class It> static void step(It a, It b, uint64_t n, uint64_t q, uint64_t p) {
  uint64_t i = at(n, p);
  if (q == 0) { auto x = a + i; (void)(x == b); } else if (q == 1) { auto x = b - (n - i); (void)(x != a); } else if (q == 2) { a += i; (void)(a - b); } else if (q == 3) { b -= n - i; (void)(a < b); } else { auto x = a + i; (void)*x; }
}
SDS_WITNESS(W_work_bits, "256;0-12;0-3")(uint64_t n, uint64_t q, uint64_t p) {
  constant(bits, [&](BitVector &c, uint64_t n, uint64_t q) {
    const BitVector &k = c; uint64_t i = at(n, p);
    if (q < 5) step(k.begin(), k.end(), n, q, p); else if (q < 8) step(c.begin(), c.end(), n, q - 5, p);
    else if (q == 8) (void)(bool)k[i]; else if (q == 9) c[i] = true; else if (q == 10) { (void)(bool)k.at(i); c.at(i) = false; } else if (q == 11) { (void)k.size(); (void)k.empty(); (void)(bool)k.front(); (void)(bool)k.back(); c.front() = true; c.back() = true; } else { BitVector d(std::move(c)); c = std::move(d); std::swap(c, d); } }, n, q);
} SDS_END
template <bool S> static void rankWork(uint64_t n, uint64_t q, uint64_t p) {
  constant([](uint64_t n) { return SuccinctBitVector<S>(bits(n)); }, [&](SuccinctBitVector<S> &c, uint64_t n, uint64_t q) {
    uint64_t i = at(n, p); if (q == 0) (void)c.rank(i); else if (q == 1) (void)c.rank_0(i); else if (q == 2) (void)c[i]; else if (q == 3) (void)c.size(); else { SuccinctBitVector<S> d(std::move(c)); c = std::move(d); } }, n, q);
}
SDS_WITNESS(W_work_rank, "512;0-4;0-3;0-1|512,2048;0-4;0-3;0-1")(uint64_t n, uint64_t q, uint64_t p, uint64_t s) { if (s) rankWork<true>(n, q, p); else rankWork<false>(n, q, p); } SDS_END
SDS_WITNESS(W_work_fit, "64;0-12;0-3;1,7,33,64")(uint64_t n, uint64_t q, uint64_t p, uint64_t w) {
  constant([&](uint64_t n) { FitVector v(w, n); for (uint64_t i = 0; i < n; i += n / 8 + 1) v[i] = sds_bits(w); return v; }, [&](FitVector &c, uint64_t n, uint64_t q) {
    const FitVector &k = c; uint64_t i = at(n, p);
    if (q < 5) step(k.begin(), k.end(), n, q, p); else if (q < 8) step(c.begin(), c.end(), n, q - 5, p);
    else if (q == 8) (void)(uint64_t)k[i]; else if (q == 9) c[i] = 1; else if (q == 10) { (void)(uint64_t)k.at(i); c.at(i) = 0; } else if (q == 11) { (void)k.size(); (void)k.empty(); (void)k.unit_width(); (void)(uint64_t)k.front(); c.back() = 1; } else { FitVector d(std::move(c)); c = std::move(d); } }, n, q);
} SDS_END
SDS_WITNESS(W_work_rows, "16;0-4;0-3")(uint64_t n, uint64_t q, uint64_t p) {
  constant([&](uint64_t n) { MultipleVector v({3, 1}); v.resize(n); return v; }, [&](MultipleVector &c, uint64_t n, uint64_t q) {
    const MultipleVector &k = c; uint64_t i = at(n, p);
    if (q == 0) (void)k.block(i).template get<0>(); else if (q == 1) c.block(i).template set<1>(5); else if (q == 2) (void)k.size(); else if (q == 3) (void)c.block(i).get_at(1); else { MultipleVector d(std::move(c)); c = std::move(d); } }, n, q);
} SDS_END
SDS_WITNESS(W_work_symbols, "64;0-2;0-3")(uint64_t n, uint64_t q, uint64_t p) {
  constant([&](uint64_t n) { MultiBitVector<2> v; for (uint64_t i = 0; i < n; i++) v.set(i, i % (n / 4) == 3 ? sds_bits(1) + 1 : i * 7 % 3 + 1); v.build(); return v; }, [&](MultiBitVector<2> &c, uint64_t n, uint64_t q) {
    uint64_t i = at(n, p); if (q == 0) (void)c[i]; else if (q == 1) (void)c.rank(i); else { MultiBitVector<2> d(std::move(c)); c = std::move(d); } }, n, q);
} SDS_END
SDS_WITNESS(W_work_dac, "16;0-5;0-3")(uint64_t n, uint64_t q, uint64_t p) {
  constant([&](uint64_t n) { std::vector<uint64_t> s; for (uint64_t i = 0; i < n; i++) s.push_back((i % 4 == 1 ? 1 << 19 : 16) + (i % (n / 4) == 2 ? sds_bits(4) : i % 13)); return DacVector(s, std::vector<uint64_t>{6, 8, 8}); }, [&](DacVector &c, uint64_t n, uint64_t q) {
    uint64_t i = at(n, p); if (q == 0) (void)c[i]; else if (q == 1) (void)c.at(i); else if (q == 2) { (void)c.size(); (void)c.empty(); (void)c.front(); (void)c.back(); } else if (q == 3) { auto a = c.begin() + i; (void)*a; (void)(c.end() - a); } else if (q == 4) (void)c.depth(i); else { DacVector d(std::move(c)); c = std::move(d); } }, n, q);
} SDS_END
SDS_WITNESS(W_work_tree, "16;0-4;0-3")(uint64_t n, uint64_t q, uint64_t p) {
  constant([&](uint64_t n) { std::vector<uint8_t> s; for (uint64_t i = 0; i < n; i++) s.push_back((uint8_t)(i == 0 ? 7 : i % (n / 4) == 1 ? sds_bits(2) : i * 5 % 8)); return WaveletTree(s); }, [&](WaveletTree &c, uint64_t n, uint64_t q) {
    uint64_t i = at(n, p); if (q == 0) (void)c[i]; else if (q == 1) (void)c.rank(i); else if (q == 2) (void)c.rank(5, i); else if (q == 3) (void)c.AccessAndRank(i); else { WaveletTree d(std::move(c)); c = std::move(d); } }, n, q);
} SDS_END
// arrays with constant-time reset
template <class A> static uint64_t resetWork(A &a, uint64_t n, uint64_t q, uint64_t p) {
  uint64_t i = at(n, p); for (uint64_t k = 0; k < n; k += n / 8) a.set(k, 9); if (q & 1) a.init(4); if (q & 2) a.set(n - 1, 3);
  return work([&] { if (q < 4) a.init(7); else if (q < 8) (void)a.get(i); else a.set(i, 5); });
}
static void *storage(uint64_t n, uint64_t p) { static const unsigned char kFill[4] = {0, 0xFF, 0x11, 0x80}; void *r = ::operator new(n); std::memset(r, kFill[p % 4], n); return r; } // in-place arrays read what was there before
template <class T, uint64_t N> static void resets(uint64_t q, uint64_t p) { auto *a = new (storage(sizeof(InitializableArray<T, N>), p)) InitializableArray<T, N>(3); auto *b = new (storage(sizeof(InitializableArray<T, 16 * N>), p)) InitializableArray<T, 16 * N>(3); flat(resetWork(*a, N, q, p), resetWork(*b, 16 * N, q, p)); }
SDS_WITNESS(W_work_reset, "0-3;0-11;0-3")(uint64_t ty, uint64_t q, uint64_t p) {
  if (ty == 0) resets<uint32_t, 16>(q, p); else if (ty == 1) resets<uint8_t, 16>(q, p); else if (ty == 2) resets<uint64_t, 16>(q, p);
  else { InitializableArrayFolklore<uint32_t> a(uint64_t(16), uint32_t(3)), b(uint64_t(256), uint32_t(3)); flat(resetWork(a, 16, q, p), resetWork(b, 256, q, p)); }
} SDS_END
// construction of an in-place array does not touch its elements
SDS_WITNESS(W_work_fresh, "0-1;0-3")(uint64_t ty, uint64_t k) {
  auto go = [&](auto a, auto b) { using A = typename decltype(a)::type; using B = typename decltype(b)::type; void *p = storage(sizeof(A), k), *q = storage(sizeof(B), k); flat(work([&] { new (p) A(3); }), work([&] { new (q) B(3); })); };
  if (ty) go(std::common_type<InitializableArray<uint32_t, 16>>(), std::common_type<InitializableArray<uint32_t, 256>>()); else go(std::common_type<InitializableArray<uint8_t, 16>>(), std::common_type<InitializableArray<uint8_t, 256>>());
} SDS_END
// heaps: the front in constant, pushes and pops in logarithmic time
template <bool A> static void heapWork(uint64_t q, uint64_t x) {
  auto make = [](uint64_t n) { std::vector<uint64_t> v; for (uint64_t i = 0; i < n; i++) v.push_back(A ? 10 + i * 3 : 5000 - i * 3); return Heap<A>(v); };
  auto op = [&](Heap<A> &h) { return work([&] { if (q == 0) { (void)h.front(); (void)h.size(); } else if (q == 1) h.push(x == 0 ? 0 : x == 1 ? 9999 : sds_bits(12)); else { Heap<A> d(std::move(h)); h = std::move(d); } }); };
  auto a = make(16), b = make(1024); uint64_t s = op(a), l = op(b); if (q == 1) sds_check(l <= 3 * s + 192, kLog); else flat(s, l);
}
SDS_WITNESS(W_work_heap, "0-1;0-2;0-2")(uint64_t asc, uint64_t q, uint64_t x) { if (asc) heapWork<true>(q, x); else heapWork<false>(q, x); } SDS_END
template <bool A> static void popWork() { auto make = [](uint64_t n) { std::vector<uint64_t> v; for (uint64_t i = 0; i < n; i++) v.push_back(A ? 10 + i * 3 : 5000 - i * 3); return Heap<A>(v); }; auto a = make(16), b = make(1024); uint64_t s = work([&] { a.pop(); }), l = work([&] { b.pop(); }); sds_check(l <= 4 * s + 192, kLog); }
SDS_WITNESS(W_work_pop, "0-1")(uint64_t asc) { if (asc) popWork<true>(); else popWork<false>(); } SDS_END
// selection: logarithmic
SDS_WITNESS(W_work_select, "512,2048;0-3")(uint64_t n, uint64_t p) {
  auto make = [](uint64_t n) { BitVector v(n); for (uint64_t i = 0; i < n / 64; i++) v.data()[i] = 0x8100420018003C01ull; return SuccinctBitVector<true>(v); };
  auto a = make(n), b = make(16 * n); uint64_t ca = n / 64 * 11, cb = 16 * ca; ca = a.rank(n - 1); cb = b.rank(16 * n - 1); uint64_t s = work([&] { a.select(at(ca, p)); }), l = work([&] { b.select(at(cb, p)); }); sds_check(l <= 3 * s + 400, kLog);
} SDS_END
// dictionaries: the work of a query depends on its length, not on the number of keys
static std::vector<std::string> many(uint64_t n) { std::vector<std::string> r; for (uint64_t i = 0; i < n; i++) { std::string s; s.push_back((char)('A' + i / 8)); s.push_back((char)('a' + i % 8)); s.push_back('z'); r.push_back(s); } return r; }
SDS_WITNESS(W_work_words, "0-2;0-2")(uint64_t what, uint64_t p) {
  auto go = [&](auto make, auto ask) { auto k = many(4), m = many(40); auto a = make(k), b = make(m); flat(work([&] { ask(a, k[at(4, p)]); }), work([&] { ask(b, m[at(40, p)]); })); };
  if (what == 0) go([](auto &v) { return Samc<uint32_t>(v.begin(), v.end()); }, [](auto &d, std::string_view s) { d.accept(s); });
  else if (what == 1) go([](auto &v) { return SamcDict<uint32_t>(v.begin(), v.end()); }, [](auto &d, std::string_view s) { d.lookup(s); });
  else go([](auto &v) { return Samc<uint32_t>(v.begin(), v.end()); }, [](auto &d, std::string_view) { Samc<uint32_t> e(std::move(d)); d = std::move(e); });
} SDS_END
// lookups in the hash table and reads of the dynamic arrays: constant while the load stays the same
SDS_WITNESS(W_work_map, "0-3")(uint64_t q) {
  auto make = [](uint64_t n) { auto *c = new CHT<8>(12, 2 * n); for (uint64_t i = 0; i < n; i++) c->set(i * 29 % 4096, i); return c; };
  auto *a = make(8), *b = make(128); auto op = [&](CHT<8> *c, uint64_t n) { return work([&] { if (q == 0) (void)c->size(); else if (q == 1) (void)c->bucket(); else if (q == 2) { CHT<8> d(std::move(*c)); *c = std::move(d); } else (void)c->IsFilled(); }); };
  flat(op(a, 8), op(b, 128));
} SDS_END
