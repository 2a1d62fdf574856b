// Space: the dynamic storage a structure holds stays within the bound its representation promises (with room for the doubling of a
// growing vector where elements are appended), and everything is given back when the structure is gone.
#include "zoo.h"
static const char *const kSpace = "the storage of the structure stays within its promised bound";
static const char *const kBack = "all storage is released with the structure";
static void within(uint64_t held, uint64_t bound) { sds_check(held <= bound, kSpace); }
// what is held may be twice what is needed: vectors grow by doubling
static void held(uint64_t before, uint64_t bound) { sds_check(sds_heap() - before <= 2 * bound + 64, kSpace); }
struct Rnd { uint64_t x; uint64_t operator()(uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; } };
// n bits take n/8 bytes, n integers of w bits n*w/8
SDS_WITNESS(W_space_bits, "0-3,63-65,500,511-513,4096,100000;0-6")(uint64_t n, uint64_t how) {
  uint64_t a = sds_heap(); {
    BitVector v; uint64_t m = n;
    if (how == 0) v = BitVector(n); else if (how == 1) v = BitVector(n, true); else if (how == 2) { v.resize(n, true); } else if (how == 3) { m = n < 3000 ? n : 3000; for (uint64_t i = 0; i < m; i++) v.push_back(i % 3); }
    else if (how == 4) { BitVector b(3 * n + 700, true); v = b; v.resize(n); v.shrink_to_fit(); } else if (how == 5) { v.assign(n, false); v.reserve(n); } else { BitVector b(n, true); v = b; b = BitVector(5); BitVector c(std::move(v)); v = std::move(c); }
    held(a, (how == 3 ? 2 : 1) * (m / 8) + 64 + (how == 6 ? 32 : 0)); within(v.size_in_bytes(), m / 8 + 64);
  }
  sds_check_eq(sds_heap(), a, kBack);
} SDS_END
SDS_WITNESS(W_space_fit, "0,1,7,33,63,64;0-3,63-65,1000,20000;0-4")(uint64_t w, uint64_t n, uint64_t how) {
  uint64_t a = sds_heap(); {
    FitVector v(w); uint64_t m = how == 2 || how == 3 || how == 1 ? (n < 1000 ? n : 1000) : n;
    if (how == 0) v = FitVector(w, n); else if (how == 1) v = FitVector(w, m, w ? 1 : 0); else if (how == 2) for (uint64_t i = 0; i < m; i++) v.push_back(0); else if (how == 3) { FitVector u(v); for (uint64_t i = 0; i < m; i++) u.push_back(0); v = u; } else { v.reserve(n); v.resize(n); }
    held(a, (how == 2 || how == 3 ? 3 : 1) * (m * w / 8) + 128); within(v.size_in_bytes(), m * w / 8 + 64);
    if (how == 3) { FitVector c(v); uint64_t b = sds_heap(); { FitVector d(v); held(b, m * w / 8 + 64); } }
  }
  sds_check_eq(sds_heap(), a, kBack);
} SDS_END
// integers of which the widest has b bits take b bits each
SDS_WITNESS(W_space_fit_of, "1-64;1,9,300")(uint64_t b, uint64_t n) {
  std::vector<uint64_t> s; for (uint64_t i = 0; i < n; i++) s.push_back(i == n / 2 ? 1ull << (b - 1) : b > 1 ? i % 2 : 0); FitVector v(s); sds_check_eq(v.unit_width(), b, "a sequence built from integers uses the width of the widest"); within(v.size_in_bytes(), n * b / 8 + 64);
} SDS_END
// rank and select add a quarter, plus four bytes per 512 ones
template <bool S> static void succinct(uint64_t n, uint64_t kind, uint64_t how) {
  uint64_t a = sds_heap(); {
    BitVector v(n, kind == 1); if (kind == 2) for (uint64_t i = 0; i < n; i += 7) v[i] = true; for (uint64_t i = 5; i < n; i += n / 5 + 1) v[i] = sds_bool();
    if (how == 0) { SuccinctBitVector<S> s(std::move(v)); held(a, n / 8 * 5 / 4 + (S ? n / 512 * 8 : 0) + 192); within(s.size_in_bytes(), n / 8 * 5 / 4 + (S ? n / 512 * 4 : 0) + 160); }
    else if (how == 1) { SuccinctBitVector<S> s(v); held(a, n / 8 * 9 / 4 + (S ? n / 512 * 8 : 0) + 256); SuccinctBitVector<S> t(std::move(s)); held(a, n / 8 * 9 / 4 + (S ? n / 512 * 8 : 0) + 320); }
    else { SuccinctBitVector<S> s(v), t; t = s; s = SuccinctBitVector<S>(BitVector(3)); v = BitVector(); v.shrink_to_fit(); held(a, n / 8 * 5 / 4 + (S ? n / 512 * 8 : 0) + n / 8 + 512); }
  }
  sds_check_eq(sds_heap(), a, kBack);
}
SDS_WITNESS(W_space_rank, "0,1,64,511-513,4000,30000;0-2;0-2;0,1")(uint64_t n, uint64_t kind, uint64_t how, uint64_t s) { if (s) succinct<true>(n, kind, how); else succinct<false>(n, kind, how); } SDS_END
// variable-length codes: what the layers and the paths between them need
static uint64_t dacBound(const std::vector<uint64_t> &s, const std::vector<uint64_t> &w) { // bytes
  uint64_t t = 160, at = 0; for (uint64_t l = 0; l < w.size(); l++) { uint64_t c = 0; for (auto x : s) c += l == 0 || x >> at; t += c * w[l] / 8 + 40; if (l + 1 < w.size()) t += c / 8 * 5 / 4 + 120; at += w[l]; } return t;
}
static std::vector<uint64_t> numbers(uint64_t n, uint64_t kind, uint64_t top) { Rnd r{kind * 77 + top}; std::vector<uint64_t> s; for (uint64_t i = 0; i < n; i++) s.push_back((kind == 0 ? r(4) : kind == 1 ? r(1ull << top) : kind == 2 ? r(1ull << (1 + r(top))) : kind == 3 ? (r(50) ? r(16) : r(1ull << top)) : (r(3) ? r(8) : (1ull << (top - 1)) + r(4))) & ((1ull << top) - 1)); s[n / 2] = (1ull << top) - 1; return s; }
SDS_WITNESS(W_space_dac, "40,600;0-4;4,7,20;0-5")(uint64_t n, uint64_t kind, uint64_t top, uint64_t split) {
  auto s = numbers(n, kind, top); std::vector<uint64_t> w; uint64_t left = top; while (left) { uint64_t x = split == 0 ? top : split == 1 ? 3 : split == 2 ? 8 : split == 3 ? 5 : split == 4 ? (w.empty() ? 2 : top) : (w.empty() ? top - 1 : 1); if (x > left) x = left; if (x == 0) x = 1; w.push_back(x); left -= x; } if (w.size() > 8) sds_stop();
  uint64_t a = sds_heap(); { DacVector d(s, w); within(d.size_in_bytes(), dacBound(s, w)); held(a, 2 * dacBound(s, w) + 200 * w.size() + 128); DacVector e(s); within(e.size_in_bytes(), dacBound(s, w) + 160 * e.num_layers()); sds_check(e.num_layers() <= 8, "the automatic choice uses at most the declared number of layers"); }
  sds_check_eq(sds_heap(), a, kBack);
} SDS_END
// the automatic widths cover the widest integer and are the cheapest of all ways to split it
static uint64_t cost(const std::vector<uint64_t> &cf, const std::vector<uint64_t> &w) { // bits, as the layers and paths are stored
  uint64_t t = 0, at = 0; for (uint64_t l = 0; l < w.size(); l++) { uint64_t c = cf[at]; t += c * w[l]; at += w[l]; if (at < cf.size()) t += c + c / 4; } return t;
}
SDS_WITNESS(W_splits, "60,700,3000;0-4;1-8")(uint64_t n, uint64_t kind, uint64_t top) {
  auto s = numbers(n, kind, top); std::vector<uint64_t> got, cf(top, 0); calc::split_positions_optimized_for_dac(s, &got); for (uint64_t b = 0; b < top; b++) for (auto x : s) cf[b] += b == 0 || x >> b;
  uint64_t sum = 0; for (auto x : got) { sds_check(x > 0, "every layer has a width"); sum += x; } sds_check_eq(sum, top, "the widths cover the widest integer exactly");
  uint64_t mine = cost(cf, got);
  for (uint64_t cut = 0; cut < 1ull << (top - 1); cut++) { std::vector<uint64_t> w; uint64_t from = 0; for (uint64_t b = 1; b <= top; b++) if (b == top || cut >> (b - 1) & 1) { w.push_back(b - from); from = b; } sds_check(mine <= cost(cf, w) + 200 * top, "the automatic widths are the cheapest"); }
} SDS_END
// a wavelet tree: a bit and a quarter per level and symbol
SDS_WITNESS(W_space_tree, "1,64,700,3000;1-8;0-2")(uint64_t n, uint64_t h, uint64_t kind) {
  Rnd r{n + kind}; std::vector<uint8_t> s; for (uint64_t i = 0; i < n; i++) s.push_back((uint8_t)(kind == 0 ? r(1u << h) : kind == 1 ? 1 : i >> 2 & ((1u << h) - 1))); s[n / 2] = (uint8_t)((1u << h) - 1);
  uint64_t a = sds_heap(); { WaveletTree t(s); uint64_t nodes = (1ull << h) - 1; within(t.size_in_bytes(), h * (n / 8) * 5 / 4 + nodes * 80 + 64); held(a, h * (n / 8) * 9 / 4 + nodes * 260 + 256); WaveletTree c(t), d; d = c; c = WaveletTree(); d = std::move(t); }
  sds_check_eq(sds_heap(), a, kBack);
} SDS_END
// symbols of u bits and their counters
template <unsigned U> static void symbols(uint64_t n, uint64_t kind) {
  uint64_t a = sds_heap(); { MultiBitVector<U> v; for (uint64_t i = 0; i < n; i++) v.set(i, kind == 0 ? i % (1u << U) : kind == 1 ? (1u << U) - 1 : i % 97 == 5); v.build(); uint64_t per = 64 / U * U; within(v.size_in_bytes(), n * U * 64 / per / 8 + (1ull << U) * (n / 200 + 2) * (8 + 4 * U + 8) + 200); held(a, 2 * (n * U * 64 / per / 8 + (1ull << U) * (n / 200 + 2) * (8 + 4 * U + 8)) + 300); }
  sds_check_eq(sds_heap(), a, kBack);
}
SDS_WITNESS(W_space_symbols, "1-3;1,255,256,1000,3000;0-2")(uint64_t u, uint64_t n, uint64_t kind) { if (u == 1) symbols<1>(n, kind); else if (u == 2) symbols<2>(n, kind); else symbols<3>(n, kind); } SDS_END
SDS_WITNESS(W_space_rows, "0,1,50,300;0-3;0,1")(uint64_t n, uint64_t shape, uint64_t how) {
  uint64_t a = sds_heap(); { std::vector<size_t> sizes = shape == 0 ? std::vector<size_t>{1, 2, 4} : shape == 1 ? std::vector<size_t>{8} : shape == 2 ? std::vector<size_t>{3, 1, 1, 5} : std::vector<size_t>{1}; MultipleVector v; v.set_element_sizes(sizes); uint64_t row = shape == 0 ? 7 : shape == 1 ? 8 : shape == 2 ? 10 : 1; if (how) for (uint64_t i = 0; i < n; i++) v.emplace_back(); else v.resize(n); held(a, (how ? 2 : 1) * row * n + 256); within(v.size_in_bytes(), row * n + 256); }
  sds_check_eq(sds_heap(), a, kBack);
} SDS_END
// the in-place array needs two words beside its elements; the other one index per element and one per written element
SDS_WITNESS(W_space_init, "0-3")(uint64_t k) {
  if (k == 0) { sds_check(sizeof(InitializableArray<uint64_t, 1000>) <= 1000 * 8 + 16, kSpace); sds_check(sizeof(InitializableArray<uint32_t, 1001>) <= 1002 * 4 + 16, kSpace); }
  else if (k == 1) { sds_check(sizeof(InitializableArray<uint8_t, 100>) <= 100 + 24, kSpace); sds_check(sizeof(InitializableArray<uint16_t, 5001>) <= 5002 * 2 + 24, kSpace); }
  else if (k == 2) { uint64_t a = sds_heap(); { InitializableArrayFolklore<uint64_t> f(100); for (uint64_t j = 0; j < 40; j++) { f.init(j); for (uint64_t i = 0; i < 100; i++) f.set(i * 7 % 100, i * j % 8); for (uint64_t i = 0; i < 100; i++) f.set(i, i); for (uint64_t i = 0; i < 30; i++) f.set(i * 3, i < 5 ? sds_bits(3) : i); if (j % 8 == 7) for (uint64_t i = 0; i < 1000; i++) f.set(i * 7 % 100, i); } held(a, 100 * 16 + 100 * 8 + 64); } sds_check_eq(sds_heap(), a, kBack); }
  else sds_check(sizeof(InitializableArray<bool, 2>) <= 32, kSpace);
} SDS_END
// the compact hash table: buckets in proportion to the largest number of keys, each with the part of the key its place does not tell
template <unsigned V, unsigned L> static void hashed(uint64_t n, uint64_t how, uint64_t kb) {
  uint64_t a = sds_heap(); {
    CHT<V, L> t(kb); uint64_t most = t.bucket(); auto seen = [&] { if (t.bucket() > most) most = t.bucket(); };
    for (uint64_t i = 0; i < n; i++) t.set(i * 3, sds_bits(1)), seen();
    if (how == 1) for (uint64_t j = 0; j < 3 * n; j++) t.set(j % n * 3, 1), seen(); // updates
    else if (how == 2) for (uint64_t j = 0; j < 4 * n; j++) { t.erase(j * 3); t.set((j + n) * 3 % (1ull << kb), 1); seen(); } // a moving window
    else if (how == 3) { for (uint64_t j = 0; j < n; j++) t.erase(j * 3); for (uint64_t j = 0; j < n; j++) t.erase(j * 3 + 1); }
    else if (how == 4) { t.reserve(n); t.reserve(n / 2); t.reserve(0); seen(); }
    within(most, n * 800 / L + 16); within(t.bucket(), most); held(a, most * (kb + 4 + V) / 8 + 128);
    CHT<V, L> c(t), d(kb); d = c; d = std::move(t); CHT<V, L> e(std::move(d)); (void)e;
  }
  sds_check_eq(sds_heap(), a, kBack);
}
SDS_WITNESS(W_space_hash, "1,7,30,100;0-4;0-2")(uint64_t n, uint64_t how, uint64_t l) { if (l == 0) hashed<8, 50>(n, how, 11); else if (l == 1) hashed<3, 90>(n, how, 20); else hashed<16, 25>(n, how, 12); } SDS_END
// the compact dynamic array: capacity in proportion to the size
SDS_WITNESS(W_space_dynamic, "1,5,20,60;0-3")(uint64_t n, uint64_t how) {
  uint64_t a = sds_heap(); {
    CDRWVector v; for (uint64_t i = 0; i < n; i++) v.push_back(i); sds_check(v.capacity() >= v.size() && v.capacity() <= 2 * n, "the capacity of a growing array stays in proportion to its size");
    if (how == 1) { while (v.size() > n / 5) { v.pop_back(); sds_check(v.capacity() <= 3 * v.size() + 3, "the capacity of a shrinking array stays in proportion to its size"); } } else if (how == 2) { v.shrink_to_fit(); sds_check_eq(v.capacity(), n, "shrinking fits the capacity to the size"); } else if (how == 3) { v.reserve(n / 2); sds_check(v.capacity() <= 2 * n, "the capacity of a growing array stays in proportion to its size"); v.resize(n + 1); sds_check(v.capacity() <= 2 * n + 2, "the capacity of a growing array stays in proportion to its size"); }
    CDRWVector c(v), d; d = std::move(c);
  }
  sds_check_eq(sds_heap(), a, kBack);
} SDS_END
// a text index: the text and two arrays of as many bits as a position needs; the oracle and the automaton: linear in the text
SDS_WITNESS(W_space_text, "1,20,100,300;0-2")(uint64_t n, uint64_t kind) {
  Rnd r{n}; std::string t; for (uint64_t i = 0; i < n; i++) t.push_back((char)(kind == 0 ? 'a' + r(3) : kind == 1 ? 'a' : r(256))); uint64_t lg = 1; while (n >> lg) lg++;
  uint64_t a = sds_heap(); { SuffixArray s(t); held(a, n + 1 + 4 * (n * lg / 8) + 400); FactorOracle o(t); } sds_check_eq(sds_heap(), a, kBack);
  { FactorOracle o(t); held(a, n + 4 * (n + 1) + 16 * n + 8 * 1024); } sds_check_eq(sds_heap(), a, kBack);
} SDS_END
SDS_WITNESS(W_space_heap, "0-3,20")(uint64_t n) { uint64_t a = sds_heap(); { std::vector<uint64_t> s(n, 5); uint64_t b = sds_heap(); Heap<true> h(s); held(b, 8 * n); for (uint64_t i = 0; i < n; i++) h.push(sds_bits(3)); held(b, 8 * 4 * n); } sds_check_eq(sds_heap(), a, kBack); } SDS_END
// whatever is done to a structure, everything it held is given back
template <class Z> static void back(uint64_t k, uint64_t j, uint64_t how) {
  uint64_t a = sds_heap(); {
    using C = typename Z::C; Z z; C *p = fresh(z, k, j); if (how == 0) z.change(*p);
    else if (how == 1) { C c(*p); z.change(c); *p = c; } else if (how == 2) { C c(std::move(*p)); *p = std::move(c); z.change(*p); } else if (how == 3) { Z y; C *q = fresh(y, 2 - k, j); std::swap(*p, *q); delete q; } else { C &self = *p; *p = self; }
    delete p;
  }
  sds_check_eq(sds_heap(), a, kBack);
}
#define BACK(Z) if (i++ == what) back<Z>(k, j, how);
SDS_WITNESS(W_released, "0-18;0-2;0,1;0-4")(uint64_t what, uint64_t k, uint64_t j, uint64_t how) { uint64_t i = 0; ZOO(BACK) } SDS_END
// also when an exception leaves through it
SDS_WITNESS(W_released_thrown, "0-4")(uint64_t k) {
  uint64_t a = sds_heap(); try { BitVector v(100, true); FitVector f(7, 30); DacVector d(std::vector<uint64_t>{1, 900}); if (k == 0) v.at(100); else if (k == 1) f.at(30); else if (k == 2) d.at(2); else if (k == 3) SuccinctBitVector<false>(v).select(0); else { CHT<8> t(9); t.set_value_width(8); } sds_fail("a request that cannot be served is refused"); } catch (...) {}
  sds_check_eq(sds_heap(), a, kBack);
} SDS_END
