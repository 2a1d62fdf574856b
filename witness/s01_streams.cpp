// Serialisation: what is written is what is read back, into any object, consuming exactly the bytes written.
#include "sds.h"
#include <array>
#include <string>
#include <vector>
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/WaveletTree.hpp"
using namespace sim_ds;
struct S {
  void *p = sds_stream();
  std::ostream &os() { return *reinterpret_cast<std::ostream *>(p); }
  std::istream &is() { return *reinterpret_cast<std::istream *>(p); }
  uint64_t left() { return sds_stream_left(p); }
};
static const uint64_t kMark = 0x5D5D123456789ABCull;
// the container is written between two marks: reading must stop exactly at the second one
template <class T, class W, class R> static void between(const T &x, W write, R read) {
  S s; write_val(kMark, s.os()); write(x, s.os()); write_val(~kMark, s.os()); write(x, s.os());
  sds_check(read_val<uint64_t>(s.is()) == kMark, "the bytes before a container stay");
  read(s.is()); sds_check(read_val<uint64_t>(s.is()) == ~kMark, "reading a container consumes exactly the bytes written for it");
  read(s.is()); sds_check_eq(s.left(), 0, "reading a container consumes all bytes written for it");
}
// ---- bits. state of the reading object: 0 fresh, 1 smaller, 2 larger with other contents, 3 cleared after use, 4 equal size
static BitVector dirtyBits(uint64_t state, uint64_t n) {
  BitVector r; if (state == 1) { r.resize(n / 2 + 1, true); } if (state == 2) { r.resize(n + 70, true); r[0] = sds_bool(); } if (state == 3) { r.resize(n + 1, true); r.resize(0); } if (state == 4) r.resize(n, true); return r;
}
static BitVector bits(uint64_t n) { BitVector v(n); for (uint64_t i = 0; i < n; i++) if (i < 3 || i + 3 > n || i % 16 == 0 || i % 64 == 63) v[i] = sds_bool(); else v[i] = i * 7 % 3 == 1; return v; }
template <class A, class B> static void sameBits(const A &a, const B &b) { sds_check_eq(a.size(), b.size(), "the size is restored"); for (uint64_t i = 0; i < b.size(); i++) sds_check(a[i] == b[i], "the bits are restored"); }
SDS_WITNESS(W_bits_io, "0-3,31,62-66,127-129,255-257;0-4")(uint64_t n, uint64_t state) {
  BitVector v = bits(n); if (state == 3 && n > 1) { v.resize(n - 1); } // written object with bits left over from a shrink
  between(v, [](const BitVector &x, std::ostream &os) { x.Write(os); }, [&](std::istream &is) {
    BitVector r = dirtyBits(state, n); r.Read(is); sameBits(r, v);
    r.push_back(true); r.push_back(false); sds_check_eq(r.size(), v.size() + 2, "a restored bit sequence can grow"); sds_check(r[v.size()] && !r[v.size() + 1], "a restored bit sequence stores what is added");
    uint64_t n2 = v.size() + 70; r.resize(n2); for (uint64_t i = v.size() + 2; i < n2; i++) sds_check(!r[i], "bits added to a restored sequence are zero");
    for (uint64_t i = 0; i < v.size(); i++) sds_check(r[i] == v[i], "growing a restored sequence keeps its bits"); });
} SDS_END
SDS_WITNESS(W_succinct_io, "0-2,63-65,511-513,1030;0-2;0-1")(uint64_t n, uint64_t state, uint64_t sel) {
  BitVector b = bits(n);
  auto go = [&](auto tag) {
    using T = decltype(tag); const T v(b);
    between(v, [](const T &x, std::ostream &os) { x.Write(os); }, [&](std::istream &is) {
      T r = state == 0 ? T() : T(dirtyBits(state, n)); r.Read(is); sameBits(r, b);
      for (uint64_t i = 0; i <= n; i += i + 2 < n && n > 80 ? 31 : 1) { sds_check_eq(r.rank(i), v.rank(i), "rank answers are restored"); sds_check_eq(r.rank_0(i), i - v.rank_1(i), "zero ranks are restored"); }
      sds_check_eq(r.num_blocks(), v.num_blocks(), "the dictionary is restored");
      if constexpr (std::is_same_v<T, SuccinctBitVector<true>>) { uint64_t p[] = {0, n / 2, n - 1}; for (uint64_t q : p) if (n > 0 && b[q]) sds_check_eq(r.select(r.rank(q)), q, "select answers are restored"); } });
    S s; v.Write(s.os()); T c(s.is()); sameBits(c, b); sds_check_eq(s.left(), 0, "constructing from a stream consumes exactly the bytes written"); if (n) sds_check_eq(c.rank(n - 1), v.rank(n - 1), "rank answers are restored");
  };
  if (sel) go(SuccinctBitVector<true>()); else go(SuccinctBitVector<false>());
} SDS_END
// ---- packed integers
template <class T> static uint64_t rd(const T &r) { return static_cast<uint64_t>(r); }
static FitVector fit(uint64_t w, uint64_t n) { FitVector v(w, n); for (uint64_t i = 0; i < n; i++) v[i] = w ? sds_bits(w) : 0; return v; }
SDS_WITNESS(W_fit_io, "0-64;0-3,63-65;0-4")(uint64_t w, uint64_t n, uint64_t state) {
  if (n > 3 && w > 9 && w % 8 > 1) sds_stop();
  FitVector v = fit(w, n); if (state == 3 && n > 1) v.resize(n - 1); const FitVector &k = v;
  between(v, [](const FitVector &x, std::ostream &os) { x.Write(os); }, [&](std::istream &is) {
    FitVector r = state == 0 ? FitVector() : state == 1 ? FitVector(7, 3, 5) : state == 2 ? FitVector(w, n + 9, 1) : state == 3 ? FitVector(64, 1) : FitVector(w, n);
    r = FitVector(is);
    sds_check_eq(r.size(), v.size(), "the size is restored"); sds_check_eq(r.unit_width(), w, "the width is restored");
    for (uint64_t i = 0; i < v.size(); i++) sds_check_eq(rd(r[i]), rd(k[i]), "the elements are restored");
    uint64_t x = w ? sds_bits(w) : 0; r.push_back(x); sds_check_eq(rd(r[v.size()]), x, "a restored sequence can grow"); for (uint64_t i = 0; i < v.size(); i++) sds_check_eq(rd(r[i]), rd(k[i]), "growing a restored sequence keeps its elements"); });
} SDS_END
// ---- records
SDS_WITNESS(W_rows_io, "0-4;0-3;0-3")(uint64_t n, uint64_t shape, uint64_t state) {
  auto make = [](uint64_t sh) { return sh == 0 ? MultipleVector({1, 2, 4}) : sh == 1 ? MultipleVector({8}) : sh == 2 ? MultipleVector({3, 1, 1, 5}) : MultipleVector({1, 1}); };
  MultipleVector v = make(shape);
  auto width = [&](uint64_t id) { return v.element_size(id) * 8; };
  uint64_t cols = shape == 0 ? 3 : shape == 1 ? 1 : shape == 2 ? 4 : 2;
  for (uint64_t i = 0; i < n; i++) { v.emplace_back(); auto b = v.block(i); for (uint64_t c = 0; c < cols; c++) b.set_at(c, sds_bits(width(c))); }
  between(v, [](const MultipleVector &x, std::ostream &os) { x.StoreTo(os); }, [&](std::istream &is) {
    MultipleVector r = state == 0 ? MultipleVector() : make(state == 1 ? shape : (shape + state) % 4); if (state) { r.resize(state == 3 ? n + 5 : 1); }
    r.LoadFrom(is);
    sds_check_eq(r.size(), n, "the number of records is restored"); sds_check_eq(r.block_size(), v.block_size(), "the record size is restored");
    for (uint64_t c = 0; c < cols; c++) sds_check_eq(r.element_size(c), v.element_size(c), "the field sizes are restored");
    for (uint64_t i = 0; i < n; i++) { auto a = v.block(i), b = r.block(i); for (uint64_t c = 0; c < cols; c++) sds_check_eq(b.get_at(c), a.get_at(c), "the fields are restored"); } });
} SDS_END
// ---- symbols
template <unsigned W> static void symIO(uint64_t n, uint64_t state) {
  MultiBitVector<W> v; for (uint64_t i = 0; i < n; i++) v.set(i, i % 5 == 1 ? (1u << W) - 1 : (i < 20 ? i % 9 == 0 : i % 91 == 0) || i + 2 > n ? sds_bits(W) : i & ((1u << W) - 1)); if (n) v.build();
  between(v, [](const MultiBitVector<W> &x, std::ostream &os) { x.Write(os); }, [&](std::istream &is) {
    MultiBitVector<W> r; if (state) { for (uint64_t i = 0; i < (state == 1 ? 3 : n + 300); i++) r.set(i, state == 1 ? (i == 2) : (1u << W) - 1 - (i & 1)); if (state != 3) r.build(); }
    r.Read(is);
    for (uint64_t i = 0; i < n; i++) { sds_check(r[i] == v[i], "the symbols are restored"); if (i % 13 == 0 || i + 3 > n) if (v[i] != 0) sds_check_eq(r.rank(i), v.rank(i), "rank answers are restored"); } });
}
SDS_WITNESS(W_symbols_io, "1-3;0-3,20,21,22,31-33,64,65,300;0-3")(uint64_t w, uint64_t n, uint64_t state) { if (w == 1) symIO<1>(n, state); else if (w == 2) symIO<2>(n, state); else symIO<3>(n, state); } SDS_END
// ---- variable-length codes
static uint64_t ofLength(uint64_t len) { return len == 0 ? 0 : (1ull << (len - 1)) | (len > 1 ? sds_bits(len - 1) : 0); }
SDS_WITNESS(W_dac_io, "0-4,9,70;0-5;0-3")(uint64_t n, uint64_t shape, uint64_t state) {
  std::vector<uint64_t> s; for (uint64_t i = 0; i < n; i++) s.push_back(ofLength(shape == 0 ? 64 - i % 60 : shape == 1 ? 1 + i % 3 : shape == 2 ? (i % 4 == 3 ? 40 : 5) : shape == 3 ? i % 2 * 64 : shape == 4 ? 8 : 0));
  const DacVector v = shape == 1 ? DacVector(s, std::vector<int>{1, 1, 1}) : DacVector(s);
  between(v, [](const DacVector &x, std::ostream &os) { x.Write(os); }, [&](std::istream &is) {
    DacVector r = state == 0 ? DacVector() : state == 1 ? DacVector(std::vector<int>{1, 2, 3}, std::vector<int>{1, 1}) : state == 2 ? DacVector(std::vector<uint64_t>(n + 3, ~0ull), std::vector<int>{8, 8, 8, 40}) : DacVector(std::vector<int>{7});
    r.Read(is); sds_check_eq(r.size(), n, "the number of integers is restored"); sds_check_eq(r.num_layers(), v.num_layers(), "the layers are restored");
    for (uint64_t i = 0; i < n; i++) sds_check_eq(r[i], s[i], "the integers are restored"); });
  S t; v.Write(t.os()); const DacVector c(t.is()); sds_check_eq(c.size(), n, "the number of integers is restored"); for (uint64_t i = 0; i < n; i++) sds_check_eq(c[i], s[i], "the integers are restored"); sds_check_eq(t.left(), 0, "constructing from a stream consumes exactly the bytes written");
} SDS_END
// ---- wavelet trees
SDS_WITNESS(W_tree_io, "0-4,70;1-4,8;0-3")(uint64_t n, uint64_t h, uint64_t state) {
  std::vector<uint8_t> s; for (uint64_t i = 0; i < n; i++) s.push_back((uint8_t)(i == 0 ? 1u << (h - 1) : i < 4 ? (sds_bits(1) << (i % h)) : i * 37 & ((1u << h) - 1)));
  const WaveletTree v(s);
  between(v, [](const WaveletTree &x, std::ostream &os) { x.Write(os); }, [&](std::istream &is) {
    WaveletTree r; if (state == 1) r = WaveletTree(std::vector<uint8_t>{1}); if (state == 2) r = WaveletTree(std::vector<uint8_t>(n + 3, 200)); if (state == 3) r = WaveletTree(std::vector<uint8_t>{5, 2, 7, 1});
    r.Read(is); sds_check_eq(r.size(), v.size(), "the length is restored"); sds_check_eq(r.size(), n, "the length is restored");
    for (uint64_t i = 0; i < n; i += i > 5 ? 9 : 1) { sds_check_eq(r[i], s[i], "the symbols are restored"); sds_check_eq(r.rank(i), v.rank(i), "ranks of positions are restored"); sds_check_eq(r.rank(1, i), v.rank(1, i), "ranks of symbols are restored"); } });
} SDS_END
// ---- helpers
SDS_WITNESS(W_helpers_io, "0-5,100;0-2")(uint64_t n, uint64_t state) {
  { std::vector<uint16_t> v; for (uint64_t i = 0; i < n; i++) v.push_back((uint16_t)sds_bits(16));
    between(v, [](const std::vector<uint16_t> &x, std::ostream &os) { write_vec(x, os); }, [&](std::istream &is) { std::vector<uint16_t> r(state == 0 ? 0 : state == 1 ? n + 3 : n / 2, 9); read_vec(is, r); sds_check_eq(r.size(), n, "vector size"); for (uint64_t i = 0; i < n; i++) sds_check_eq(r[i], v[i], "vector elements"); }); }
  { std::string v; for (uint64_t i = 0; i < n; i++) v.push_back((char)sds_bits(8));
    between(v, [](const std::string &x, std::ostream &os) { write_string(x, os); }, [&](std::istream &is) { std::string r = read_string(is); sds_check_eq(r.size(), n, "string size"); for (uint64_t i = 0; i < n; i++) sds_check(r[i] == v[i], "string characters"); }); }
  { std::vector<std::array<uint32_t, 3>> v; for (uint64_t i = 0; i < n; i++) v.push_back({(uint32_t)sds_bits(32), 7, (uint32_t)i});
    between(v, [](const auto &x, std::ostream &os) { write_vec(x, os); }, [&](std::istream &is) { std::vector<std::array<uint32_t, 3>> r; read_vec(is, r); sds_check_eq(r.size(), n, "vector size"); for (uint64_t i = 0; i < n; i++) sds_check(r[i] == v[i], "vector elements"); }); }
} SDS_END
