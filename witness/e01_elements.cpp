// Packed sequences: writing element i changes element i, to exactly the value written, and nothing else,
// for every contents, every size and every index (indices are  64*a + p  with a unknown).
#include "sds.h"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace sim_ds;
static const uint64_t kBig = 1ull << 32;

// ---- BitVector. kind of the second position: 0 same group of 64, 1 a later group, 2 an earlier group
SDS_WITNESS(W_bit, "0-63;0-63;0-2")(uint64_t p, uint64_t q, uint64_t kind) {
  uint64_t a = sds_int(kBig), e = sds_int(kBig), f = sds_int(kBig);
  uint64_t i = 64 * a + p, j = 64 * a + q;
  if (kind == 0) { if (p == q) sds_stop(); }
  if (kind == 1) j = 64 * (a + 1 + f) + q;
  if (kind == 2) { i = 64 * (a + 1 + f) + p; }
  uint64_t n = (i > j ? i : j) + 1 + e * 64;
  BitVector v(n); sds_havoc_sym();
  const BitVector &c = v;
  bool x = sds_bool(), y = v[j], z = v[i];
  sds_check(c[j] == y && c[i] == z, "const and non-const reads of a bit agree");
  v[i] = x;
  sds_check(v[i] == x, "a written bit reads back"); sds_check(c[i] == x, "a written bit reads back through a const view");
  sds_check(v[j] == y, "writing one bit leaves the other bits");
  v[i] = v[j]; sds_check(v[i] == y && v[j] == y, "assigning a bit from another copies it");
  *(v.begin() + i) = x; sds_check(c[i] == x && c[j] == y, "a bit written through an iterator reads back and stays isolated");
  sds_check(*(c.begin() + j) == y && v.begin()[j] == y && *(v.end() - (n - j)) == y, "iterators read the element at their position");
  v.at(j) = !y; sds_check(c.at(j) == !y && v.at(j) == !y && v[i] == x, "at() reads and writes the element at its index");
  sds_check(v.size() == n && c.size() == n && v.empty() == false, "element writes do not change the size");
} SDS_END
static void bitEnds(uint64_t n, bool two) {
  BitVector v(n); sds_havoc_sym(); const BitVector &c = v; bool x = sds_bool(), y = sds_bool();
  bool f = v[0], b = v[n - 1];
  sds_check(v.front() == f && c.front() == f && *v.begin() == f, "front is the first bit"); sds_check(v.back() == b && c.back() == b, "back is the last bit");
  v.back() = y; sds_check(v[n - 1] == y, "writing back writes the last bit"); if (two) sds_check(v[0] == f, "writing back leaves the first bit");
  v.front() = x; sds_check(v[0] == x, "writing front writes the first bit"); if (two) sds_check(c[n - 1] == y, "writing front leaves the last bit");
}
SDS_WITNESS(W_bit_ends, "0-63")(uint64_t p) { uint64_t a = sds_int(kBig); bitEnds(64 * (a + 1) + p + 1, true); bitEnds(p + 1, p > 0); } SDS_END

// ---- FitVector
template <class T> static uint64_t rd(const T &r) { return static_cast<uint64_t>(r); }
static uint64_t val(uint64_t w) { return w ? sds_bits(w) : 0; }
static void fitPair(uint64_t w, uint64_t i, uint64_t j, uint64_t n) {
  FitVector v(w, n); sds_havoc_sym();
  const FitVector &c = v;
  uint64_t x = val(w), y = rd(v[j]), u = rd(v[i]), z = val(w);
  sds_check_eq(rd(c[j]), y, "const and non-const reads of an element agree"); if (w < 64) sds_check(y >> w == 0 && u >> w == 0, "an element fits its width");
  v[i] = x;
  sds_check_eq(rd(v[i]), x, "a written element reads back"); sds_check_eq(rd(c[i]), x, "a written element reads back through a const view");
  sds_check_eq(rd(v[j]), y, "writing one element leaves the other elements");
  v[i] = v[j]; sds_check_eq(rd(c[i]), y, "assigning an element from another copies it"); sds_check_eq(rd(c[j]), y, "assigning an element from another keeps the source");
  v.at(j) = z; sds_check_eq(rd(c.at(j)), z, "at() writes the element at its index"); sds_check_eq(rd(v.at(i)), y, "at() leaves the other elements");
  sds_check(v.size() == n && c.size() == n && v.unit_width() == w, "element writes do not change size or width");
}
static uint64_t span(uint64_t w) { return w == 0 ? 2 : 64 / w + 1; }
SDS_WITNESS(W_fit_near, "0-64;0-63")(uint64_t w, uint64_t p) { // elements that can share a word
  uint64_t a = sds_int(kBig), e = sds_int(kBig), i = 64 * a + p;
  bool down = sds_bool(); uint64_t D = span(w); if (D > 3 && p % 8) D = 3;
  for (uint64_t d = 1; d <= D; d++) { if (down) { if (d <= p) fitPair(w, i, i - d, i + 1 + e * 64); } else fitPair(w, i, i + d, i + d + 1 + e * 64); }
} SDS_END
SDS_WITNESS(W_fit_far, "0-64;0-63;0-1|0-64;0-63;0-1")(uint64_t w, uint64_t p, uint64_t dir) {
  uint64_t a = sds_int(kBig), e = sds_int(kBig), f = sds_int(kBig);
  uint64_t q = (p * 5 + w) % 64, i = 64 * a + p, j = 64 * (a + 1 + f) + q;
  fitPair(w, dir ? j : i, dir ? i : j, j + 1 + e * 64);
} SDS_END
SDS_WITNESS(W_fit_iter, "1-64;0-63")(uint64_t w, uint64_t p) {
  uint64_t a = sds_int(kBig), e = sds_int(kBig), i = 64 * a + p, n = 64 * (a + e) + 64;
  FitVector v(w, n); sds_havoc_sym(); const FitVector &c = v;
  uint64_t x = val(w), y = rd(v[i]);
  sds_check_eq(rd(*(v.begin() + i)), y, "an iterator reads the element at its position"); sds_check_eq(rd(*(c.begin() + i)), y, "a const iterator reads the element at its position");
  sds_check_eq(rd(c.begin()[i]), y, "iterator indexing reads the element");
  sds_check_eq(rd(*(v.end() - (n - i))), y, "counting back from end() reads the element");
  *(v.begin() + i) = x; sds_check_eq(rd(c[i]), x, "an element written through an iterator reads back");
} SDS_END

static void fitEnds(uint64_t w, uint64_t n, bool two) {
  FitVector v(w, n); sds_havoc_sym(); const FitVector &c = v; uint64_t x = val(w), y = val(w);
  uint64_t f = rd(v[0]), b = rd(v[n - 1]);
  sds_check_eq(rd(v.front()), f, "front is the first element"); sds_check_eq(rd(c.front()), f, "front is the first element"); sds_check_eq(rd(*v.begin()), f, "begin is the first element");
  sds_check_eq(rd(v.back()), b, "back is the last element"); sds_check_eq(rd(c.back()), b, "back is the last element");
  v.back() = y; sds_check_eq(rd(v[n - 1]), y, "writing back writes the last element"); if (two) sds_check_eq(rd(v[0]), f, "writing back leaves the first element");
  v.front() = x; sds_check_eq(rd(v[0]), x, "writing front writes the first element"); if (two) sds_check_eq(rd(c[n - 1]), y, "writing front leaves the last element");
}
SDS_WITNESS(W_fit_ends, "1-64;0-63")(uint64_t w, uint64_t p) { uint64_t a = sds_int(kBig); fitEnds(w, 64 * (a + 3) + p + 1, true); if (p < 3) fitEnds(w, p + 1, p > 0); } SDS_END

// ---- MultipleVector: rows of integers of 1..8 bytes
template <int Id> static void mvRow(MultipleVector &v, const std::initializer_list<size_t> &sz, uint64_t i, uint64_t j) {
  const MultipleVector &c = v;
  const size_t *w = sz.begin(); uint64_t before[8], other[8]; size_t k = 0;
  for (size_t t = 0; t < sz.size(); t++) before[t] = v.block(i).get_at(t), other[t] = v.block(j).get_at(t);
  sds_check_eq(c.nested_element<Id>(i), before[Id], "nested_element reads the element"); sds_check_eq(c.block(i).template get<Id>(), before[Id], "a const block reads the element"); sds_check_eq(v.block(i).template get<Id>(), before[Id], "a block reads the element");
  uint64_t x = w[Id] ? sds_bits(8 * w[Id]) : 0, y = w[Id] ? sds_bits(8 * w[Id]) : 0;
  auto rest = [&](uint64_t want) {
    sds_check_eq(v.block(i).get_at(Id), want, "a written element reads back"); sds_check_eq(c.nested_element<Id>(i), want, "a written element reads back by nested_element");
    sds_check_eq(c.block(i).template get<Id>(), want, "a written element reads back by a const block");
    for (size_t t = 0; t < sz.size(); t++) { if (t != Id) sds_check_eq(v.block(i).get_at(t), before[t], "writing one element leaves the other elements of the row"); sds_check_eq(v.block(j).get_at(t), other[t], "writing one row leaves the other rows"); }
  };
  v.set_nested_element<Id>(i, x); rest(x);
  v.block(i).template set<Id>(y); rest(y);
  v.block(i).set_at(Id, x); rest(x);
  if (w[Id] <= 4) { v.block(i).set_at(Id, (uint32_t)y); rest(y); v.block(i).template restricted_set<Id, uint32_t>((uint32_t)x); rest(x); sds_check_eq((v.block(i).template restricted_get<Id, uint32_t>()), x, "restricted_get reads the element"); sds_check_eq((c.block(i).template restricted_get<Id, uint32_t>()), x, "restricted_get reads the element through a const block"); }
  if (w[Id] == 1) { v.block(i).set_at(Id, (uint8_t)y); rest(y); v.block(i).template restricted_set<Id, uint8_t>((uint8_t)x); rest(x); sds_check_eq((c.block(i).template restricted_get<Id, uint8_t>()), x, "restricted_get reads the element"); }
  (void)k;
}
template <int... Id> static void mvAll(MultipleVector &v, const std::initializer_list<size_t> &sz, uint64_t i, uint64_t j, std::integer_sequence<int, Id...>) { (mvRow<Id>(v, sz, i, j), ...); }
template <int N> static void mv(std::initializer_list<size_t> sz, uint64_t dir) {
  uint64_t a = sds_int(kBig), e = sds_int(kBig), f = sds_int(kBig);
  MultipleVector v(sz); uint64_t lo = a, hi = a + 1 + f; v.resize(hi + 1 + e); sds_havoc_sym();
  sds_check_eq(v.size(), hi + 1 + e, "size is the number of rows"); for (size_t t = 0; t < sz.size(); t++) sds_check_eq(v.element_size(t), sz.begin()[t], "element_size is the declared width");
  mvAll(v, sz, dir ? hi : lo, dir ? lo : hi, std::make_integer_sequence<int, N>());
  sds_check_eq(v.size(), hi + 1 + e, "element writes do not change the size");
}
SDS_WITNESS(W_rows, "0-9;0-1")(uint64_t k, uint64_t dir) {
  switch (k) {
    case 0: mv<1>({1}, dir); break; case 1: mv<1>({8}, dir); break; case 2: mv<2>({1, 8}, dir); break; case 3: mv<3>({4, 2, 1}, dir); break;
    case 4: mv<4>({3, 5, 7, 1}, dir); break; case 5: mv<2>({8, 8}, dir); break; case 6: mv<3>({6, 1, 8}, dir); break; case 7: mv<2>({2, 3}, dir); break;
    case 8: mv<5>({1, 1, 1, 1, 1}, dir); break; default: mv<2>({7, 4}, dir);
  }
} SDS_END

// ---- MultiBitVector
template <unsigned U> static void mb(uint64_t p, uint64_t q, uint64_t kind) {
  constexpr uint64_t per = 64 / U; if (p >= per || q >= per) sds_stop();
  uint64_t a = sds_int(kBig), e = sds_int(kBig), f = sds_int(kBig);
  uint64_t i = per * a + p, j = per * a + q; if (kind == 0 && p == q) sds_stop();
  if (kind == 1) j = per * (a + 1 + f) + q;
  if (kind == 2) i = per * (a + 1 + f) + p;
  MultiBitVector<U> v; v.resize(per * (a + 1 + f + e)); sds_havoc_sym();
  const MultiBitVector<U> &c = v;
  uint8_t y = c[j], x = (uint8_t)sds_bits(U);
  sds_check(y >> U == 0, "an element fits its width");
  v.set(i, x); sds_check_eq(c[i], x, "a written element reads back"); sds_check_eq(c[j], y, "writing one element leaves the other elements");
}
SDS_WITNESS(W_multibit1, "0-63;0-63;0-2")(uint64_t p, uint64_t q, uint64_t kind) { mb<1>(p, q, kind); } SDS_END
SDS_WITNESS(W_multibit2, "0-31;0-31;0-2")(uint64_t p, uint64_t q, uint64_t kind) { mb<2>(p, q, kind); } SDS_END
SDS_WITNESS(W_multibit3, "0-20;0-20;0-2")(uint64_t p, uint64_t q, uint64_t kind) { mb<3>(p, q, kind); } SDS_END
