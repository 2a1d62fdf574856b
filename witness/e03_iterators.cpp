// Random-access iterators behave like positions: for every size and every pair of positions.
#include "sds.h"
#include <vector>
#include "sim_ds/BitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
using namespace sim_ds;
static const uint64_t kBig = 1ull << 32;
template <class T> static uint64_t rd(const T &r) { return static_cast<uint64_t>(r); }
// b: begin of a sequence holding more than max(i,j) elements
template <class It> static void order(It b, uint64_t i, uint64_t j) {
  It x = b + i, y = b + j;
  sds_check_eq((uint64_t)(x - b), i, "the distance from begin() is the position"); sds_check_eq((uint64_t)(x - y), i - j, "the distance of two iterators is the difference of their positions"); sds_check_eq((uint64_t)(y - x), j - i, "the distance of two iterators is the difference of their positions");
  sds_check((x == y) == (i == j), "== compares positions"); sds_check((x != y) == (i != j), "!= compares positions"); sds_check((x < y) == (i < j), "< compares positions");
  sds_check((x > y) == (i > j), "> compares positions"); sds_check((x <= y) == (i <= j), "<= compares positions"); sds_check((x >= y) == (i >= j), ">= compares positions");
}
template <class It> static void moves(It b, uint64_t i, uint64_t j) {
  const It x = b + i, y = b + j; It t = y;
  sds_check(y + (i - j) == x, "adding the distance reaches the other position"); sds_check(y - (j - i) == x, "subtracting the distance reaches the other position");
  t += (long long)(i - j); sds_check(t == x, "+= moves by the distance"); t -= (long long)(i - j); sds_check(t == y, "-= moves back by the distance");
}
template <class It> static void steps(It b, uint64_t i) { // i + 1 <= size, i >= 1
  const It x = b + i, up = b + (i + 1), dn = b + (i - 1); It t = x;
  sds_check(&(++t) == &t && t == up, "++ moves one forward"); t = x; sds_check(&(--t) == &t && t == dn, "-- moves one back");
  t = x; It o = t++; sds_check(o == x && t == up, "post ++ returns the old position"); t = x; It q = t--; sds_check(q == x && t == dn, "post -- returns the old position");
}
SDS_WITNESS(W_bit_pair, "0-63;0-63;0-2")(uint64_t p, uint64_t q, uint64_t kind) {
  uint64_t a = sds_int(kBig), e = sds_int(kBig), f = sds_int(kBig), i = 64 * a + p, j = 64 * a + q;
  if (kind == 1) j = 64 * (a + 1 + f) + q;
  if (kind == 2) i = 64 * (a + 1 + f) + p;
  uint64_t n = (kind == 2 ? i : kind == 1 ? j : i > j ? i : j) + 2 + 64 * e;
  BitVector v(n); sds_havoc_sym(); const BitVector &c = v;
  order(v.begin(), i, j); moves(v.begin(), i, j); order(c.begin(), i, j); moves(c.begin(), i, j);
  sds_check((c.begin() + j)[i - j] == c[i], "indexing an iterator reads relative to its position"); sds_check((v.begin() + j)[i - j] == v[i], "indexing an iterator reads relative to its position");
  sds_check(v.end() - n == v.begin() && (uint64_t)(v.end() - v.begin()) == n && (uint64_t)(c.end() - c.begin()) == n, "the distance from begin() to end() is the size");
  BitVector::const_iterator k = v.begin() + i; sds_check(k == c.begin() + i, "an iterator converts to the const iterator of its position");
} SDS_END
SDS_WITNESS(W_bit_step, "0-63")(uint64_t p) {
  uint64_t a = sds_int(kBig), i = 64 * (a + (p == 0)) + p; BitVector v(i + 2); sds_havoc_sym(); const BitVector &c = v;
  steps(v.begin(), i); steps(c.begin(), i); sds_check(&v[i] == v.begin() + i, "the address of an element is its iterator"); sds_check(&c[i] == c.begin() + i, "the address of a const element is its iterator");
  sds_check(*(2 + (v.begin() + (i - 1)) - 1) == v[i], "offsets may be added from the left");
} SDS_END
SDS_WITNESS(W_fit_pair, "1-64;0-63;0-2")(uint64_t w, uint64_t p, uint64_t kind) {
  uint64_t a = sds_int(kBig), e = sds_int(kBig), f = sds_int(kBig);
  for (uint64_t q : {p ? p - 1 : 1, (p * 7 + w) % 64, p, 63 - p}) {
    uint64_t i = 64 * a + p, j = 64 * a + q; if (kind == 1) j = 64 * (a + 1 + f) + q; if (kind == 2) i = 64 * (a + 1 + f) + p;
    uint64_t n = (kind == 2 ? i : kind == 1 ? j : i > j ? i : j) + 2 + 64 * e;
    FitVector v(w, n); sds_havoc_sym(); const FitVector &c = v;
    order(v.begin(), i, j); moves(v.begin(), i, j); order(c.begin(), i, j); moves(c.begin(), i, j);
    sds_check_eq(rd((c.begin() + j)[i - j]), rd(c[i]), "indexing an iterator reads relative to its position"); sds_check_eq(rd((v.begin() + j)[i - j]), rd(v[i]), "indexing an iterator reads relative to its position");
    sds_check(v.end() - n == v.begin() && (uint64_t)(v.end() - v.begin()) == n && (uint64_t)(c.end() - c.begin()) == n, "the distance from begin() to end() is the size");
    FitVector::const_iterator k = v.begin() + i; sds_check(k == c.begin() + i, "an iterator converts to the const iterator of its position");
  }
} SDS_END
SDS_WITNESS(W_fit_step, "1-64;0-63")(uint64_t w, uint64_t p) {
  uint64_t a = sds_int(kBig), i = 64 * (a + (p == 0)) + p; FitVector v(w, i + 2); sds_havoc_sym(); const FitVector &c = v;
  steps(v.begin(), i); steps(c.begin(), i); sds_check(&v[i] == v.begin() + i, "the address of an element is its iterator"); sds_check(&c[i] == c.begin() + i, "the address of a const element is its iterator");
  sds_check_eq(rd(*(2 + (v.begin() + (i - 1)) - 1)), rd(v[i]), "offsets may be added from the left");
} SDS_END
SDS_WITNESS(W_dac_iter, "")() {
  std::vector<uint64_t> s{5, 1000, 0, 70000, 3, 9, 300}; const DacVector v(s);
  uint64_t k = 0; for (auto it = v.begin(); it != v.end() && k <= 7; ++it, ++k) if (k < 7) sds_check_eq(*it, s[k], "iteration visits the elements in order"); sds_check_eq(k, 7, "iteration visits every element once");
  for (uint64_t i = 0; i < 7; i++) for (uint64_t j = 0; j < 7; j++) {
    auto b = v.begin(), x = b + i, y = b + j;
    sds_check_eq((uint64_t)(x - y), i - j, "the distance of two iterators is the difference of their positions"); sds_check((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "iterators compare like positions");
    sds_check(y + (i - j) == x && y - (j - i) == x, "adding the distance reaches the other position"); sds_check_eq(y[i - j], s[i], "indexing an iterator reads relative to its position");
    auto t = y; t += (long long)(i - j); sds_check(t == x && *t == s[i], "+= moves by the distance"); t -= (long long)(i - j); sds_check(t == y, "-= moves back by the distance");
  }
} SDS_END
