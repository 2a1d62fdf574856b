// Whole-sequence operations: construction, fill, resize, assign, push_back, reserve, shrink, copies.
// Element contents are unknown; sizes are enumerated around every word boundary.
#include "sds.h"
#include <vector>
#include <list>
#include "sim_ds/BitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace sim_ds;
template <class T> static uint64_t rd(const T &r) { return static_cast<uint64_t>(r); }
static uint64_t val(uint64_t w) { return w ? sds_bits(w) : 0; }

// ---- BitVector
struct Bits { bool b[400]; uint64_t n; };
static void same(const BitVector &v, const Bits &m, const char *msg) { sds_check_eq(v.size(), m.n, "size of a bit vector"); sds_check(v.empty() == (m.n == 0), "empty() means size 0"); for (uint64_t i = 0; i < m.n; i++) sds_check(v[i] == m.b[i], msg); }
static void arbitrary(BitVector &v, Bits &m) { for (uint64_t i = 0; i < m.n; i++) { m.b[i] = sds_bool(); v[i] = m.b[i]; } }
static void grow(Bits &m, uint64_t n, bool b) { for (uint64_t i = m.n; i < n; i++) m.b[i] = b; m.n = n; }
SDS_WITNESS(W_bit_ctor, "0-200,254-258,319-321")(uint64_t n) {
  Bits m; m.n = 0; grow(m, n, false); BitVector v(n); same(v, m, "a new bit vector is all zero");
  bool x = sds_bool(); for (uint64_t i = 0; i < n; i++) m.b[i] = x; BitVector u(n, x); same(u, m, "a bit vector built from one bit repeats it");
  arbitrary(u, m); BitVector c(u); same(c, m, "a copy has the same bits"); BitVector d; d = c; same(d, m, "an assigned copy has the same bits"); BitVector e(std::move(c)); same(e, m, "a moved bit vector has the same bits");
  if (n) { e[n / 2] = !m.b[n / 2]; sds_check(u[n / 2] == m.b[n / 2], "a copy does not share storage"); }
  uint64_t k = 0; for (auto it = u.begin(); it != u.end(); ++it, ++k) if (k < n) sds_check(*it == m.b[k], "iteration visits the bits in order"); sds_check_eq(k, n, "iteration visits every bit once");
} SDS_END
SDS_WITNESS(W_bit_from, "0-130,191-194")(uint64_t n) {
  struct Arr { uint64_t n; const bool *p; uint64_t size() const { return n; } const bool *begin() const { return p; } const bool *end() const { return p + n; } };
  Bits m; m.n = n; for (uint64_t i = 0; i < n; i++) m.b[i] = sds_bool();
  BitVector v(Arr{n, m.b}); same(v, m, "a bit vector built from a sequence has its bits");
  std::vector<uint8_t> b(n); for (uint64_t i = 0; i < n; i++) b[i] = m.b[i]; BitVector u(b); same(u, m, "a bit vector built from a sequence has its bits");
  BitVector z; Bits y; y.n = 0; same(z, y, "a default bit vector is empty");
  for (uint64_t i = 0; i < n; i++) z.push_back(m.b[i]); same(z, m, "pushed bits are kept in order");
} SDS_END
SDS_WITNESS(W_bit_init, "")() {
  bool a = sds_bool(), b = sds_bool(), c = sds_bool(), d = sds_bool(), e = sds_bool(); BitVector v{a, b, c, d, e}; sds_check(v.size() == 5 && v[0] == a && v[1] == b && v[2] == c && v[3] == d && v[4] == e, "an initializer list gives the bits in order");
} SDS_END
SDS_WITNESS(W_bit_resize, "0-2,63-66,128,130,193;0-3,62-66,127-130,192-194;0-3,62-66,127-130,192-194|0-3,61-67,126-130,191-193,257;0-3,61-67,126-130,191-194,256-258;0-3,61-67,126-130,191-194,256-258")(uint64_t n0, uint64_t n1, uint64_t n2) {
  Bits m; m.n = n0; BitVector v(n0); arbitrary(v, m);
  bool x = sds_bool(), y = sds_bool();
  v.resize(n1, x); grow(m, n1, x); same(v, m, "resize keeps the common prefix and fills the rest");
  v.resize(n2); grow(m, n2, false); same(v, m, "resize keeps the common prefix and fills the rest with zeros");
  v.resize(n1, y); grow(m, n1, y); same(v, m, "resize keeps the common prefix and fills the rest");
} SDS_END
SDS_WITNESS(W_bit_assign, "0-2,63-66,128,193;0-3,62-66,127-130,192-194")(uint64_t n0, uint64_t n1) {
  Bits m; m.n = n0; BitVector v(n0); arbitrary(v, m); bool x = sds_bool();
  v.reserve(n1); same(v, m, "reserve changes nothing observable"); v.shrink_to_fit(); same(v, m, "shrink_to_fit changes nothing observable");
  v.push_back(x); grow(m, n0 + 1, x); same(v, m, "push_back appends one bit"); v.push_back(!x); grow(m, n0 + 2, !x); same(v, m, "push_back appends one bit");
  v.assign(n1, x); m.n = 0; grow(m, n1, x); same(v, m, "assign makes every bit the given bit");
} SDS_END
SDS_WITNESS(W_bit_fill, "0-2,31,62-66,100,127-130,190-193;0-66,126-130,190-193|0-193;0-193")(uint64_t b, uint64_t len) {
  uint64_t n = 194; uint64_t e = b + len > n ? n : b + len; Bits m; m.n = n; BitVector v(n); arbitrary(v, m); bool x = sds_bool();
  v.fill(v.begin() + b, v.begin() + e, x); for (uint64_t i = b; i < e; i++) m.b[i] = x; same(v, m, "fill sets the range and nothing else");
} SDS_END
SDS_WITNESS(W_bit_shrunk, "1-3,62-66,127-130,191-194;0-3,61-66,126-130,190-194")(uint64_t n0, uint64_t n1) { // stale bits must not come back
  if (n1 > n0) sds_stop();
  Bits m; m.n = n0; BitVector v(n0); arbitrary(v, m); v.resize(n1); m.n = n1; same(v, m, "shrinking keeps the prefix");
  for (uint64_t k = n1; k < n0 && k < n1 + 70; k++) v.push_back(false); grow(m, n0 < n1 + 70 ? n0 : n1 + 70, false); same(v, m, "bits pushed after a shrink are the pushed bits");
} SDS_END

// ---- FitVector
struct Vals { uint64_t a[160]; uint64_t n; };
static void same(const FitVector &v, const Vals &m, const char *msg) { sds_check_eq(v.size(), m.n, "size of a fitted vector"); sds_check(v.empty() == (m.n == 0), "empty() means size 0"); for (uint64_t i = 0; i < m.n; i++) sds_check_eq(rd(v[i]), m.a[i], msg); }
static void grow(Vals &m, uint64_t n, uint64_t x) { for (uint64_t i = m.n; i < n; i++) m.a[i] = x; m.n = n; }
static void arbitrary(FitVector &v, Vals &m, uint64_t w) { for (uint64_t i = 0; i < m.n; i++) { m.a[i] = val(w); v[i] = m.a[i]; } }
SDS_WITNESS(W_fit_ctor, "0-64;0-10,31-34,63-66")(uint64_t w, uint64_t n) {
  Vals m; m.n = 0; FitVector z(w); same(z, m, "a new fitted vector is empty"); sds_check_eq(z.unit_width(), w, "the width is the declared width");
  grow(m, n, 0); FitVector v(w, n); same(v, m, "a new fitted vector is all zero");
  uint64_t x = val(w); m.n = 0; grow(m, n, x); FitVector u(w, n, x); same(u, m, "a fitted vector built from one value repeats it");
  arbitrary(u, m, w); FitVector c(u); same(c, m, "a copy has the same elements"); FitVector e(std::move(c)); same(e, m, "a moved vector has the same elements");
  if (w) { uint64_t k = 0; for (auto it = u.begin(); it != u.end() && k <= n; ++it, ++k) if (k < n) sds_check_eq(rd(*it), m.a[k], "iteration visits the elements in order"); sds_check_eq(k, n, "iteration visits every element once"); }
  for (uint64_t i = 0; i < n; i++) z.push_back(m.a[i]); same(z, m, "pushed elements are kept in order");
} SDS_END
SDS_WITNESS(W_fit_resize, "0,1,2,3,5,7,8,11,13,16,21,31-34,63,64;0-2,5,9,33,65;0-3,9,32-34,64-66;0-3,9,32-34,64-66|0-64;0-3,5,9,33,65;0-3,9,32-34,64-66;0-3,9,32-34,64-66")(uint64_t w, uint64_t n0, uint64_t n1, uint64_t n2) {
  Vals m; m.n = n0; FitVector v(w, n0); arbitrary(v, m, w); uint64_t x = val(w), y = val(w);
  v.resize(n1, x); grow(m, n1, x); same(v, m, "resize keeps the common prefix and fills the rest");
  v.resize(n2); grow(m, n2, 0); same(v, m, "resize keeps the common prefix and fills the rest with zeros");
  v.reserve(n1 + n2); same(v, m, "reserve changes nothing observable");
  v.push_back(y); grow(m, n2 + 1, y); same(v, m, "push_back appends one element");
  v.assign(n1, y); m.n = 0; grow(m, n1, y); same(v, m, "assign makes every element the given value");
} SDS_END
template <class T> static void fromVec(uint64_t n, uint64_t top) { // the largest element has its highest bit at `top`
  std::vector<T> s(n); Vals m; m.n = n;
  for (uint64_t i = 0; i < n; i++) m.a[i] = 0;
  for (uint64_t b = top + 1; b-- > 0;) for (uint64_t i = 0; i < n; i++) m.a[i] |= (b == top && i == n / 2 ? 1ull : sds_bits(1)) << b;
  for (uint64_t i = 0; i < n; i++) s[i] = (T)m.a[i];
  FitVector v(s); same(v, m, "a fitted vector built from integers has their values"); if (n) sds_check_eq(v.unit_width(), top + 1, "the width is that of the largest element");
}
SDS_WITNESS(W_fit_from, "1-3,5;0-63|1-6;0-63")(uint64_t n, uint64_t top) { fromVec<uint64_t>(n, top); if (top < 32) fromVec<uint32_t>(n, top); if (top < 8) fromVec<uint8_t>(n, top); } SDS_END
SDS_WITNESS(W_fit_from0, "0-3")(uint64_t n) { std::vector<uint64_t> s(n); FitVector v(s); sds_check_eq(v.size(), n, "a fitted vector built from zeros has their number"); for (uint64_t i = 0; i < n; i++) sds_check_eq(rd(v[i]), 0, "a fitted vector built from zeros holds zeros"); } SDS_END

// ---- MultipleVector
static const uint64_t kTab[6][4] = {{1, 0, 0, 0}, {4, 2, 1, 0}, {8, 8, 0, 0}, {3, 5, 7, 1}, {6, 1, 8, 0}, {8, 1, 2, 4}};
struct Rows { uint64_t a[12][4]; uint64_t n, k; };
static void same(MultipleVector &v, const Rows &m, const char *msg) { sds_check_eq(v.size(), m.n, "size is the number of rows"); for (uint64_t i = 0; i < m.n; i++) for (uint64_t t = 0; t < m.k; t++) sds_check_eq(v.block(i).get_at(t), m.a[i][t], msg); }
static void push(MultipleVector &v, const uint64_t *x, uint64_t k) { if (k == 1) v.push_back({x[0]}); else if (k == 2) v.push_back({x[0], x[1]}); else if (k == 3) v.push_back({x[0], x[1], x[2]}); else v.push_back({x[0], x[1], x[2], x[3]}); }
static void grow(MultipleVector &v, uint64_t n, const uint64_t *x, uint64_t k) { if (k == 1) v.resize(n, {x[0]}); else if (k == 2) v.resize(n, {x[0], x[1]}); else if (k == 3) v.resize(n, {x[0], x[1], x[2]}); else v.resize(n, {x[0], x[1], x[2], x[3]}); }
SDS_WITNESS(W_rows, "0-5;0-4;0-6")(uint64_t tab, uint64_t n0, uint64_t n1) {
  const uint64_t *w = kTab[tab]; Rows m; m.k = 0; while (m.k < 4 && w[m.k]) m.k++; m.n = n0;
  MultipleVector v; std::vector<uint64_t> sizes(w, w + m.k); v.set_element_sizes(sizes); sds_check_eq(v.size(), 0, "a new table has no rows");
  uint64_t bs = 0; for (uint64_t t = 0; t < m.k; t++) { bs += w[t]; sds_check_eq(v.element_size(t), w[t], "element_size is the declared width"); } sds_check_eq(v.block_size(), bs, "block_size is the sum of the widths");
  for (uint64_t i = 0; i < n0; i++) { for (uint64_t t = 0; t < m.k; t++) m.a[i][t] = val(8 * w[t]); push(v, m.a[i], m.k); } same(v, m, "pushed rows are kept in order");
  uint64_t x[4]; for (uint64_t t = 0; t < m.k; t++) x[t] = val(8 * w[t]);
  grow(v, n1, x, m.k); for (uint64_t i = n0; i < n1; i++) for (uint64_t t = 0; t < m.k; t++) m.a[i][t] = x[t]; m.n = n1; same(v, m, "resize keeps the common prefix and fills the rest with the given row");
  v.reserve(9); same(v, m, "reserve changes nothing observable");
  v.emplace_back(); for (uint64_t t = 0; t < m.k; t++) m.a[n1][t] = 0; m.n++; same(v, m, "emplace_back appends a row of zeros");
  v.resize(n1 + 3); for (uint64_t i = n1 + 1; i < n1 + 3; i++) for (uint64_t t = 0; t < m.k; t++) m.a[i][t] = 0; m.n = n1 + 3; same(v, m, "resize appends rows of zeros");
  auto r = v.block(n1); if (m.k == 2) r = {x[0], x[1]}; else if (m.k == 3) r = {x[0], x[1], x[2]}; else if (m.k == 4) r = {x[0], x[1], x[2], x[3]}; else r = {x[0]};
  for (uint64_t t = 0; t < m.k; t++) m.a[n1][t] = x[t]; same(v, m, "assigning a list to a row sets that row");
  MultipleVector c(v); same(c, m, "a copy has the same rows"); c.block(0).set_at(0, m.a[0][0] ^ 1); same(v, m, "a copy does not share storage");
} SDS_END
SDS_WITNESS(W_rows_empty, "")() { MultipleVector v; sds_check_eq(v.size(), 0, "a table without columns is empty"); sds_check_eq(v.block_size(), 0, "a table without columns has empty rows"); } SDS_END

// ---- MultiBitVector: set() grows on demand, new elements are zero
template <unsigned U> static void mb(uint64_t n0, uint64_t n1) {
  MultiBitVector<U> v; uint8_t a[150]; uint64_t n = n0 > n1 ? n0 : n1; for (uint64_t i = 0; i <= n; i++) a[i] = 0;
  a[n0] = sds_bits(U); v.set(n0, a[n0]); for (uint64_t i = 0; i <= n0; i++) sds_check_eq(v[i], a[i], "growing by set keeps the other elements zero");
  a[n1] = sds_bits(U); v.set(n1, a[n1]); for (uint64_t i = 0; i <= n; i++) sds_check_eq(v[i], a[i], "set stores the element and keeps the others");
  for (uint64_t i = 0; i <= n; i += 3) { a[i] = sds_bits(U); v.set(i, a[i]); } for (uint64_t i = 0; i <= n; i++) sds_check_eq(v[i], a[i], "set stores every element");
}
SDS_WITNESS(W_multibit, "1-3;0-2,20-22,31-33,41-43,62-66;0-2,20-22,31-33,41-43,62-66,127-130")(uint64_t u, uint64_t n0, uint64_t n1) { if (u == 1) mb<1>(n0, n1); else if (u == 2) mb<2>(n0, n1); else mb<3>(n0, n1); } SDS_END

// ---- longer histories of all operations; contents and requested values arbitrary
static uint64_t step(uint64_t &x, uint64_t k) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % k; }
static uint64_t edge(uint64_t &x) { static const uint16_t e[] = {0, 1, 2, 31, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 321}; return e[step(x, 22)]; }
SDS_WITNESS(W_bit_history, "0-249;6,14|0-1999;6,14,30")(uint64_t seed, uint64_t len) {
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1; Bits m; m.n = edge(x); BitVector v(m.n); arbitrary(v, m);
  for (uint64_t i = 0; i < len; i++) {
    bool b = sds_bool(); uint64_t n = edge(x);
    switch (step(x, 11)) {
      case 0: v.resize(n, b); grow(m, n, b); break;
      case 1: v.resize(n); grow(m, n, false); break;
      case 2: v.assign(n, b); m.n = 0; grow(m, n, b); break;
      case 3: for (uint64_t k = step(x, 3) + 1; k-- && m.n < 390;) { v.push_back(b); grow(m, m.n + 1, b); } break;
      case 4: v.reserve(n); break;
      case 5: v.shrink_to_fit(); break;
      case 6: { uint64_t f = step(x, m.n + 1), e = f + step(x, m.n - f + 1); if (step(x, 2)) { f = f / 64 * 64; e = e < f ? f : e; } v.fill(v.begin() + f, v.begin() + e, b); for (uint64_t j = f; j < e; j++) m.b[j] = b; break; }
      case 7: { BitVector c(v); v.resize(3); v = c; break; }
      case 8: { BitVector c(std::move(v)); v = std::move(c); break; }
      case 9: { BitVector c(n, true); c = v; v = std::move(c); break; }
      default: if (m.n) { uint64_t j = step(x, m.n); v[j] = b; m.b[j] = b; }
    }
    same(v, m, "after a sequence of operations the elements are those prescribed");
  }
} SDS_END
SDS_WITNESS(W_fit_history, "0-64;0-5;6|0-64;0-19;6,14")(uint64_t w, uint64_t seed, uint64_t len) {
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + w; Vals m; m.n = step(x, 40); FitVector v(w, m.n); arbitrary(v, m, w);
  for (uint64_t i = 0; i < len; i++) {
    uint64_t b = val(w), n = step(x, 2) ? step(x, 70) : edge(x) % 130;
    switch (step(x, 10)) {
      case 0: v.resize(n, b); grow(m, n, b); break;
      case 1: v.resize(n); grow(m, n, 0); break;
      case 2: v.assign(n, b); m.n = 0; grow(m, n, b); break;
      case 3: for (uint64_t k = step(x, 3) + 1; k-- && m.n < 150;) { v.push_back(b); grow(m, m.n + 1, b); } break;
      case 4: v.reserve(n); break;
      case 5: { FitVector c(v); v.resize(1); v = c; break; }
      case 6: { FitVector c(std::move(v)); v = std::move(c); break; }
      case 7: { FitVector c(w ? 65 - w : 3, 9); c = v; v = std::move(c); sds_check_eq(v.unit_width(), w, "the width goes with the elements"); break; }
      default: if (m.n) { uint64_t j = step(x, m.n); v[j] = b; m.a[j] = b; }
    }
    same(v, m, "after a sequence of operations the elements are those prescribed");
  }
} SDS_END
