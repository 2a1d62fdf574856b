// Heaps and heap sort. The operations only compare elements, so values of k bits cover every order (with ties) of 2^k elements.
#include "sds.h"
#include <deque>
#include <vector>
#include "sim_ds/Heap.hpp"
#include "sim_ds/sort.hpp"
SDS_HEAP_LIMIT(262144)
using namespace sim_ds;
// what sorting means: a fixed network of exchanges
template <class T, class C> static void network(std::vector<T> &v, C less) { for (size_t i = 1; i < v.size(); i++) for (size_t j = i; j > 0; j--) { T a = v[j - 1], b = v[j]; bool s = less(b, a); v[j - 1] = s ? b : a; v[j] = s ? a : b; } }
static uint64_t value(uint64_t kind) { return kind == 0 ? sds_bits(1) : kind == 1 ? sds_bits(2) : kind == 2 ? sds_bits(3) : kind == 3 ? (sds_bits(1) << 63) + (sds_bits(1) << 32) + (sds_bits(1) << 31) + sds_bits(1) : kind == 4 ? sds_bits(1) << 63 : kind == 5 ? (sds_bits(1) << 32) + 5 : (sds_bits(1) << 31) + (sds_bits(1) << 40); }
template <bool Asc> static bool before(uint64_t a, uint64_t b) { return Asc ? a < b : a > b; }
// the model: a sorted list
template <bool Asc> struct Model { std::vector<uint64_t> v;
  void add(uint64_t x) { v.push_back(x); for (size_t j = v.size() - 1; j > 0; j--) { uint64_t a = v[j - 1], b = v[j]; bool s = before<Asc>(b, a); v[j - 1] = s ? b : a; v[j] = s ? a : b; } }
  void pop() { v.erase(v.begin()); } };
template <bool Asc> static void drain(Heap<Asc> &h, Model<Asc> &m) {
  for (;;) { sds_check_eq(h.size(), m.v.size(), "the size is the number of elements pushed and not popped"); if (m.v.empty()) return; sds_check_eq(h.front(), m.v[0], "the front is an extreme element"); sds_check_eq(h.value(h.root()), m.v[0], "the root is the front"); h.pop(); m.pop(); }
}
template <bool Asc> static void built(uint64_t n, uint64_t kind, uint64_t how) {
  std::vector<uint64_t> s; Model<Asc> m; for (uint64_t i = 0; i < n; i++) { s.push_back(value(kind)); m.add(s[i]); }
  Heap<Asc> h = how == 0 ? Heap<Asc>(s) : how == 1 ? Heap<Asc>(s.begin(), s.end()) : Heap<Asc>(s.data(), s.data() + n);
  if (how == 2) { Heap<Asc> c = h, d; d = std::move(h); h = c; if (n) { c.pop(); sds_check_eq(d.front(), m.v[0], "copies are independent"); } }
  drain<Asc>(h, m);
}
SDS_WITNESS(W_build, "0,1;0-6;2;0-2")(uint64_t asc, uint64_t n, uint64_t kind, uint64_t how) { asc ? built<true>(n, kind, how) : built<false>(n, kind, how); } SDS_END
SDS_WITNESS(W_build_many, "0,1;7-33;0;0,1|0,1;7-70;0;0,1")(uint64_t asc, uint64_t n, uint64_t kind, uint64_t how) { asc ? built<true>(n, kind, how) : built<false>(n, kind, how); } SDS_END
SDS_WITNESS(W_build_wide, "0,1;1-4;3;0-2")(uint64_t asc, uint64_t n, uint64_t kind, uint64_t how) { asc ? built<true>(n, kind, how) : built<false>(n, kind, how); } SDS_END
SDS_WITNESS(W_build_bits, "0,1;2-8;4-6;0")(uint64_t asc, uint64_t n, uint64_t kind, uint64_t how) { if (kind == 6 && n > 6) sds_stop(); asc ? built<true>(n, kind, how) : built<false>(n, kind, how); } SDS_END
// interleaved pushes and pops: bit i of the script says push (1) or pop (0)
template <bool Asc> static void script(uint64_t s, uint64_t len, uint64_t kind, uint64_t pre) {
  std::vector<uint64_t> b; Model<Asc> m; for (uint64_t i = 0; i < pre; i++) { b.push_back(value(kind)); m.add(b[i]); }
  Heap<Asc> h; if (pre) h = Heap<Asc>(b);
  for (uint64_t i = 0; i < len; i++) {
    if (s >> i & 1) { uint64_t x = value(kind); h.push(x); m.add(x); } else if (!m.v.empty()) { h.pop(); m.pop(); }
    sds_check_eq(h.size(), m.v.size(), "the size is the number of elements pushed and not popped"); if (!m.v.empty()) sds_check_eq(h.front(), m.v[0], "the front is an extreme element");
  }
  drain<Asc>(h, m);
}
SDS_WITNESS(W_script, "0,1;0-127;7;2;0|0,1;0-1023;10;2;0")(uint64_t asc, uint64_t s, uint64_t len, uint64_t kind, uint64_t pre) { asc ? script<true>(s, len, kind, pre) : script<false>(s, len, kind, pre); } SDS_END
SDS_WITNESS(W_script_pre, "0,1;0-31;5;0;3-9,15,16|0,1;0-63;6;0;3-20")(uint64_t asc, uint64_t s, uint64_t len, uint64_t kind, uint64_t pre) { asc ? script<true>(s, len, kind, pre) : script<false>(s, len, kind, pre); } SDS_END
// ---- sorting
template <class V> static void sorted(V &v, const std::vector<uint64_t> &e, uint64_t off) { for (size_t i = 0; i < e.size(); i++) sds_check(uint64_t(v[i + off]) == e[i], "the range holds its elements in the requested order"); }
SDS_WITNESS(W_sort, "0-6;2;0-2")(uint64_t n, uint64_t kind, uint64_t order) {
  std::vector<uint64_t> s(1, 99), e; for (uint64_t i = 0; i < n; i++) { e.push_back(value(kind)); s.push_back(e[i]); } s.push_back(77);
  if (order == 2) network(e, [](uint64_t a, uint64_t b) { return a > b; }); else network(e, [](uint64_t a, uint64_t b) { return a < b; });
  auto b = s.begin() + 1, f = s.end() - 1;
  if (order == 0) HeapSort(b, f); else if (order == 1) HeapSort(b, f, std::less<uint64_t>()); else HeapSort(b, f, [](uint64_t x, uint64_t y) { return x > y; });
  sorted(s, e, 1); sds_check(s[0] == 99 && s[n + 1] == 77, "elements outside the range stay");
} SDS_END
SDS_WITNESS(W_sort_many, "7-33;0,1|7-70;0,1")(uint64_t n, uint64_t order) {
  std::vector<uint64_t> s, e; for (uint64_t i = 0; i < n; i++) { e.push_back(value(0)); s.push_back(e[i]); }
  if (order) { network(e, std::greater<uint64_t>()); HeapSort(s.begin(), s.end(), std::greater<uint64_t>()); } else { network(e, std::less<uint64_t>()); HeapSort(s.begin(), s.end()); }
  sorted(s, e, 0);
} SDS_END
SDS_WITNESS(W_sort_types, "0-4;0-3")(uint64_t n, uint64_t ty) {
  auto go = [&](auto tag) { using T = decltype(tag); std::vector<T> s, e; for (uint64_t i = 0; i < n; i++) { e.push_back((T)(sds_bits(1) << (sizeof(T) * 8 - 1) | sds_bits(1) << (sizeof(T) * 4) | sds_bits(2))); s.push_back(e[i]); } network(e, [](T a, T b) { return a < b; }); HeapSort(s.data(), s.data() + n); for (uint64_t i = 0; i < n; i++) sds_check(s[i] == e[i], "the range holds its elements in the requested order"); };
  if (ty == 0) go(int8_t()); else if (ty == 1) go(int()); else if (ty == 2) go(uint64_t()); else go(int64_t());
} SDS_END
// larger heaps and ranges with listed contents: random with ties, sorted, reversed, equal, extremes
static std::vector<uint64_t> contents(uint64_t n, uint64_t kind, uint64_t &x, uint64_t tag = 0) {
  std::vector<uint64_t> s; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  for (uint64_t i = 0; i < n; i++) s.push_back(kind == 0 ? rnd(1000) : kind == 1 ? rnd(4) : kind == 2 ? i : kind == 3 ? n - i : kind == 4 ? 7 : kind == 5 ? (rnd(2) ? ~0ull - rnd(3) : rnd(3)) : (rnd(1 << 20) << 44) + rnd(9));
  if (kind == 2 || kind == 3 || kind == 6) for (auto &e : s) e = e * 8 + tag + sds_bits(2); // the order is listed, the values are not
  return s;
}
template <bool Asc> static void large(uint64_t n, uint64_t kind) {
  uint64_t x = n * 31 + kind; auto s = contents(n, kind, x); Model<Asc> m; m.v = s; network(m.v, before<Asc>); Heap<Asc> h(s);
  auto more = contents(n, kind, x, 4);
  for (uint64_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; if (x >> 63) { h.push(more[i]); m.add(more[i]); } else if (!m.v.empty()) { h.pop(); m.pop(); } if (!m.v.empty()) sds_check_eq(h.front(), m.v[0], "the front is an extreme element"); }
  drain<Asc>(h, m);
}
SDS_WITNESS(W_large, "0,1;34,63-65,100;0-6|0,1;34-70,100,127-129,200;0-6")(uint64_t asc, uint64_t n, uint64_t kind) { asc ? large<true>(n, kind) : large<false>(n, kind); } SDS_END
SDS_WITNESS(W_sort_large, "34,64,100,255;0-6;0,1|34-70,100,127-129,200,255-257,500;0-6;0,1")(uint64_t n, uint64_t kind, uint64_t down) {
  uint64_t x = n * 17 + kind; auto s = contents(n, kind, x), e = s;
  if (down) HeapSort(s.begin(), s.end(), std::greater<uint64_t>()); else HeapSort(s.begin(), s.end());
  for (uint64_t i = 0; i + 1 < n; i++) sds_check(down ? s[i] >= s[i + 1] : s[i] <= s[i + 1], "the range holds its elements in the requested order");
  for (uint64_t i = 0; i < n; i++) { uint64_t a = 0, b = 0; for (uint64_t j = 0; j < n; j++) { a += e[j] == e[i]; b += s[j] == e[i]; } sds_check_eq(a, b, "the range holds its elements in the requested order"); }
} SDS_END
