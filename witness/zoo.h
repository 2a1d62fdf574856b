// One specimen of every container: how to make one with listed size and arbitrary contents, how to change it, and every question
// that can be asked of a constant one, with the answer it must give.
#pragma once
#include "sds.h"
#include "rbtree.h"
#include <algorithm>
#include <array>
#include <limits>
#include <map>
#include <new>
#include <queue>
#include <string>
#include <string_view>
#include <vector>
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/CDRWArray.hpp"
#include "sim_ds/CHT.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/Heap.hpp"
#include "sim_ds/InitializableArray.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include "sim_ds/string_util/graph_util.hpp"
using namespace sim_ds;
static const char *const kSame = "a query gives the stored answer";
static std::ostream &sink() { return *reinterpret_cast<std::ostream *>(sds_stream()); }
struct ZBits {
  using C = BitVector; bool v[160]; uint64_t n = 0;
  C make(uint64_t k, uint64_t) { n = 60 * k + k; C c(n); for (uint64_t i = 0; i < n; i++) { v[i] = sds_bool(); c[i] = v[i]; } return c; }
  void change(C &c) { if (n) { v[0] = !v[0]; c[0] = v[0]; } v[n] = sds_bool(); c.push_back(v[n]); n++; }
  void ask(const C &c) const {
    sds_check(c.size() == n && c.empty() == (n == 0), kSame); for (uint64_t i = 0; i < n; i++) { sds_check(c[i] == v[i], kSame); sds_check(c.at(i) == v[i], kSame); }
    uint64_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) sds_check(*it == v[i], kSame);
    if (n) { sds_check(c.front() == v[0] && c.back() == v[n - 1], kSame); (void)c.data(); } c.size_in_bytes(); c.Write(sink());
  }
};
template <bool S> struct ZRank {
  using C = SuccinctBitVector<S>; bool v[200]; uint64_t n = 0;
  C make(uint64_t k, uint64_t) { n = 61 * k + k / 2; BitVector b(n); for (uint64_t i = 0; i < n; i++) { v[i] = i % 5 == 0 ? sds_bool() : i % 3 == 0; b[i] = v[i]; } return C(b); }
  void change(C &c) { BitVector b(n + 1); for (uint64_t i = 0; i <= n; i++) { v[i] = i % 7 == 0; b[i] = v[i]; } n++; c = C(b); }
  void ask(const C &c) const {
    sds_check_eq(c.size(), n, kSame); uint64_t r = 0;
    for (uint64_t i = 0; i <= n; i++) { if (i % 9 == 0 || i == n) { sds_check_eq(c.rank(i), r, kSame); sds_check_eq(c.rank_1(i), r, kSame); sds_check_eq(c.rank_0(i), i - r, kSame); } if (i < n) { sds_check(c[i] == v[i], kSame); if constexpr (S) if (i % 9 == 1 && v[i]) sds_check_eq(c.select(r), i, kSame); r += v[i]; } }
    (void)c.data(); c.num_blocks(); c.size_in_bytes(); c.Write(sink());
  }
};
struct ZFit {
  using C = FitVector; uint64_t v[16], n = 0, w = 0;
  C make(uint64_t k, uint64_t j) { static const uint8_t W[4] = {7, 64, 1, 33}; w = W[j % 4]; n = 3 * k; C c(w, n); for (uint64_t i = 0; i < n; i++) { v[i] = sds_bits(w); c[i] = v[i]; } return c; }
  void change(C &c) { if (n) { v[n / 2] = sds_bits(w); c[n / 2] = v[n / 2]; } v[n] = sds_bits(w); c.push_back(v[n]); n++; }
  void ask(const C &c) const {
    sds_check(c.size() == n && c.empty() == (n == 0) && c.unit_width() == w, kSame); for (uint64_t i = 0; i < n; i++) { sds_check_eq(c[i], v[i], kSame); sds_check_eq(c.at(i), v[i], kSame); }
    uint64_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) sds_check_eq(*it, v[i], kSame);
    if (n) { sds_check_eq(c.front(), v[0], kSame); sds_check_eq(c.back(), v[n - 1], kSame); } c.size_in_bytes(); c.Write(sink());
  }
};
struct ZRows {
  using C = MultipleVector; uint64_t v[16][2], n = 0;
  C make(uint64_t k, uint64_t) { C c; std::vector<size_t> s{3, 1}; c.set_element_sizes(s); n = 0; for (uint64_t i = 0; i < 2 * k; i++) push(c); return c; }
  void push(C &c) { v[n][0] = sds_bits(24); v[n][1] = sds_bits(8); c.push_back({v[n][0], v[n][1]}); n++; }
  void change(C &c) { if (n) { v[0][1] = sds_bits(8); c.block(0).set_at(1, v[0][1]); } push(c); }
  void ask(const C &c) const {
    sds_check_eq(c.size(), n, kSame); sds_check(c.block_size() == 4 && c.element_size(0) == 3 && c.element_size(1) == 1, kSame);
    for (uint64_t i = 0; i < n; i++) { sds_check_eq(c.block(i).template get<0>(), v[i][0], kSame); sds_check_eq(c.nested_element<1>(i), v[i][1], kSame); } c.size_in_bytes(); c.StoreTo(sink());
  }
};
struct ZSymbols {
  using C = MultiBitVector<2>; uint8_t v[64]; uint64_t n = 0;
  C make(uint64_t k, uint64_t) { C c; n = 15 * k; for (uint64_t i = 0; i < n; i++) { v[i] = i % 4 ? i * 7 % 3 + 1 : sds_bits(1) + 1; c.set(i, v[i]); } c.build(); return c; }
  void change(C &c) { v[n] = 3; c.set(n, 3); if (n) { v[0] = 3; c.set(0, 3); } n++; c.build(); }
  void ask(const C &c) const { for (uint64_t i = 0; i < n; i++) { sds_check_eq(c[i], v[i], kSame); uint64_t r = 0; for (uint64_t j = 0; j < i; j++) r += v[j] == v[i]; sds_check_eq(c.rank(i), r, kSame); } c.size_in_bytes(); c.Write(sink()); }
};
struct ZDac {
  using C = DacVector; std::vector<uint64_t> v;
  C make(uint64_t k, uint64_t j) { v.clear(); for (uint64_t i = 0; i < 2 * k; i++) v.push_back((i % 2 ? 1ull << 20 : 32) + sds_bits(5)); return j % 2 ? C(v, std::vector<uint64_t>{4, 20}) : C(v); }
  void change(C &c) { v.push_back(1ull << 40); c = C(v); }
  void ask(const C &c) const {
    sds_check(c.size() == v.size() && c.empty() == v.empty(), kSame); for (uint64_t i = 0; i < v.size(); i++) { sds_check_eq(c[i], v[i], kSame); sds_check_eq(c.at(i), v[i], kSame); c.depth(i); }
    uint64_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) sds_check_eq(*it, v[i], kSame);
    if (!v.empty()) { sds_check_eq(c.front(), v[0], kSame); sds_check_eq(c.back(), v.back(), kSame); } c.num_layers(); c.size_in_bytes(); c.Write(sink());
  }
};
struct ZTree {
  using C = WaveletTree; std::vector<uint8_t> v;
  C make(uint64_t k, uint64_t) { v.clear(); for (uint64_t i = 0; i < 2 * k; i++) v.push_back((uint8_t)(i == 0 ? 7 : sds_bits(1) * 4 + i % 4)); return C(v); }
  void change(C &c) { v.push_back(3); c = C(v); }
  void ask(const C &c) const {
    sds_check_eq(c.size(), v.size(), kSame);
    for (uint64_t i = 0; i < v.size(); i++) { uint64_t r = 0; for (uint64_t j = 0; j < i; j++) r += v[j] == v[i]; sds_check_eq(c[i], v[i], kSame); sds_check_eq(c.rank(i), r, kSame); sds_check_eq(c.rank(v[i], i), r, kSame); auto p = c.AccessAndRank(i); sds_check(p.first == v[i] && p.second == r, kSame); }
    c.size_in_bytes(); c.Write(sink());
  }
};
struct ZHeap {
  using C = Heap<true>; std::vector<uint64_t> v;
  C make(uint64_t k, uint64_t) { v.clear(); for (uint64_t i = 0; i < k; i++) v.push_back(sds_bits(3)); return C(v); }
  void change(C &c) { v.push_back(9); c.push(9); c.push(0); v.push_back(0); }
  void ask(const C &c) const {
    sds_check_eq(c.size(), v.size(), kSame); if (v.empty()) return; uint64_t m = v[0]; for (auto x : v) m = x < m ? x : m;
    sds_check_eq(c.front(), m, kSame); sds_check_eq(c.value(c.root()), m, kSame); c.is_leaf(c.root()); c.left(c.root()); c.right(c.root()); c.parent(c.left(c.root()));
  }
};
struct ZReset {
  using C = InitializableArrayFolklore<uint32_t>; uint32_t v[8]; uint64_t n = 0;
  C make(uint64_t k, uint64_t) { n = k + 1; C c(n, 5); for (uint64_t i = 0; i < n; i++) v[i] = 5; v[k] = (uint32_t)sds_bits(32); c.set(k, v[k]); return c; }
  void change(C &c) { c.init(3); for (uint64_t i = 0; i < n; i++) v[i] = 3; v[0] = (uint32_t)sds_bits(32); c.set(0, v[0]); }
  void ask(const C &c) const { sds_check_eq(c.size(), n, kSame); for (uint64_t i = 0; i < n; i++) sds_check(c.get(i) == v[i], kSame); }
};
struct ZPlace {
  using C = InitializableArray<uint32_t, 6>; uint32_t v[6];
  C make(uint64_t k, uint64_t) { uint32_t x = (uint32_t)sds_bits(32); C c(x); for (auto &y : v) y = x; for (uint64_t i = 0; i < 2 * k && i < 6; i++) { uint64_t p = (i * 5 + 3) % 6; v[p] = (uint32_t)sds_bits(32); c.set(p, v[p]); } return c; }
  void change(C &c) { c.set(1, v[1] = 77); c.set(4, v[4] = 78); }
  void ask(const C &c) const {
    sds_check_eq(c.size(), 6, kSame); for (uint64_t i = 0; i < 6; i++) { sds_check(c.get(i) == v[i], kSame); sds_check((uint32_t)c[i] == v[i], kSame); }
    uint64_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) sds_check((uint32_t)*it == v[i], kSame); (void)c.cbegin(); (void)c.cend();
  }
};
struct ZMap {
  using C = CHT<8>; uint64_t k[8], v[8], n = 0;
  C make(uint64_t m, uint64_t j) { C c(9, j % 2 ? 2 : 8); for (uint64_t i = 0; i < m; i++) put(c, i * 37 + 11); c.set(500, 1); c.erase(500); return c; }
  void put(C &c, uint64_t x) { k[n] = x; v[n] = sds_bits(8); c.set(x, v[n]); n++; }
  void change(C &c) { if (n) { v[0] = sds_bits(8); c.set(k[0], v[0]); } put(c, 300 + n); put(c, 310 + n); }
  void ask(const C &c) const { sds_check_eq(c.size(), n, kSame); for (uint64_t i = 0; i < n; i++) { auto r = c.get(k[i]); sds_check(r.first, kSame); sds_check_eq(r.second, v[i], kSame); } sds_check(!c.get(500).first && !c.get(501).first, kSame); c.bucket(); c.IsFilled(); }
};
struct ZDyn {
  using C = CDRWArray; uint64_t v[8], n = 0;
  C make(uint64_t k, uint64_t) { n = k + 1; C c(n); for (uint64_t i = 0; i < n; i++) { v[i] = i == 1 ? 0 : (1ull << (9 * i)) | (i ? sds_bits(8) : 0); c.set(i, v[i]); } return c; }
  void change(C &c) { v[0] = 1ull << 40; c.set(0, v[0]); }
  void ask(const C &c) const { sds_check_eq(c.size(), n, kSame); for (uint64_t i = 0; i < n; i++) sds_check_eq(c.get(i), v[i], kSame); }
};
struct ZDynVec {
  using C = CDRWVector; uint64_t v[16], n = 0;
  C make(uint64_t k, uint64_t) { C c; for (uint64_t i = 0; i < k; i++) push(c); return c; }
  void push(C &c) { v[n] = (1ull << (7 * (n % 9))) | (n % 9 ? sds_bits(6) : 0); c.push_back(v[n]); n++; }
  void change(C &c) { push(c); v[0] = 0; c.set(0, 0); }
  void ask(const C &c) const { sds_check(c.size() == n && c.empty() == (n == 0) && c.capacity() >= n, kSame); for (uint64_t i = 0; i < n; i++) sds_check_eq(c.get(i), v[i], kSame); }
};
static std::vector<std::string> zooWords(uint64_t k) { static const char *const w[6] = {"a", "ab", "abc", "b", "ba", "\xFF" "a"}; std::vector<std::string> r; for (uint64_t i = 0; i < 2 * k && i < 6; i++) r.push_back(w[i]); return r; }
struct ZAccept {
  using C = Samc<uint32_t>; std::vector<std::string> v;
  C make(uint64_t k, uint64_t) { v = zooWords(k); return C(v.begin(), v.end()); }
  void change(C &c) { v = {"zz"}; c = C(v.begin(), v.end()); }
  void ask(const C &c) const { for (auto &s : v) sds_check(c.accept(s), kSame); char q[2]; q[0] = (char)sds_bits(8); q[1] = (char)sds_bits(8); bool in = false; for (auto &s : v) if (s.size() == 2) in |= (s[0] == q[0]) & (s[1] == q[1]); sds_check(c.accept(std::string_view(q, 2)) == in, kSame); c.size_in_bytes(); c.Write(sink()); }
};
struct ZDict {
  using C = SamcDict<uint32_t>; std::vector<std::string> v;
  C make(uint64_t k, uint64_t) { v = zooWords(k); return C(v.begin(), v.end()); }
  void change(C &c) { v = {"q", "zz"}; c = C(v.begin(), v.end()); }
  void ask(const C &c) const { for (auto &s : v) { uint64_t x = c.lookup(s); sds_check(x < v.size(), kSame); if (x < v.size()) sds_check(c.access(x) == s, kSame); } char q[1]; q[0] = (char)sds_bits(8); bool in = false; for (auto &s : v) if (s.size() == 1) in |= s[0] == q[0]; sds_check((c.lookup(std::string_view(q, 1)) != C::kSearchError) == in, kSame); c.size_in_bytes(); c.Write(sink()); }
};
struct ZTrie {
  using C = graph_util::Trie<uint32_t>; std::vector<std::string> k; std::vector<uint32_t> v;
  C make(uint64_t m, uint64_t) { C c; k = zooWords(m); for (auto &s : k) { v.push_back((uint32_t)sds_bits(32)); c.insert(s, v.back()); } return c; }
  void change(C &c) { k.push_back("zz"); v.push_back(5); c.insert("zz", 5); if (k.size() > 1) { v[0] = 6; c.insert(k[0], 6); } }
  void ask(C &c) const { for (uint64_t i = 0; i < k.size(); i++) { auto *p = c.traverse(k[i]); sds_check(p != nullptr, kSame); if (p) sds_check_eq(*p, v[i], kSame); } sds_check(!c.traverse("zzz"), kSame); frozen(c); }
  void frozen(const C &c) const { uint64_t a = 0, b = 0, t = 0; c.dfs([&](const auto &x, size_t) { a++; t += x.terminal(); }); c.bfs([&](const auto &, size_t) { b++; }); sds_check(a == c.size() && b == c.size() && t == k.size(), kSame); c.root().terminal(); c.node(0).item_index(); }
};
struct ZOracle {
  using C = FactorOracle; std::string t;
  C make(uint64_t k, uint64_t) { t = std::string("abcabda").substr(0, 2 * k + 1); return C(t.begin(), t.end()); }
  void change(C &c) { std::string o("zyz"); c = C(o.begin(), o.end()); t = o; }
  void ask(const C &c) const { sds_check(c.accept(t), kSame); sds_check(c.accept(std::string_view(t).substr(1)), kSame); sds_check(!c.accept(std::string_view("qqq")), kSame); size_t s = 0; c.image(s, (uint8_t)sds_bits(8)); FactorOracle::Exproler x(t); sds_check(c.accept(x), kSame); }
};
struct ZSuffix {
  using C = SuffixArray; std::string t;
  C make(uint64_t k, uint64_t) { t = std::string("banana$").substr(0, 2 * k + 1); return C(t); }
  void change(C &c) { t = "mississippi"; c = C(t); }
  void ask(const C &c) const { for (uint64_t i = 0; i < t.size(); i++) sds_check(c.char_at(i) == (uint8_t)t[i], kSame); sds_check(std::string(c.suffix(1)) == t.substr(1), kSame); sds_check(std::string(c.suffix(0, 1)) == t.substr(0, 1), kSame); c.WriteSA(sink()); c.WriteLCP(sink()); c.Write(sink()); }
};
// A fresh object. The in-place array reads storage it never wrote (by design): there the storage holds arbitrary bytes.
template <class Z> static typename Z::C *fresh(Z &z, uint64_t k, uint64_t j) { using C = typename Z::C; void *p = ::operator new(sizeof(C)); if (std::is_same_v<Z, ZPlace>) sds_havoc(p, sizeof(C)); return new (p) C(z.make(k, j)); }
#define ZOO(X) X(ZBits) X(ZRank<false>) X(ZRank<true>) X(ZFit) X(ZRows) X(ZSymbols) X(ZDac) X(ZTree) X(ZHeap) X(ZReset) X(ZPlace) X(ZMap) X(ZDyn) X(ZDynVec) X(ZAccept) X(ZDict) X(ZTrie) X(ZOracle) X(ZSuffix)
