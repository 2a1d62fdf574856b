// The trie maps keys to items.
#include "sds.h"
#include "rbtree.h"
#include <array>
#include <limits>
#include <queue>
#include <string>
#include <string_view>
#include <vector>
#include "sim_ds/string_util/graph_util.hpp"
SDS_HEAP_LIMIT(1048576)
using namespace sim_ds::graph_util;
// strings of up to three letters of a small alphabet: index 0 is the empty one
static uint64_t text(uint64_t idx, uint64_t pal, char *s) {
  static const unsigned char letters[4][3] = {{'a', 'b', 'c'}, {0, 'a', 0xFF}, {0xFF, 0x80, 0x7F}, {1, 0, 2}};
  uint64_t n = 0, c = 1; while (idx >= c) { idx -= c; c *= 3; n++; }
  for (uint64_t i = 0; i < n; i++) { s[i] = (char)letters[pal][idx % 3]; idx /= 3; }
  return n;
}
// a map from listed keys to items: later items win
struct Model { char key[8][4]; uint64_t len[8], item[8], n = 0; void put(const char *k, uint64_t l, uint64_t v) { for (uint64_t i = 0; i < l; i++) key[n][i] = k[i]; len[n] = l; item[n++] = v; } };
template <class T> static void ask(T &t, const Model &m, uint64_t qlen) {
  char q[4]; for (uint64_t i = 0; i < qlen; i++) q[i] = (char)sds_bits(8);
  bool in = false; uint64_t v = 0;
  for (uint64_t k = 0; k < m.n; k++) { if (m.len[k] != qlen) continue; bool h = true; for (uint64_t i = 0; i < qlen; i++) h &= m.key[k][i] == q[i]; in |= h; v = h ? m.item[k] : v; }
  auto *p = t.traverse(std::string_view(q, qlen));
  sds_check((p != nullptr) == in, "a key is found exactly if it was inserted");
  if (in) sds_check_eq(*p, v, "the item last inserted under the key");
}
template <class S> static void run(uint64_t a, uint64_t b, uint64_t c, uint64_t pal, uint64_t q) {
  Trie<uint32_t, S> t; Model m; uint64_t idx[3] = {a, b, c};
  for (int i = 0; i < 3; i++) {
    if (idx[i] == 99) continue;
    char s[4]; uint64_t n = text(idx[i], pal, s); uint32_t v = (uint32_t)sds_bits(32);
    auto *p = t.insert(std::string_view(s, n), v); m.put(s, n, v);
    sds_check_eq(*p, v, "insert returns the stored item");
  }
  ask(t, m, q);
}
SDS_WITNESS(W_pairs, "0-12;0-39,99;99;0-2;0-3|0-39;0-39,99;99;0-3;0-4")(uint64_t a, uint64_t b, uint64_t c, uint64_t pal, uint64_t q) { run<size_t>(a, b, c, pal, q); } SDS_END
SDS_WITNESS(W_narrow, "0-12;0-12,99;99;1;0-3")(uint64_t a, uint64_t b, uint64_t c, uint64_t pal, uint64_t q) { run<uint8_t>(a, b, c, pal, q); run<uint32_t>(a, b, c, pal, q); } SDS_END
SDS_WITNESS(W_triples, "0,1,4;0-12;0-12;1;0-3|0-39;0-39;0-39;0-3;0-4")(uint64_t a, uint64_t b, uint64_t c, uint64_t pal, uint64_t q) { run<size_t>(a, b, c, pal, q); } SDS_END
// walks visit every node once, at its depth
SDS_WITNESS(W_walk, "0-12;0-12;0-3|0-39;0-39;0-3")(uint64_t a, uint64_t b, uint64_t pal) {
  Trie<uint32_t> t; char s[4], r[4]; uint64_t n = text(a, pal, s), k = text(b, pal, r); t.insert(std::string_view(s, n), 1); t.insert(std::string_view(r, k), 2);
  uint64_t common = 0; while (common < n && common < k && s[common] == r[common]) common++;
  uint64_t nodes = 1 + n + 1 + k + 1 - common; bool same = n == k && common == n; if (same) nodes--;
  bool pre = !same && ((common == n && k > n && r[n] == 0) || (common == k && n > k && s[k] == 0)); if (pre) nodes--;
  sds_check_eq(t.size(), nodes, "number of nodes");
  uint64_t seen = 0, items = 0, sum = 0; t.dfs([&](const auto &x, size_t d) { seen++; items += x.terminal(); sum += d; });
  sds_check_eq(seen, nodes, "a depth-first walk visits every node once"); sds_check_eq(items, same ? 1 : 2, "one item per key");
  uint64_t seen2 = 0, sum2 = 0, last = 0; t.bfs([&](const auto &x, size_t d) { seen2++; sum2 += d; sds_check(d >= last, "a breadth-first walk goes by depth"); last = d; });
  sds_check_eq(seen2, nodes, "a breadth-first walk visits every node once"); sds_check_eq(sum, sum2, "both walks report the same depths");
} SDS_END
// many listed keys of mixed lengths with arbitrary items, inserted in listed orders with repetitions
SDS_WITNESS(W_many, "0-15;10,40;0-3|0-99;10,40,90;0-4")(uint64_t seed, uint64_t n, uint64_t qlen) {
  Trie<uint32_t> t; uint64_t x = seed * 0x9E3779B97F4A7C15ull + n; auto rnd = [&](uint64_t r) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % r; };
  std::vector<std::string> k; std::vector<uint32_t> v; uint64_t letters = 2 + seed % 5;
  for (uint64_t i = 0; i < n; i++) {
    std::string s; for (uint64_t l = rnd(seed % 2 ? 4 : 9); l--;) { uint64_t c = rnd(letters); s.push_back((char)(seed % 3 == 0 ? c : seed % 3 == 1 ? 'a' + c : 255 - c * 64)); }
    uint32_t item = (uint32_t)sds_bits(32); auto *p = t.insert(s, item); sds_check_eq(*p, item, "insert returns the stored item");
    bool found = false; for (uint64_t j = 0; j < k.size(); j++) if (k[j] == s) { v[j] = item; found = true; } if (!found) { k.push_back(s); v.push_back(item); }
  }
  for (uint64_t j = 0; j < k.size(); j++) { auto *p = t.traverse(k[j]); sds_check(p != nullptr, "a key is found exactly if it was inserted"); if (p) sds_check_eq(*p, v[j], "the item last inserted under the key"); }
  char q[4]; for (uint64_t i = 0; i < qlen; i++) q[i] = (char)sds_bits(8);
  bool in = false; uint64_t item = 0; for (uint64_t j = 0; j < k.size(); j++) { if (k[j].size() != qlen) continue; bool h = true; for (uint64_t i = 0; i < qlen; i++) h &= k[j][i] == q[i]; in |= h; item = h ? v[j] : item; }
  auto *p = t.traverse(std::string_view(q, qlen)); sds_check((p != nullptr) == in, "a key is found exactly if it was inserted"); if (in) sds_check_eq(*p, item, "the item last inserted under the key");
  uint64_t items = 0; t.dfs([&](const auto &y, size_t) { items += y.terminal(); }); sds_check_eq(items, k.size(), "one item per key");
} SDS_END
