// Minimal ROBDD package with complement edges (no GC, node budget).
// Handle: (node<<1)|complement.  TRUE = 0, FALSE = 1.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <stdexcept>
#include <string>

typedef uint32_t B;
static const B BT = 0, BF = 1;

struct BudgetExceeded : std::runtime_error { using std::runtime_error::runtime_error; };

class Bdd {
  struct Node { uint32_t var; B lo, hi; };
  std::vector<Node> n_;
  std::vector<uint32_t> buckets_; // open hashing: heads
  std::vector<uint32_t> next_;
  struct CE { B a, b, c; uint32_t op; B r; };
  std::vector<CE> cache_;
  uint32_t nvars_ = 0;
  static constexpr uint32_t NIL = 0xffffffffu;
  static inline uint64_t h3(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (c + 0x165667B1ull) * 0xD6E8FEB86659FD93ull;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x;
  }
public:
  size_t limit = 24u << 20;      // nodes in total
  size_t softlimit = ~size_t(0); // temporary limit (for "try" operations)
  Bdd() { reset(); }
  void reset() {
    n_.clear(); next_.clear();
    n_.push_back({0xffffffffu, 0, 0}); next_.push_back(NIL);
    buckets_.assign(1 << 16, NIL);
    cache_.assign(1 << 18, CE{~0u, ~0u, ~0u, ~0u, 0});
    nvars_ = 0;
  }
  size_t nodes() const { return n_.size(); }
  uint32_t nvars() const { return nvars_; }
  static B Not(B a) { return a ^ 1; }
  uint32_t var(B a) const { return n_[a >> 1].var; }
  B lo(B a) const { return n_[a >> 1].lo ^ (a & 1); }
  B hi(B a) const { return n_[a >> 1].hi ^ (a & 1); }
  B mk(uint32_t v, B lo, B hi) {
    if (lo == hi) return lo;
    B c = 0;
    if (hi & 1) { c = 1; lo ^= 1; hi ^= 1; }
    uint64_t h = h3(v, lo, hi) & (buckets_.size() - 1);
    for (uint32_t i = buckets_[h]; i != NIL; i = next_[i])
      if (n_[i].var == v && n_[i].lo == lo && n_[i].hi == hi) return (i << 1) | c;
    if (n_.size() >= limit || n_.size() >= softlimit) throw BudgetExceeded("bdd node budget");
    if (n_.size() > buckets_.size() * 2) grow();
    h = h3(v, lo, hi) & (buckets_.size() - 1);
    uint32_t id = n_.size();
    n_.push_back({v, lo, hi}); next_.push_back(buckets_[h]); buckets_[h] = id;
    return (id << 1) | c;
  }
  void grow() {
    buckets_.assign(buckets_.size() * 4, NIL);
    for (uint32_t i = 1; i < n_.size(); i++) {
      uint64_t h = h3(n_[i].var, n_[i].lo, n_[i].hi) & (buckets_.size() - 1);
      next_[i] = buckets_[h]; buckets_[h] = i;
    }
    if (cache_.size() < (1u << 22)) cache_.assign(cache_.size() * 2, CE{~0u, ~0u, ~0u, ~0u, 0});
  }
  B newVar() { return mk(nvars_++, BF, BT); }
  B varHandle(uint32_t v) { return mk(v, BF, BT); }
  B And(B a, B b) {
    if (a == BF || b == BF || a == Not(b)) return BF;
    if (a == BT) return b;
    if (b == BT || a == b) return a;
    if (a > b) std::swap(a, b);
    CE &e = cache_[h3(a, b, 1) & (cache_.size() - 1)];
    if (e.a == a && e.b == b && e.op == 1) return e.r;
    uint32_t va = var(a), vb = var(b), v = std::min(va, vb);
    B a0 = va == v ? lo(a) : a, a1 = va == v ? hi(a) : a;
    B b0 = vb == v ? lo(b) : b, b1 = vb == v ? hi(b) : b;
    B l = And(a0, b0), h = And(a1, b1);
    B r = mk(v, l, h);
    CE &f = cache_[h3(a, b, 1) & (cache_.size() - 1)];
    f = CE{a, b, 0, 1, r};
    return r;
  }
  B Or(B a, B b) { return Not(And(Not(a), Not(b))); }
  B Xor(B a, B b) {
    B c = (a & 1) ^ (b & 1); a &= ~1u; b &= ~1u;
    if (a == b) return BF ^ c;       // x^x = 0
    if (a == BT) return Not(b) ^ c;
    if (b == BT) return Not(a) ^ c;
    if (a > b) std::swap(a, b);
    CE &e = cache_[h3(a, b, 2) & (cache_.size() - 1)];
    if (e.a == a && e.b == b && e.op == 2) return e.r ^ c;
    uint32_t va = var(a), vb = var(b), v = std::min(va, vb);
    B a0 = va == v ? lo(a) : a, a1 = va == v ? hi(a) : a;
    B b0 = vb == v ? lo(b) : b, b1 = vb == v ? hi(b) : b;
    B l = Xor(a0, b0), h = Xor(a1, b1);
    B r = mk(v, l, h);
    CE &f = cache_[h3(a, b, 2) & (cache_.size() - 1)];
    f = CE{a, b, 0, 2, r};
    return r ^ c;
  }
  B Ite(B f, B g, B h) {
    if (f == BT) return g;
    if (f == BF) return h;
    if (g == h) return g;
    if (g == BT) return Or(f, h);
    if (g == BF) return And(Not(f), h);
    if (h == BT) return Or(Not(f), g);
    if (h == BF) return And(f, g);
    if (g == Not(h)) return Not(Xor(f, g));
    if (f & 1) { std::swap(g, h); f ^= 1; }
    B c = g & 1; g ^= c; h ^= c;
    CE &e = cache_[h3(f, g * 7919ull + 3, h + 5) & (cache_.size() - 1)];
    if (e.a == f && e.b == g && e.c == h && e.op == 3) return e.r ^ c;
    uint32_t v = std::min(var(f), std::min(var(g), var(h)));
    B f0 = var(f) == v ? lo(f) : f, f1 = var(f) == v ? hi(f) : f;
    B g0 = var(g) == v ? lo(g) : g, g1 = var(g) == v ? hi(g) : g;
    B h0 = var(h) == v ? lo(h) : h, h1 = var(h) == v ? hi(h) : h;
    B l = Ite(f0, g0, h0), hh = Ite(f1, g1, h1);
    B r = mk(v, l, hh);
    CE &k = cache_[h3(f, g * 7919ull + 3, h + 5) & (cache_.size() - 1)];
    k = CE{f, g, h, 3, r};
    return r ^ c;
  }
  // generalized cofactor: agrees with f wherever c holds
  B Constrain(B f, B c) {
    if (c == BT || f == BT || f == BF) return f;
    if (c == BF) return BF;
    if (f == c) return BT;
    if (f == Not(c)) return BF;
    B cm = f & 1; f ^= cm;
    CE &e = cache_[h3(f, c, 4) & (cache_.size() - 1)];
    if (e.a == f && e.b == c && e.op == 4) return e.r ^ cm;
    uint32_t v = std::min(var(f), var(c));
    B f0 = var(f) == v ? lo(f) : f, f1 = var(f) == v ? hi(f) : f;
    B c0 = var(c) == v ? lo(c) : c, c1 = var(c) == v ? hi(c) : c;
    B r;
    if (c0 == BF) r = Constrain(f1, c1);
    else if (c1 == BF) r = Constrain(f0, c0);
    else r = mk(v, Constrain(f0, c0), Constrain(f1, c1));
    CE &k = cache_[h3(f, c, 4) & (cache_.size() - 1)];
    k = CE{f, c, 0, 4, r};
    return r ^ cm;
  }
  bool eval(B f, const std::vector<uint8_t> &asg) const {
    while ((f >> 1) != 0) {
      uint32_t v = var(f);
      bool x = v < asg.size() && asg[v];
      f = x ? hi(f) : lo(f);
    }
    return f == BT;
  }
  void support(B f, std::vector<uint32_t> &out) const {
    std::vector<uint32_t> st{f >> 1}; std::unordered_map<uint32_t, bool> seen, sv;
    while (!st.empty()) {
      uint32_t x = st.back(); st.pop_back();
      if (!x || seen[x]) continue;
      seen[x] = true;
      if (!sv[n_[x].var]) { sv[n_[x].var] = true; out.push_back(n_[x].var); }
      st.push_back(n_[x].lo >> 1); st.push_back(n_[x].hi >> 1);
    }
    std::sort(out.begin(), out.end());
  }
  // satisfying assignment: fills asg (already filled with preferred values) so that f holds
  bool sat(B f, std::vector<uint8_t> &asg) const {
    if (f == BF) return false;
    while ((f >> 1) != 0) {
      uint32_t v = var(f);
      if (asg.size() <= v) asg.resize(v + 1, 0);
      B p = asg[v] ? hi(f) : lo(f);
      if (p == BF) { asg[v] ^= 1; p = asg[v] ? hi(f) : lo(f); }
      f = p;
    }
    return f == BT;
  }
};
