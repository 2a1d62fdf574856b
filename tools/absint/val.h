// Value domain of the abstract interpreter:
//   packed linear forms  c + sum k_i * a_i  (mod 2^w)   over atoms a_i, where an atom is
//     - a boolean function of the unknown inputs (canonical BDD node), range [0,1]
//     - an integer unknown with a range [0,hi] (sizes, indices, object addresses)
//   reduced with a per-bit view (vector of BDDs).
#pragma once
#include "bdd.h"
#include <memory>
#include <map>
#include <set>
#include <optional>
#include <cstring>
#include <random>
#include <functional>

typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

struct Val;
typedef std::shared_ptr<const Val> V;
typedef std::pair<uint32_t, u64> Term;

struct Val {
  enum K { INT, FP, AGG, TOP } k = INT;
  unsigned w = 0;
  u64 c = 0;
  std::vector<Term> t;
  double d = 0;
  std::vector<V> el;
  std::string why;
  mutable std::shared_ptr<std::vector<B>> bits;
  mutable bool bitsFailed = false;
  bool isInt() const { return k == INT; }
  bool isConst() const { return k == INT && t.empty(); }
  bool isTop() const { return k == TOP; }
};

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline bool isIntAtom(uint32_t a) { return a & 1; }

// integer linear form over Z
struct DLin {
  std::vector<std::pair<uint32_t, i128>> t;
  i128 c = 0;
  bool operator<(const DLin &o) const { if (c != o.c) return c < o.c; return t < o.t; }
  bool operator==(const DLin &o) const { return c == o.c && t == o.t; }
};

struct IntAtom { u64 hi; std::string name; V def; int obj = -1; };

struct PF { bool ok = false; u64 c = 0; struct T { uint32_t a; bool neg; u64 k; u64 hi; }; std::vector<T> t; u128 max = 0; };

class Dom {
public:
  Bdd bdd;
  std::vector<IntAtom> ints;
  struct VarInfo { enum K { BASE, UNDEF, OPAQUE, PRED } k; int word = -1; int bit = 0; std::string name; };
  std::vector<VarInfo> vars;
  struct Opaque { V def; std::vector<B> y; };
  std::vector<Opaque> opaques;
  std::map<uint32_t, std::pair<int,int>> opaqueBitOf; // atom handle -> (opaque, bit)
  std::map<std::pair<unsigned, std::pair<u64, std::vector<Term>>>, V> opaqueMemo;
  std::map<DLin, B> predMemo; std::map<uint32_t, DLin> predDef; // var -> d (>=0)
  B pc = BT; const std::vector<DLin> *cons = nullptr;
  bool haveUndef = false, haveDerived = false, haveIntOpaque = false;
  V topv; V c0[65], c1b;

  Dom() { auto p = std::make_shared<Val>(); p->k = Val::TOP; topv = p; }
  void reset() {
    bdd.reset(); ints.clear(); vars.clear(); opaques.clear(); opaqueBitOf.clear(); opaqueMemo.clear();
    predMemo.clear(); predDef.clear(); pc = BT; cons = nullptr; haveUndef = haveDerived = haveIntOpaque = false;
  }
  // ---- constructors
  V cst(unsigned w, u64 c) { auto p = std::make_shared<Val>(); p->w = w; p->c = c & maskw(w); return p; }
  V fp(double d) { auto p = std::make_shared<Val>(); p->k = Val::FP; p->d = d; return p; }
  V agg(std::vector<V> e) { auto p = std::make_shared<Val>(); p->k = Val::AGG; p->el = std::move(e); return p; }
  V top(const std::string &why) { auto p = std::make_shared<Val>(); p->k = Val::TOP; p->why = why; return p; }
  B newVar(VarInfo::K k, const std::string &n) {
    B b = bdd.newVar(); vars.push_back({k, -1, 0, n});
    if (k == VarInfo::UNDEF) haveUndef = true;
    return b;
  }
  uint32_t newInt(u64 hi, const std::string &n) { ints.push_back({hi, n, nullptr, -1}); return ((ints.size() - 1) << 1) | 1; }
  u64 hiOf(uint32_t a) const { return isIntAtom(a) ? ints[a >> 1].hi : 1; }
  V fromAtom(unsigned w, uint32_t a, u64 k = 1) { std::vector<Term> t{{a, k}}; return lin(w, 0, std::move(t)); }
  V fromB(unsigned w, B b) { // 0/1 value
    if (b == BT) return cst(w, 1);
    if (b == BF) return cst(w, 0);
    if (b & 1) return lin(w, 1, {{b ^ 1, maskw(w)}});
    return lin(w, 0, {{b, 1}});
  }
  V lin(unsigned w, u64 c, std::vector<Term> t) {
    auto p = std::make_shared<Val>();
    u64 m = maskw(w);
    bool sorted = true;
    for (size_t i = 1; i < t.size(); i++) if (t[i - 1].first >= t[i].first) { sorted = false; break; }
    if (!sorted) std::sort(t.begin(), t.end());
    size_t o = 0;
    for (size_t i = 0; i < t.size();) {
      uint32_t a = t[i].first; u64 k = 0;
      while (i < t.size() && t[i].first == a) k += t[i++].second;
      k &= m;
      if (!k) continue;
      if (a == BT) { c += k; continue; }
      t[o++] = {a, k};
    }
    t.resize(o);
    p->w = w; p->c = c & m; p->t = std::move(t);
    if (!opaques.empty() || haveIntOpaque) return unopaque(p);
    return p;
  }
  static bool same(const V &a, const V &b) {
    if (a == b) return true;
    if (a->k != b->k) return false;
    if (a->k == Val::INT) return a->w == b->w && a->c == b->c && a->t == b->t;
    if (a->k == Val::FP) return memcmp(&a->d, &b->d, 8) == 0;
    if (a->k == Val::AGG) {
      if (a->el.size() != b->el.size()) return false;
      for (size_t i = 0; i < a->el.size(); i++) if (!same(a->el[i], b->el[i])) return false;
      return true;
    }
    return false;
  }
  // ---- opaque words (values known only through a modular definition)
  V opaque(const V &v) {
    auto key = std::make_pair(v->w, std::make_pair(v->c, v->t));
    auto it = opaqueMemo.find(key);
    if (it != opaqueMemo.end()) return it->second;
    bool anyInt = false;
    for (auto &x : v->t) if (isIntAtom(x.first)) anyInt = true;
    haveDerived = true;
    V r;
    if (anyInt) {
      haveIntOpaque = true;
      uint32_t a = newInt(maskw(v->w), "mod");
      ints[a >> 1].def = v;
      auto p = std::make_shared<Val>(); p->w = v->w; p->t = {{a, 1}};
      r = p;
    } else {
      Opaque o; o.def = v;
      auto p = std::make_shared<Val>(); p->w = v->w;
      int id = opaques.size();
      for (unsigned i = 0; i < v->w; i++) {
        B b = newVar(VarInfo::OPAQUE, "w"); vars.back().word = id; vars.back().bit = i;
        o.y.push_back(b); opaqueBitOf[b] = {id, (int)i};
        p->t.push_back({b, 1ull << i});
      }
      std::sort(p->t.begin(), p->t.end());
      p->bits = std::make_shared<std::vector<B>>(o.y);
      opaques.push_back(std::move(o));
      r = p;
    }
    opaqueMemo[key] = r;
    return r;
  }
  V unopaque(std::shared_ptr<const Val> p) {
    std::vector<Term> t; u64 c = p->c; bool ch = false; u64 m = maskw(p->w);
    std::set<int> done;
    std::map<uint32_t, u64> cm;
    bool need = false;
    for (auto &x : p->t) if (isIntAtom(x.first) ? (bool)ints[x.first >> 1].def : opaqueBitOf.count(x.first)) { need = true; break; }
    if (!need) return p;
    for (auto &x : p->t) cm[x.first] = x.second;
    std::vector<std::pair<V, u64>> subs;
    for (auto &x : p->t) {
      auto it = cm.find(x.first);
      if (it == cm.end()) continue;
      if (isIntAtom(x.first)) {
        auto &d = ints[x.first >> 1].def;
        if (d && d->w >= p->w && p->w < 64 + 1 && d->w >= p->w) {
          // a == def mod 2^{def.w}; valid because p.w <= def.w
          subs.push_back({d, it->second}); cm.erase(it); ch = true;
        }
      } else {
        auto ob = opaqueBitOf.find(x.first);
        if (ob == opaqueBitOf.end() || done.count(ob->second.first)) continue;
        int id = ob->second.first; done.insert(id);
        auto &o = opaques[id];
        if (o.def->w < p->w) continue;
        auto z = cm.find(o.y[0]);
        if (z == cm.end()) continue;
        u64 k = z->second; bool all = true;
        for (unsigned i = 0; i < o.y.size() && all; i++) {
          u64 want = i < 64 ? ((k << i) & m) : 0;
          auto q = cm.find(o.y[i]);
          u64 got = q == cm.end() ? 0 : q->second;
          if (got != want) all = false;
        }
        if (!all) continue;
        for (auto y : o.y) cm.erase(y);
        subs.push_back({o.def, k}); ch = true;
      }
    }
    if (!ch) return p;
    // Do not undo an opaque word that is used as a plain value (k==1, sole term): keep it canonical.
    if (cm.empty() && subs.size() == 1 && subs[0].second == 1 && c == 0 && subs[0].first->w == p->w) {
      // result is def mod 2^w
    }
    for (auto &x : cm) t.push_back(x);
    for (auto &s : subs) { c += s.first->c * s.second; for (auto &x : s.first->t) t.push_back({x.first, x.second * s.second}); }
    return lin(p->w, c, std::move(t));
  }
  // ---- exact non-wrapping forms
  PF pf(const Val &v) {
    PF r; u64 m = maskw(v.w);
    auto total = [&](PF &q) { u128 s = q.c; for (auto &x : q.t) { u128 add = (u128)x.k * x.hi; s += add; if (s > ((u128)1 << 100)) break; } q.max = s; q.ok = s <= m; };
    r.c = v.c;
    for (auto &x : v.t) r.t.push_back({x.first, false, x.second, hiOf(x.first)});
    total(r);
    if (r.ok) return r;
    PF q; q.c = v.c; int half = -1; u64 h = 1ull << (v.w - 1);
    for (auto &x : v.t) {
      u64 k = x.second, hi = hiOf(x.first);
      if (k > h) { u64 kk = (0 - k) & m; q.c = (q.c - (kk * hi & m)) & m; q.t.push_back({x.first, true, kk, hi}); }
      else { if (k == h && v.w > 1) half = q.t.size(); q.t.push_back({x.first, false, k, hi}); }
    }
    if (half >= 0 && (q.c & h) && q.t[half].hi == 1) { q.t[half].neg = true; q.c = (q.c - h) & m; }
    total(q);
    if (q.ok) return q;
    return r;
  }
  V fromPF(unsigned w, const PF &q) {
    std::vector<Term> t; u64 c = q.c;
    for (auto &x : q.t) { if (!x.k) continue; if (x.neg) { c += x.k * x.hi; t.push_back({x.a, 0 - x.k}); } else t.push_back({x.a, x.k}); }
    return lin(w, c, std::move(t));
  }
  // ---- bit view
  bool slicedFrom(const PF &q, unsigned w, std::vector<B> &out) {
    // disjoint coefficient bits
    u64 used = q.c & maskw(w);
    for (auto &x : q.t) { if (isIntAtom(x.a)) return false; u64 k = x.k & maskw(w); if (k & used) return false; used |= k; }
    out.assign(w, BF);
    for (unsigned i = 0; i < w; i++) if (q.c >> i & 1) out[i] = BT;
    for (auto &x : q.t) { u64 k = x.k & maskw(w); while (k) { int i = __builtin_ctzll(k); k &= k - 1; out[i] = x.neg ? x.a ^ 1 : x.a; } }
    return true;
  }
  const std::vector<B> *bitsOf(const V &v, bool force = true) {
    if (v->k != Val::INT) return nullptr;
    if (v->bits) return v->bits.get();
    if (v->bitsFailed && !force) return nullptr;
    std::vector<B> out; u64 m = maskw(v->w);
    for (auto &x : v->t) if (isIntAtom(x.first)) return nullptr;
    // 1. plain coefficients
    PF r; r.c = v->c;
    for (auto &x : v->t) r.t.push_back({x.first, false, x.second, 1});
    bool ok = slicedFrom(r, v->w, out);
    if (!ok) { // 2. polarity: negative coefficients become complemented literals
      PF q; q.c = v->c; u64 h = 1ull << (v->w - 1); int half = -1;
      for (auto &x : v->t) {
        if (x.second > h) { u64 kk = (0 - x.second) & m; q.c = (q.c - kk) & m; q.t.push_back({x.first, true, kk, 1}); }
        else { if (x.second == h) half = q.t.size(); q.t.push_back({x.first, false, x.second, 1}); }
      }
      if (half >= 0 && (q.c & h)) { q.t[half].neg = true; q.c = (q.c - h) & m; }
      ok = slicedFrom(q, v->w, out);
      if (!ok && v->w > 1 && !v->bitsFailed) { // 3. adder
        size_t dense = 0; for (auto &x : q.t) if (__builtin_popcountll(x.k) > 1) dense++;
        // a count repeats its weights; a product has one weight per bit (kept as an opaque word instead)
        std::set<u64> weights; for (auto &x : q.t) weights.insert(x.k);
        if (q.t.size() <= 140 && (dense <= 10 || q.t.size() <= 13 || (dense <= 32 && weights.size() * 3 <= q.t.size() * 2))) {
          size_t save = bdd.softlimit; bdd.softlimit = std::min(bdd.limit, bdd.nodes() + 400000);
          try { out = adder(q, v->w); ok = true; } catch (BudgetExceeded &) { ok = false; }
          bdd.softlimit = save;
        }
      } else if (!ok && v->w == 1) {
        B x = v->c & 1 ? BT : BF; for (auto &y : v->t) x = bdd.Xor(x, y.first);
        out = {x}; ok = true;
      }
    }
    if (!ok) { v->bitsFailed = true; if (!force) return nullptr; V o = opaque(v); v->bits = o->bits; return v->bits ? v->bits.get() : nullptr; }
    v->bits = std::make_shared<std::vector<B>>(std::move(out));
    return v->bits.get();
  }
  std::vector<B> adder(const PF &q, unsigned w) {
    std::vector<B> s(w, BF);
    for (unsigned i = 0; i < w; i++) if (q.c >> i & 1) s[i] = BT;
    for (auto &x : q.t) {
      B l = x.neg ? x.a ^ 1 : x.a; B carry = BF; u64 k = x.k;
      for (unsigned i = __builtin_ctzll(k ? k : 1); i < w; i++) {
        B y = (k >> i & 1) ? l : BF;
        if (y == BF && carry == BF) { if (i >= 63 || (k >> (i + 1)) == 0) break; continue; }
        B xy = bdd.Xor(s[i], y); B ns = bdd.Xor(xy, carry);
        B nc = bdd.Or(bdd.And(s[i], y), bdd.And(carry, xy));
        s[i] = ns; carry = nc;
      }
    }
    return s;
  }
  V fromBits(const std::vector<B> &b) {
    unsigned w = b.size(); u64 c = 0; std::vector<Term> t; t.reserve(w);
    for (unsigned i = 0; i < w; i++) {
      u64 k = 1ull << i;
      if (b[i] == BT) c += k; else if (b[i] == BF) {}
      else if (b[i] & 1) { c += k; t.push_back({b[i] ^ 1, 0 - k}); }
      else t.push_back({b[i], k});
    }
    V v = lin(w, c, std::move(t));
    if (!v->bits) v->bits = std::make_shared<std::vector<B>>(b);
    return v;
  }
  bool boolOnly(const Val &v) { for (auto &x : v.t) if (isIntAtom(x.first)) return false; return true; }
  // recognise  value(bits over few vars) = c0 + sum k_i*var_i  (e.g. a population-count table)
  V linearize(const std::vector<B> &b) {
    unsigned w = b.size(); std::vector<uint32_t> sup;
    for (B x : b) { std::vector<uint32_t> s; bdd.support(x, s); sup.insert(sup.end(), s.begin(), s.end()); std::sort(sup.begin(), sup.end()); sup.erase(std::unique(sup.begin(), sup.end()), sup.end()); if (sup.size() > 70) return nullptr; }
    std::vector<uint8_t> asg(bdd.nvars(), 0);
    auto ev = [&] { u64 r = 0; for (unsigned i = 0; i < w; i++) if (bdd.eval(b[i], asg)) r |= 1ull << i; return r; };
    u64 z = ev(); std::vector<Term> t;
    for (auto v : sup) { asg[v] = 1; u64 k = (ev() - z) & maskw(w); asg[v] = 0; if (k) t.push_back({bdd.varHandle(v), k}); }
    auto p = std::make_shared<Val>(); p->w = w; p->c = z; std::sort(t.begin(), t.end()); p->t = t;
    V q = p; auto bb = bitsOf(q, false);
    if (!bb || *bb != b) return nullptr;
    return q;
  }
  // ---- arithmetic
  V add(const V &a, const V &b) {
    if (a->isTop()) return a; if (b->isTop()) return b;
    if (a->isConst() && b->isConst()) return cst(a->w, a->c + b->c);
    std::vector<Term> t; t.reserve(a->t.size() + b->t.size());
    std::merge(a->t.begin(), a->t.end(), b->t.begin(), b->t.end(), std::back_inserter(t), [](const Term &x, const Term &y) { return x.first < y.first; });
    return lin(a->w, a->c + b->c, std::move(t));
  }
  V mulc(const V &a, u64 k) {
    if (a->isTop()) return a;
    std::vector<Term> t = a->t; for (auto &x : t) x.second *= k;
    return lin(a->w, a->c * k, std::move(t));
  }
  V sub(const V &a, const V &b) { return add(a, mulc(b, ~0ull)); }
  V mul(const V &a, const V &b) {
    if (a->isTop()) return a; if (b->isTop()) return b;
    if (a->isConst()) return mulc(b, a->c);
    if (b->isConst()) return mulc(a, b->c);
    const V *x = &a, *y = &b;
    if (!boolOnly(*a) || a->t.size() > b->t.size()) std::swap(x, y);
    if (!boolOnly(**x) || ((*x)->t.size() > 1 && (*x)->t.size() * (*y)->t.size() > 4096)) return top("product of two unknowns");
    V r = mulc(*y, (*x)->c);
    for (auto &tt : (*x)->t) {
      V p = gate(tt.first, *y); if (p->isTop()) return p;
      r = add(r, mulc(p, tt.second));
    }
    return r;
  }
  V gate(B b, const V &v) { // b ? v : 0
    if (b == BT) return v; if (b == BF) return cst(v->w, 0);
    std::vector<Term> t; u64 c = 0;
    auto addB = [&](B x, u64 k) { if (x == BT) c += k; else if (x == BF) {} else if (x & 1) { c += k; t.push_back({x ^ 1, 0 - k}); } else t.push_back({x, k}); };
    addB(b, v->c);
    for (auto &x : v->t) {
      if (isIntAtom(x.first)) return top("boolean times integer unknown");
      addB(bdd.And(b, x.first), x.second);
    }
    return lin(v->w, c, std::move(t));
  }
  V mux(B f, const V &a, const V &b) { // exact or null
    if (f == BT) return a; if (f == BF) return b;
    if (same(a, b)) return a;
    if (a->k == Val::AGG && b->k == Val::AGG && a->el.size() == b->el.size()) {
      std::vector<V> e; for (size_t i = 0; i < a->el.size(); i++) { V x = mux(f, a->el[i], b->el[i]); if (!x) return nullptr; e.push_back(x); }
      return agg(e);
    }
    if (a->k != Val::INT || b->k != Val::INT || a->w != b->w) return nullptr;
    auto x = bitsOf(a, false), y = bitsOf(b, false);
    bool big = a->t.size() + b->t.size() > 160;
    if (x && y && !big) {
      std::vector<B> r(a->w);
      for (unsigned i = 0; i < a->w; i++) r[i] = (*x)[i] == (*y)[i] ? (*x)[i] : bdd.Ite(f, (*x)[i], (*y)[i]);
      // small differences keep their arithmetic structure
      return fromBits(r);
    }
    V d = sub(a, b); V g = gate(f, d);
    if (g->isTop()) return nullptr;
    return add(b, g);
  }
  V trunc(const V &v, unsigned w) {
    if (v->k != Val::INT) return v;
    if (w >= v->w) return v;
    auto r = lin(w, v->c, v->t);
    if (v->bits && !r->bits && r->t.size()) r->bits = std::make_shared<std::vector<B>>(v->bits->begin(), v->bits->begin() + w);
    return r;
  }
  V zext(const V &v, unsigned w) {
    if (v->k != Val::INT || w <= v->w) return v;
    if (v->isConst()) return cst(w, v->c);
    PF q = pf(*v);
    if (q.ok) return fromPF(w, q);
    if (auto b = bitsOf(v)) { std::vector<B> x = *b; x.resize(w, BF); return fromBits(x); }
    V o = opaque(v); // integer unknown
    return lin(w, o->c, o->t);
  }
  V sext(const V &v, unsigned w) {
    if (v->k != Val::INT || w <= v->w) return v;
    if (v->isConst()) return cst(w, (v->c >> (v->w - 1) & 1) ? v->c | ~maskw(v->w) : v->c);
    if (v->w == 1) { auto b = bitsOf(v); if (!b) return top("sext i1"); return mulc(fromB(w, (*b)[0]), ~0ull); }
    // v + 2^{w-1} exact => sext = that - 2^{w-1}
    V s = add(v, cst(v->w, 1ull << (v->w - 1)));
    PF q = pf(*s);
    if (q.ok) return sub(fromPF(w, q), cst(w, 1ull << (v->w - 1)));
    if (auto b = bitsOf(v)) { std::vector<B> x = *b; x.resize(w, x.back()); return fromBits(x); }
    V o = opaque(s);
    return sub(lin(w, o->c, o->t), cst(w, 1ull << (v->w - 1)));
  }
  V lshr(const V &v, unsigned k) {
    if (v->k != Val::INT || k == 0) return v;
    if (k >= v->w) return cst(v->w, 0);
    if (v->isConst()) return cst(v->w, v->c >> k);
    PF q = pf(*v);
    if (q.ok && splitOK(q, k)) {
      PF r; r.c = q.c >> k;
      for (auto &x : q.t) if (x.k >> k) r.t.push_back({x.a, x.neg, x.k >> k, x.hi});
      return fromPF(v->w, r);
    }
    if (auto b = bitsOf(v)) { std::vector<B> x(b->begin() + k, b->end()); x.resize(v->w, BF); return fromBits(x); }
    if (q.ok) { // split off an integer unknown
      V o = opaqueShift(v, q, k); return o;
    }
    V o = opaque(v);
    if (same(o, v)) return top("shift of integer unknown");
    return lshr(o, k);
  }
  V opaqueShift(const V &, const PF &, unsigned) { return top("shift splits an integer unknown"); }
  bool splitOK(const PF &q, unsigned k) {
    u128 s = q.c & maskw(k);
    for (auto &x : q.t) s += (u128)(x.k & maskw(k)) * x.hi;
    return s <= maskw(k);
  }
  V ashr(const V &v, unsigned k, bool exact = false) {
    if (v->k != Val::INT || k == 0) return v;
    if (v->isConst()) { i64 s = (i64)(v->c << (64 - v->w)) >> (64 - v->w); return cst(v->w, (u64)(s >> k)); }
    V s = add(v, cst(v->w, 1ull << (v->w - 1)));
    PF q = pf(*s);
    if (q.ok && splitOK(q, k)) { // (v + 2^{w-1}) >> k, minus 2^{w-1-k}
      PF r; r.c = q.c >> k;
      for (auto &x : q.t) if (x.k >> k) r.t.push_back({x.a, x.neg, x.k >> k, x.hi});
      return sub(fromPF(v->w, r), cst(v->w, (1ull << (v->w - 1)) >> k));
    }
    if (auto b = bitsOf(v)) { std::vector<B> x(b->begin() + k, b->end()); x.resize(v->w, b->back()); return fromBits(x); }
    (void)exact;
    return top("ashr of integer unknown");
  }
  V shl(const V &v, unsigned k) { if (k >= v->w) return cst(v->w, 0); return mulc(v, 1ull << k); }
  V bitop(const V &a, const V &b, int op) { // 0 and 1 or 2 xor
    auto x = bitsOf(a), y = bitsOf(b);
    if (!x || !y) return top("bitwise operation on integer unknown");
    std::vector<B> r(a->w);
    for (unsigned i = 0; i < a->w; i++)
      r[i] = op == 0 ? bdd.And((*x)[i], (*y)[i]) : op == 1 ? bdd.Or((*x)[i], (*y)[i]) : bdd.Xor((*x)[i], (*y)[i]);
    return fromBits(r);
  }
  bool isSliced(const V &v) { // cheap bit view available
    if (v->bits) return true;
    if (v->t.size() > 64 || !boolOnly(*v)) return false;
    u64 used = v->c; for (auto &x : v->t) { if (x.second & used) return false; used |= x.second; }
    return true;
  }
  V and_(const V &a, const V &b) {
    if (a->isTop()) return a; if (b->isTop()) return b;
    if (a->isConst() && b->isConst()) return cst(a->w, a->c & b->c);
    if (b->isConst()) return andc(a, b->c);
    if (a->isConst()) return andc(b, a->c);
    if (same(a, b)) return a;
    // x & -x , generic: bits
    return bitop(a, b, 0);
  }
  V andc(const V &v, u64 m) {
    m &= maskw(v->w);
    if (m == maskw(v->w)) return v;
    if (m == 0) return cst(v->w, 0);
    if (isSliced(v)) { auto b = bitsOf(v); std::vector<B> r = *b; for (unsigned i = 0; i < v->w; i++) if (!(m >> i & 1)) r[i] = BF; return fromBits(r); }
    V r = cst(v->w, 0); u64 mm = m; bool fail = false;
    while (mm) {
      unsigned s = __builtin_ctzll(mm); unsigned e = s; while (e < v->w && (mm >> e & 1)) e++;
      V lo = e < v->w ? trunc(v, e) : v;
      PF q = pf(*lo);
      if (!q.ok || !splitOK(q, s)) { fail = true; break; }
      PF z; z.c = q.c >> s;
      for (auto &x : q.t) if (x.k >> s) z.t.push_back({x.a, x.neg, x.k >> s, x.hi});
      r = add(r, shl(fromPF(v->w, z), s));
      if (e >= 64) mm = 0; else mm &= ~maskw(e);
    }
    if (!fail) return r;
    if (auto b = bitsOf(v)) { std::vector<B> x = *b; for (unsigned i = 0; i < v->w; i++) if (!(m >> i & 1)) x[i] = BF; return fromBits(x); }
    // low mask of an integer unknown: opaque remainder
    if ((m & (m + 1)) == 0) { unsigned e = __builtin_popcountll(m); return zext(trunc(v, e), v->w); }
    return top("mask of integer unknown");
  }
  u64 maybeBits(const V &v) { // over-approximation of possibly-set bits
    if (v->isConst()) return v->c;
    if (isSliced(v)) { auto b = bitsOf(v); u64 r = 0; for (unsigned i = 0; i < v->w; i++) if ((*b)[i] != BF) r |= 1ull << i; return r; }
    PF q = pf(*v);
    if (!q.ok) return maskw(v->w);
    // field segmentation: terms sorted by trailing zeros
    struct S { unsigned tz; u128 sum; };
    std::vector<std::pair<unsigned, u128>> it;
    u64 cc = q.c; while (cc) { unsigned i = __builtin_ctzll(cc); it.push_back({i, (u128)1 << i}); cc &= cc - 1; }
    for (auto &x : q.t) it.push_back({(unsigned)__builtin_ctzll(x.k), (u128)x.k * x.hi});
    std::sort(it.begin(), it.end());
    u64 res = 0; size_t i = 0;
    while (i < it.size()) {
      unsigned tz = it[i].first; u128 s = 0; size_t j = i;
      while (j < it.size() && (j == i || it[j].first < 64) ) {
        // join while overlapping
        if (j > i) { unsigned top = 0; u128 t = s; while (t) { top++; t >>= 1; } if (it[j].first >= top) break; }
        s += it[j].second; j++;
      }
      unsigned top = 0; u128 t = s; while (t) { top++; t >>= 1; }
      if (top > 64) top = 64;
      res |= maskw(top) & ~maskw(tz);
      i = j;
    }
    return res & maskw(v->w);
  }
  V or_(const V &a, const V &b) {
    if (a->isTop()) return a; if (b->isTop()) return b;
    if (a->isConst() && b->isConst()) return cst(a->w, a->c | b->c);
    if (same(a, b)) return a;
    if (a->isConst() && a->c == 0) return b;
    if (b->isConst() && b->c == 0) return a;
    if (!(isSliced(a) && isSliced(b)))
      if ((maybeBits(a) & maybeBits(b)) == 0) return add(a, b);
    return bitop(a, b, 1);
  }
  V xor_(const V &a, const V &b) {
    if (a->isTop()) return a; if (b->isTop()) return b;
    if (a->isConst() && b->isConst()) return cst(a->w, a->c ^ b->c);
    if (same(a, b)) return cst(a->w, 0);
    const V &x = a->isConst() ? b : a; const V &y = a->isConst() ? a : b;
    if (y->isConst()) {
      if (y->c == 0) return x;
      if (y->c == maskw(a->w)) { V r = sub(cst(a->w, ~0ull), x); if (x->bits && !r->bits) { auto nb = std::make_shared<std::vector<B>>(*x->bits); for (auto &q : *nb) q ^= 1; r->bits = nb; } return r; }
      if (!isSliced(x) && (maybeBits(x) & y->c) == 0) return add(x, y);
    }
    return bitop(a, b, 2);
  }
  V udivrem(const V &v, u64 k, bool rem) {
    if (v->isTop()) return v;
    if (v->isConst()) return cst(v->w, rem ? v->c % k : v->c / k);
    if ((k & (k - 1)) == 0) { unsigned s = __builtin_ctzll(k); return rem ? andc(v, k - 1) : lshr(v, s); }
    PF q = pf(*v);
    if (q.ok) {
      u128 s = q.c % k; for (auto &x : q.t) s += (u128)(x.k % k) * x.hi;
      if (s < k) {
        PF r; r.c = rem ? q.c % k : q.c / k;
        for (auto &x : q.t) { u64 kk = rem ? x.k % k : x.k / k; if (kk) r.t.push_back({x.a, x.neg, kk, x.hi}); }
        return fromPF(v->w, r);
      }
      if (q.max < 4096 && boolOnly(*v)) { // enumerate quotient as a step function
        if (auto b = bitsOf(v)) {
          std::vector<B> out(v->w, BF);
          for (u64 x = 0; x <= (u64)q.max; x++) { B c = eqConst(*b, x); if (c == BF) continue; u64 r = rem ? x % k : x / k; for (unsigned i = 0; i < v->w; i++) if (r >> i & 1) out[i] = bdd.Or(out[i], c); }
          return fromBits(out);
        }
      }
    }
    return top("division of unknown");
  }
  B eqConst(const std::vector<B> &b, u64 x) {
    B r = BT; for (unsigned i = 0; i < b.size() && r != BF; i++) r = bdd.And(r, (x >> i & 1) ? b[i] : b[i] ^ 1); return r;
  }
  // ---- ranges and comparisons
  DLin dl(const PF &q) {
    DLin d; d.c = q.c;
    for (auto &x : q.t) { if (x.neg) { d.c += (i128)x.k * x.hi; d.t.push_back({x.a, -(i128)x.k}); } else d.t.push_back({x.a, (i128)x.k}); }
    std::sort(d.t.begin(), d.t.end());
    return d;
  }
  DLin dsub(const DLin &a, const DLin &b) {
    DLin r; r.c = a.c - b.c; size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
      if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
      else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, -b.t[j].second}); j++; }
      else { i128 k = a.t[i].second - b.t[j].second; if (k) r.t.push_back({a.t[i].first, k}); i++; j++; }
    }
    return r;
  }
  i128 dmin(const DLin &d) { i128 s = d.c; for (auto &x : d.t) if (x.second < 0) s += x.second * (i128)hiOf(x.first); return s; }
  i128 dmax(const DLin &d) { i128 s = d.c; for (auto &x : d.t) if (x.second > 0) s += x.second * (i128)hiOf(x.first); return s; }
  DLin simpD(const DLin &d) {
    if (pc == BT) return d;
    DLin r; r.c = d.c;
    for (auto &x : d.t) {
      if (!isIntAtom(x.first)) {
        if (bdd.And(pc, x.first) == BF) continue;
        if (bdd.And(pc, x.first ^ 1) == BF) { r.c += x.second; continue; }
      }
      r.t.push_back(x);
    }
    return r;
  }
  // is d >= 0 ?  1 yes, 0 no, -1 undecided
  bool provGE0(const DLin &d) {
    if (dmin(d) >= 0) return true;
    if (cons) {
      for (auto &c : *cons) if (dmin(dsub(d, c)) >= 0) return true;
      if (cons->size() <= 64) {
        // difference-style closure: two- and three-step combinations
        for (auto &c : *cons) { DLin e = dsub(d, c); if (e.t.size() <= 8) for (auto &c2 : *cons) { DLin e2 = dsub(e, c2); if (dmin(e2) >= 0) return true;
            if (e2.t.size() <= 4) for (auto &c3 : *cons) { DLin e3 = dsub(e2, c3); if (dmin(e3) >= 0) return true;
              if (e3.t.size() <= 3) for (auto &c4 : *cons) if (dmin(dsub(e3, c4)) >= 0) return true; } } }
      }
    }
    return false;
  }
  DLin neg1(const DLin &d) { DLin r; r.c = -d.c - 1; for (auto &x : d.t) r.t.push_back({x.first, -x.second}); return r; }
  int decideGE0(const DLin &d0) {
    DLin d = d0;
    if (provGE0(d)) return 1;
    if (provGE0(neg1(d))) return 0;
    DLin s = simpD(d0);
    if (!(s == d0)) { if (provGE0(s)) return 1; if (provGE0(neg1(s))) return 0; }
    return -1;
  }
  // a predicate literal for d >= 0 (hash-consed with its negation)
  B predGE0(const DLin &d) {
    bool flip = false; DLin k = d;
    if (!k.t.empty() && k.t[0].second < 0) { k = neg1(d); flip = true; }
    // divide by gcd
    i128 g = 0; for (auto &x : k.t) { i128 a = x.second < 0 ? -x.second : x.second; while (a) { i128 r = g % a; g = a; a = r; } }
    if (g > 1) { for (auto &x : k.t) x.second /= g; i128 c = k.c; k.c = c >= 0 ? c / g : -((-c + g - 1) / g); }
    auto it = predMemo.find(k);
    if (it != predMemo.end()) return flip ? it->second ^ 1 : it->second;
    B b = newVar(VarInfo::PRED, "p"); haveDerived = true;
    predMemo[k] = b; predDef[bdd.var(b)] = k;
    return flip ? b ^ 1 : b;
  }
  // unsigned/signed  a < b  -> literal, or nullopt if inexpressible
  std::optional<B> lt(const V &a, const V &b, bool sgn) {
    if (!a->isInt() || !b->isInt()) return std::nullopt;
    if (sgn) {
      V h = cst(a->w, 1ull << (a->w - 1));
      return lt(add(a, h), add(b, h), false);
    }
    if (a->isConst() && b->isConst()) return a->c < b->c ? BT : BF;
    if (b->isConst() && b->c == 0) return BF;
    if (a->isConst() && a->c == maskw(a->w)) return BF;
    if (same(a, b)) return BF;
    PF p = pf(*a), q = pf(*b);
    if (!p.ok || !q.ok) { // try bits -> exact
      auto x = bitsOf(a, false), y = bitsOf(b, false);
      if (x && y && (a->isConst() || b->isConst() || true)) {
        // sliced words are always exact as unsigned sums of bits
        V a2 = fromBits(*x), b2 = fromBits(*y); p = pf(*a2); q = pf(*b2);
        if (!p.ok || !q.ok) return ltBits(*x, *y);
      } else {
        V oa = p.ok ? a : opaque(a), ob = q.ok ? b : opaque(b);
        p = pf(*oa); q = pf(*ob);
        if (!p.ok || !q.ok) return std::nullopt;
      }
    }
    DLin d = dsub(dl(q), dl(p)); d.c -= 1; // b - a - 1 >= 0
    int r = decideGE0(d);
    if (r == 1) return BT;
    if (r == 0) return BF;
    return litGE0(d, &a, &b);
  }
  std::optional<B> ltBits(const std::vector<B> &x, const std::vector<B> &y) {
    size_t save = bdd.softlimit; bdd.softlimit = std::min(bdd.limit, bdd.nodes() + 400000);
    try {
      B r = BF;
      for (unsigned i = 0; i < x.size(); i++) { B eq = bdd.Xor(x[i], y[i]) ^ 1; r = bdd.Ite(eq, r, bdd.And(x[i] ^ 1, y[i])); }
      bdd.softlimit = save; return r;
    } catch (BudgetExceeded &) { bdd.softlimit = save; return std::nullopt; }
  }
  std::optional<B> litGE0(const DLin &d, const V *a = nullptr, const V *b = nullptr) {
    bool allBool = true; for (auto &x : d.t) if (isIntAtom(x.first)) allBool = false;
    if (allBool && d.t.size() <= 140) {
      if (a && b) { auto x = bitsOf(*a, false), y = bitsOf(*b, false); if (x && y && ((*a)->t.size() + (*b)->t.size() <= 132)) { auto r = ltBits(*x, *y); if (r) return *r; } }
      size_t save = bdd.softlimit; bdd.softlimit = std::min(bdd.limit, bdd.nodes() + 400000);
      try { B r = threshold(d); bdd.softlimit = save; return r; } catch (BudgetExceeded &) { bdd.softlimit = save; }
    }
    return predGE0(d);
  }
  B threshold(const DLin &d) { // sum >= 0 via dynamic programming over reachable partial sums
    std::vector<std::pair<uint32_t, i128>> t = d.t;
    std::sort(t.begin(), t.end(), [&](auto &x, auto &y) { return bdd.var(x.first) < bdd.var(y.first); });
    std::vector<i128> mn(t.size() + 1, 0), mx(t.size() + 1, 0);
    for (int i = (int)t.size() - 1; i >= 0; i--) { mn[i] = mn[i + 1] + std::min<i128>(0, t[i].second); mx[i] = mx[i + 1] + std::max<i128>(0, t[i].second); }
    std::map<std::pair<int, i128>, B> memo; size_t cnt = 0;
    std::function<B(int, i128)> rec = [&](int i, i128 s) -> B {
      if (s + mn[i] >= 0) return BT;
      if (s + mx[i] < 0) return BF;
      auto k = std::make_pair(i, s); auto it = memo.find(k); if (it != memo.end()) return it->second;
      if (++cnt > 60000) throw BudgetExceeded("threshold");
      B l = rec(i + 1, s), h = rec(i + 1, s + t[i].second);
      B r = bdd.Ite(t[i].first, h, l);
      memo[k] = r; return r;
    };
    return rec(0, d.c);
  }
  std::optional<B> eq(const V &a, const V &b) {
    if (!a->isInt() || !b->isInt()) return std::nullopt;
    if (same(a, b)) return BT;
    V d = sub(a, b);
    if (d->isConst()) return d->c == 0 ? BT : BF;
    PF p = pf(*d);
    if (p.ok && p.c > 0) return BF;
    {
      V nd = sub(b, a); PF p2 = pf(*nd); if (p2.ok && p2.c > 0) return BF;
      // all coefficients and range divisible by some power of two but constant is not
      unsigned tz = 64; for (auto &x : d->t) tz = std::min<unsigned>(tz, __builtin_ctzll(x.second));
      if (tz > 0 && tz < 64 && (d->c & maskw(std::min(tz, d->w)))) return BF;
    }
    if (pc != BT) { V s = simp(d); if (s->isConst()) return s->c == 0 ? BT : BF; PF ps = pf(*s); if (ps.ok && ps.c > 0) return BF; }
    auto x = bitsOf(a, false), y = bitsOf(b, false);
    if (x && y) {
      size_t save = bdd.softlimit; bdd.softlimit = std::min(bdd.limit, bdd.nodes() + 600000);
      try { B r = BT; for (unsigned i = 0; i < x->size() && r != BF; i++) r = bdd.And(r, bdd.Xor((*x)[i], (*y)[i]) ^ 1); bdd.softlimit = save; return r; }
      catch (BudgetExceeded &) { bdd.softlimit = save; }
    }
    if (!x || !y) { // offsets within one object
      V r = simp(d);
      if (boolOnly(*r)) if (auto z = bitsOf(r, false)) {
        size_t save = bdd.softlimit; bdd.softlimit = std::min(bdd.limit, bdd.nodes() + 600000);
        try { B e = BT; for (unsigned i = 0; i < z->size() && e != BF; i++) e = bdd.And(e, (*z)[i] ^ 1); bdd.softlimit = save; return r == d ? e : bdd.And(pc, e); }
        catch (BudgetExceeded &) { bdd.softlimit = save; }
      }
    }
    // two distinct objects never have the same address
    int oa = objOf(a), ob = objOf(b);
    if (oa >= 0 && ob >= 0 && oa != ob) return BF;
    // as conjunction of two inequalities
    PF qa = pf(*a), qb = pf(*b);
    if (qa.ok && qb.ok) {
      DLin e = dsub(dl(qb), dl(qa));
      int g = decideGE0(e); int l = decideGE0(neg1(e)); // e>=0 ; e<0
      DLin e2; e2.c = -e.c; for (auto &z : e.t) e2.t.push_back({z.first, -z.second});
      int h = decideGE0(e2);
      if (l == 1 || g == 0 || h == 0) return BF;
      if (g == 1 && h == 1) return BT;
      B x1 = g == 1 ? BT : predGE0(e), x2 = h == 1 ? BT : predGE0(e2);
      return bdd.And(x1, x2);
    }
    return std::nullopt;
  }
  int objOf(const V &v) { int o = -1; for (auto &x : v->t) if (isIntAtom(x.first) && ints[x.first >> 1].obj >= 0) { if (o >= 0) return -1; o = ints[x.first >> 1].obj; } return o; }
  V simp(const V &v) {
    if (pc == BT || v->k != Val::INT || v->t.empty()) return v;
    bool ch = false; std::vector<Term> t; u64 c = v->c;
    for (auto &x : v->t) {
      if (!isIntAtom(x.first)) {
        if (bdd.And(pc, x.first) == BF) { ch = true; continue; }
        if (bdd.And(pc, x.first ^ 1) == BF) { c += x.second; ch = true; continue; }
      }
      t.push_back(x);
    }
    return ch ? lin(v->w, c, std::move(t)) : v;
  }
  // ---- population count & friends
  V ctpop(const V &v) {
    if (v->isConst()) return cst(v->w, __builtin_popcountll(v->c));
    auto b = bitsOf(v); if (!b) return top("ctpop");
    std::vector<Term> t; u64 c = 0;
    for (B x : *b) { if (x == BT) c++; else if (x == BF) {} else if (x & 1) { c++; t.push_back({x ^ 1, ~0ull}); } else t.push_back({x, 1}); }
    return lin(v->w, c, std::move(t));
  }
  V ctz(const V &v, bool lead) {
    if (v->isConst()) { unsigned w = v->w; if (!v->c) return cst(w, w); return cst(w, lead ? __builtin_clzll(v->c) - (64 - w) : __builtin_ctzll(v->c)); }
    auto bb = bitsOf(v); if (!bb) return top("ctz");
    std::vector<B> b = *bb; if (lead) std::reverse(b.begin(), b.end());
    unsigned w = v->w; std::vector<B> out(w, BF); B none = BT;
    for (unsigned k = 0; k <= w; k++) {
      B c = k == w ? none : bdd.And(none, b[k]);
      for (unsigned i = 0; i < 8 && i < w; i++) if (k >> i & 1) out[i] = bdd.Or(out[i], c);
      if (k < w) none = bdd.And(none, b[k] ^ 1);
    }
    return fromBits(out);
  }
  V pdep(const V &src, const V &mask) {
    auto s = bitsOf(src), m = bitsOf(mask); if (!s || !m) return top("pdep");
    unsigned w = src->w; std::vector<B> cnt(w + 1, BF); cnt[0] = BT; std::vector<B> out(w, BF);
    for (unsigned j = 0; j < w; j++) {
      for (unsigned k = 0; k <= j; k++) if ((*s)[k] != BF && cnt[k] != BF) out[j] = bdd.Or(out[j], bdd.And((*s)[k], cnt[k]));
      out[j] = bdd.And(out[j], (*m)[j]);
      for (int k = j + 1; k >= 0; k--) cnt[k] = bdd.Ite((*m)[j], k ? cnt[k - 1] : BF, cnt[k]);
    }
    return fromBits(out);
  }
  V pext(const V &src, const V &mask) {
    auto s = bitsOf(src), m = bitsOf(mask); if (!s || !m) return top("pext");
    unsigned w = src->w; std::vector<B> cnt(w + 1, BF); cnt[0] = BT; std::vector<B> out(w, BF);
    for (unsigned j = 0; j < w; j++) {
      for (unsigned k = 0; k <= j; k++) if (cnt[k] != BF) out[k] = bdd.Or(out[k], bdd.And(cnt[k], bdd.And((*m)[j], (*s)[j])));
      for (int k = j + 1; k >= 0; k--) cnt[k] = bdd.Ite((*m)[j], k ? cnt[k - 1] : BF, cnt[k]);
    }
    return fromBits(out);
  }
  // variable shift: barrel over the bits of the amount
  V vshift(const V &v, const V &s, int kind) { // 0 shl 1 lshr 2 ashr
    auto b = bitsOf(s, false); if (!b) return top("shift by integer unknown");
    V r = v;
    for (unsigned i = 0; i < s->w; i++) {
      if ((*b)[i] == BF) continue;
      V x; if (i >= 7) x = cst(v->w, 0); else { unsigned k = 1u << i; x = kind == 0 ? shl(r, k) : kind == 1 ? lshr(r, k) : ashr(r, std::min(k, v->w - 1)); }
      if (x->isTop()) return x;
      V y = mux((*b)[i], x, r);
      if (!y) return top("variable shift");
      r = y;
    }
    return r;
  }
  // table lookup: entries[idx]
  V table(const V &idx, const std::vector<u64> &tab, unsigned w) {
    auto b = bitsOf(idx, false); if (!b) return nullptr;
    unsigned n = b->size();
    std::function<void(unsigned, u64, std::vector<B> &)> rec;
    // evaluate as decision tree over index bits (only non-constant ones branch)
    std::function<std::vector<B>(int, u64)> go = [&](int i, u64 acc) -> std::vector<B> {
      if (i < 0) { std::vector<B> r(w); u64 val = acc < tab.size() ? tab[acc] : 0; for (unsigned k = 0; k < w; k++) r[k] = (val >> k & 1) ? BT : BF; return r; }
      B x = (*b)[i];
      if (x == BF) return go(i - 1, acc);
      if (x == BT) return go(i - 1, acc | 1ull << i);
      auto l = go(i - 1, acc), h = go(i - 1, acc | 1ull << i);
      for (unsigned k = 0; k < w; k++) l[k] = bdd.Ite(x, h[k], l[k]);
      return l;
    };
    unsigned nb = 0; for (unsigned i = 0; i < n; i++) if ((*b)[i] != BF && (*b)[i] != BT) nb++;
    if (nb > 14) return nullptr;
    auto bits = go((int)n - 1, 0);
    if (V l = linearize(bits)) return l;
    return fromBits(bits);
  }
  // ---- model evaluation
  struct Model { std::vector<uint8_t> b; std::vector<u64> i; };
  u64 eval(const Val &v, const Model &m) {
    u64 r = v.c;
    for (auto &x : v.t) { u64 a = isIntAtom(x.first) ? m.i[x.first >> 1] : (bdd.eval(x.first, m.b) ? 1 : 0); r += a * x.second; }
    return r & maskw(v.w);
  }
  void complete(Model &m) { // compute derived variables
    m.b.resize(vars.size(), 0); m.i.resize(ints.size(), 0);
    for (int pass = 0; pass < 2; pass++) {
    for (size_t i = 0; i < ints.size(); i++) if (ints[i].def) m.i[i] = eval(*ints[i].def, m);
    for (size_t v = 0; v < vars.size(); v++) {
      if (vars[v].k == VarInfo::OPAQUE) { u64 y = eval(*opaques[vars[v].word].def, m); m.b[v] = y >> vars[v].bit & 1; }
      else if (vars[v].k == VarInfo::PRED) {
        auto &d = predDef[v]; i128 s = d.c;
        for (auto &x : d.t) { i128 a = isIntAtom(x.first) ? (i128)m.i[x.first >> 1] : (i128)(bdd.eval(x.first, m.b) ? 1 : 0); s += a * x.second; }
        m.b[v] = s >= 0;
      }
    } }
  }
  bool model(B f, Model &m, std::mt19937_64 &rng, int style) {
    m.b.assign(vars.size(), 0); m.i.assign(ints.size(), 0);
    for (auto &x : m.b) x = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? (rng() & 1) : style == 3 ? (rng() % 16 == 0) : (rng() % 16 != 0);
    for (size_t i = 0; i < ints.size(); i++) {
      u64 hi = ints[i].hi;
      if (ints[i].obj >= 0) { m.i[i] = (u64)(ints[i].obj + 1) << 24; continue; }
      m.i[i] = style == 0 ? 0 : style == 1 ? hi : (hi == ~0ull ? rng() : rng() % (hi + 1));
      if (style > 2 && hi) m.i[i] %= std::min<u64>(hi, 8) + 1;
    }
    if (!haveDerived) return bdd.sat(f, m.b);
    for (int k = 0; k < 4; k++) { complete(m); if (bdd.eval(f, m.b)) return true; bdd.sat(f, m.b); }
    complete(m);
    return bdd.eval(f, m.b);
  }
};
