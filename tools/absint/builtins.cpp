#include "engine.h"
#include <cmath>

static u64 sizeofName(const std::string &t) {
  static const std::map<std::string, u64> m = {{"bool",1},{"char",1},{"signed char",1},{"unsigned char",1},{"short",2},{"unsigned short",2},{"int",4},{"unsigned int",4},{"long",8},{"unsigned long",8},{"long long",8},{"unsigned long long",8},{"char16_t",2},{"char32_t",4}};
  auto it = m.find(t); return it == m.end() ? 0 : it->second;
}
static std::string firstTemplateArg(const std::string &d) {
  size_t p = d.find('<'); if (p == std::string::npos) return ""; int depth = 0; size_t i = p + 1;
  for (; i < d.size(); i++) { if (d[i] == '<') depth++; if (d[i] == '>') { if (!depth) break; depth--; } if (d[i] == ',' && !depth) break; }
  return d.substr(p + 1, i - p - 1);
}
static bool starts(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }

bool Engine::builtin(State &st, const CallBase &cb, Function *F, std::vector<V> &a, std::vector<Outcome> &out) {
  std::string n = F->getName().str();
  auto ret = [&](V v = nullptr) { Outcome o; o.st = std::move(st); o.ret = v; out.push_back(std::move(o)); intercepts.insert(n); return true; };
  auto thr = [&](const char *ti) { Outcome o; o.st = std::move(st); o.threw = true; o.ti = ti; out.push_back(std::move(o)); intercepts.insert(n); return true; };
  auto &I = cb;
  // ---- witness vocabulary
  if (starts(n, "sds_")) {
    auto str = [&](const V &p) { std::string s; int id; V off; if (!resolve(st, p, id, off)) return s; OP o = getObj(st, id); for (u64 i = off->c; o && i < o->size->c; i++) { V b = readAt(st, *o, {}, i, 1); if (!b->isConst() || !b->c) break; s += (char)b->c; } return s; };
    auto fresh = [&](unsigned w, const std::string &nm) { std::vector<B> b; static int k = 0; std::string name = nm + std::to_string(D.vars.size()); (void)k; for (unsigned i = 0; i < w; i++) { b.push_back(D.newVar(Dom::VarInfo::BASE, name)); D.vars.back().bit = i; } return D.fromBits(b); };
    if (n == "sds_u64") return ret(fresh(64, "u64_"));
    if (n == "sds_bits") { if (!a[0]->isConst()) throw Undecided("sds_bits"); V v = fresh(a[0]->c, "bits"); return ret(D.zext(v, 64)); }
    if (n == "sds_bool") return ret(fresh(1, "bool"));
    if (n == "sds_int") {
      if (!a[0]->isConst()) throw Undecided("sds_int"); u64 hi = a[0]->c; usedInt = true; int k = intIdx++;
      if (pick < 0) { uint32_t at = D.newInt(hi, "n" + std::to_string(k)); return ret(D.fromAtom(64, at)); }
      static const u64 tab[] = {0, 1, 2, 3, 5, 8, 17, (1ull << 26) + 1, (1ull << 32) + 3};
      u64 v = pick < 4 ? tab[pick] : tab[(pick * 5 + k * (pick + 2)) % 9];
      return ret(D.cst(64, hi == ~0ull ? v : v % (hi + 1)));
    }
    if (n == "sds_havoc") {
      if (!a[1]->isConst()) throw Undecided("sds_havoc length"); u64 N = a[1]->c; int id; V off; if (!N) return ret();
      if (!resolve(st, a[0], id, off)) throw Undecided("havoc");
      for (u64 i = 0; i < N;) { unsigned k = N - i >= 8 ? 8 : 1; storeInt(st, D.add(a[0], D.cst(64, i)), fresh(k * 8, "mem"), k, &I); i += k; }
      return ret();
    }
    if (n == "sds_havoc_sym") {
      u64 cnt = 0;
      std::vector<int> ids; for (auto &m : st.mem) if (m.second->kind == Obj::HEAP && (!m.second->size->isConst() || (pick >= 0))) ids.push_back(m.first);
      for (int id : ids) { Obj &o = mut(st, id); o.cells.clear(); o.regions.clear(); o.def = Obj::LAZYD; o.hid = nextHid++; o.defSeq = ++seq; cnt++; }
      return ret(D.cst(64, cnt));
    }
    if (n == "sds_havoc_heap") { // every heap object of at least a[0] bytes, whatever its size
      std::vector<int> ids; for (auto &m : st.mem) if (m.second->kind == Obj::HEAP) ids.push_back(m.first);
      for (int id : ids) { Obj &o = mut(st, id); o.cells.clear(); o.regions.clear(); o.def = Obj::LAZYD; o.hid = nextHid++; o.defSeq = ++seq; }
      return ret(D.cst(64, ids.size()));
    }
    if (n == "sds_assume") { B b = boolOf(st, a[0], "assume"); assume(st, b); if (st.pc == BF) { intercepts.insert(n); return true; } return ret(); }
    if (n == "sds_check" || n == "sds_check_eq" || n == "sds_check_le") {
      std::string msg = str(a.back()); B b;
      if (n == "sds_check") { b = boolOf(st, a[0], "check"); }
      else {
        if (a[0]->isTop() || a[1]->isTop()) throw Undecided("check of unknown: " + (a[0]->isTop() ? a[0]->why : a[1]->why));
        ctx(st); auto e = n == "sds_check_eq" ? D.eq(a[0], a[1]) : D.lt(a[1], a[0], false);
        if (!e && n == "sds_check_eq") { V x = D.simp(a[0]), y = D.simp(a[1]); e = D.eq(x, y); }
        if (!e && n == "sds_check_eq") { // refute by evaluating both exact forms under sampled assignments
          Dom::Model m; bool hit = false;
          for (int style = 0; style < 64 && !hit; style++) {
            if (!D.model(st.pc, m, rng, style)) continue;
            bool ok = true; for (auto &d : st.cons) { i128 s = d.c; for (auto &x : d.t) s += x.second * (isIntAtom(x.first) ? (i128)m.i[x.first >> 1] : (i128)D.bdd.eval(x.first, m.b)); if (s < 0) ok = false; }
            if (ok && D.eval(*a[0], m) != D.eval(*a[1], m)) hit = true;
          }
          if (hit) { Finding f{Finding::REFUTED, "check", msg, where(&I), stackStr(), modelStr(m)}; nRefuted++; if (fset.insert(f).second) findings.push_back(f); return ret(); }
        }
        if (!e) { nUnknown++; Finding f{Finding::UNKNOWN, "check", msg, where(&I), stackStr(), ""}; if (fset.insert(f).second) findings.push_back(f); return ret(); }
        b = n == "sds_check_eq" ? *e : *e ^ 1;
      }
      if (D.bdd.And(st.pc, b ^ 1) == BF) { nProved++; return ret(); }
      if (B u = dependsOnUndef(st, b); u != BF) { report("indeterminate", msg + " (the value depends on uninitialised storage or an undefined operation)", &I, st, u); if (B f = D.bdd.And(b ^ 1, u ^ 1); D.bdd.And(st.pc, f) != BF) report("check", msg, &I, st, f); return ret(); }
      report("check", msg, &I, st, b ^ 1);
      return ret();
    }
    if (n == "sds_freeze") { st.frozen = nextObj; st.frozenStack.clear(); int id; V off; if (resolve(st, a[0], id, off)) { OP o = getObj(st, id); if (o && o->kind == Obj::STACK) st.frozenStack.insert(id); } return ret(); }
    if (n == "sds_thaw") { st.frozen = 0; st.frozenStack.clear(); return ret(); }
    if (n == "sds_fail") { report("check", str(a[0]), &I, st, BT); intercepts.insert(n); return true; }
    if (n == "sds_stop") { intercepts.insert(n); return true; }
    if (n == "sds_stream") {
      int vt = newObj(st, D.cst(64, 64), Obj::STACK, "vtable"); mut(st, vt).def = Obj::ZERO;
      int buf = newObj(st, D.cst(64, 1 << 26), Obj::STACK, "stream contents");
      int s = newObj(st, D.cst(64, 512), Obj::STACK, "stream"); mut(st, s).def = Obj::ZERO;
      storeInt(st, baseOf(s), D.add(baseOf(vt), D.cst(64, 24)), 8, &I); storeInt(st, D.add(baseOf(s), D.cst(64, 16)), D.add(baseOf(vt), D.cst(64, 24)), 8, &I);
      st.streams[s] = Stream{buf, 0, 0}; return ret(baseOf(s));
    }
    if (n == "sds_stream_left" || n == "sds_stream_pos") { int id; V off; if (!resolve(st, a[0], id, off) || !st.streams.count(id)) throw Undecided("stream"); auto &x = st.streams[id]; return ret(D.cst(64, n == "sds_stream_left" ? x.w - x.r : x.w)); }
    if (n == "sds_work") return ret(D.cst(64, st.work));
    if (n == "sds_heap") return ret(st.heap ? st.heap : D.cst(64, 0));
    if (n == "sds_aligned") {
      int id; V off; if (!resolve(st, a[0], id, off)) throw Undecided("alignment of an unknown pointer");
      OP o = getObj(st, id); if (!o || !a[1]->isConst() || !off->isConst()) throw Undecided("alignment of an unknown offset");
      return ret(D.cst(1, o->align % a[1]->c == 0 && off->c % a[1]->c == 0));
    }
    if (n == "sds_known") return ret(D.cst(1, a[0]->isConst()));
    throw Undecided("unknown witness primitive " + n);
  }
  // ---- allocation
  auto held = [&](V z, bool more) {
    u64 n = z->isConst() ? z->c : 0;
    if (more) { st.least += n; maxHeap = std::max(maxHeap, st.least); if (heapLimit && st.least > heapLimit) { report("space", "an operation on a few elements needs more than " + std::to_string(heapLimit) + " bytes of dynamic storage", &I, st, BT); st.pc = BF; } }
    else st.least = z->isConst() && st.least > n ? st.least - n : 0;
    V h = st.heap ? st.heap : D.cst(64, 0); st.heap = h->isTop() || z->isTop() ? D.top("the amount of live storage is unknown") : more ? D.add(h, z) : D.sub(h, z); };
  auto alloc = [&](V size, unsigned align, const char *nm) { V z = size->isConst() ? size : size; int id = newObj(st, z, Obj::HEAP, nm); mut(st, id).align = align; held(z, true); return baseOf(id); };
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { if (a[0]->isTop()) throw Undecided("allocation of unknown size: " + a[0]->why); return ret(alloc(a[0], 16, "heap block")); }
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") return ret(alloc(a[0], a[1]->isConst() ? a[1]->c : 16, "heap block"));
  if (n == "aligned_alloc") return ret(alloc(a[1], a[0]->isConst() ? a[0]->c : 16, "heap block"));
  if (n == "posix_memalign") { V p = alloc(a[2], a[1]->isConst() ? a[1]->c : 16, "heap block"); storeInt(st, a[0], p, 8, &I); return ret(D.cst(32, 0)); }
  if (n == "calloc") { V sz = D.mul(a[0], a[1]); int id = newObj(st, sz, Obj::HEAP, "heap block"); mut(st, id).def = Obj::ZERO; held(sz, true); return ret(baseOf(id)); }
  if (n == "free" || starts(n, "_ZdlPv") || starts(n, "_ZdaPv")) {
    V p = a[0]; if (p->isConst() && p->c == 0) return ret();
    int id; V off; if (!resolve(st, p, id, off)) { if (p->isConst()) { report("free", "release of a wild pointer", &I, st, BT); return ret(); } throw Undecided("release of unknown pointer"); }
    OP o = getObj(st, id);
    if (!o || o->kind != Obj::HEAP) { report("free", o ? "release of storage that was not dynamically allocated" : "storage released twice", &I, st, BT); return ret(); }
    if (!off->isConst() || off->c) { report("free", "release of an interior pointer", &I, st, BT); return ret(); }
    if (isFrozen(st, *o)) { report("effect", "a query releases storage that existed before it", &I, st, BT); return ret(); }
    held(o->size, false); st.mem.erase(id); return ret();
  }
  // ---- exceptions and termination
  if (starts(n, "_ZSt") && n.find("__throw_") != std::string::npos) {
    const char *ti = "_ZTISt9exception";
    if (n.find("length_error") != std::string::npos) ti = "_ZTISt12length_error"; else if (n.find("out_of_range") != std::string::npos) ti = "_ZTISt12out_of_range";
    else if (n.find("bad_array_new") != std::string::npos) ti = "_ZTISt20bad_array_new_length"; else if (n.find("bad_alloc") != std::string::npos) ti = "_ZTISt9bad_alloc"; else if (n.find("logic_error") != std::string::npos) ti = "_ZTISt11logic_error";
    else if (n.find("invalid_argument") != std::string::npos) ti = "_ZTISt16invalid_argument"; else if (n.find("bad_function_call") != std::string::npos) ti = "_ZTISt17bad_function_call";
    return thr(ti);
  }
  if (n == "__cxa_allocate_exception") { V p = alloc(a[0], 16, "exception object"); held(a[0], false); return ret(p); };
  if (n == "__cxa_free_exception") return ret();
  if (n == "__cxa_throw") { Outcome o; std::string ti; int id; V off; if (resolve(st, a[1], id, off) && objG.count(id)) ti = objG[id]->getName().str(); o.st = std::move(st); o.threw = true; o.ti = ti; o.exc = a[0]; out.push_back(std::move(o)); return true; }
  if (n == "__cxa_rethrow") throw Undecided("rethrow");
  if (n == "__cxa_begin_catch") return ret(a[0]);
  if (n == "__cxa_end_catch") return ret();
  if (n == "__cxa_guard_acquire") { st.guard++; return ret(D.cst(32, 1)); }
  if (n == "__cxa_guard_release" || n == "__cxa_guard_abort") { if (n == "__cxa_guard_release") storeInt(st, a[0], D.cst(8, 1), 1, &I); if (st.guard) st.guard--; return ret(); }
  if (n == "__cxa_atexit") return ret(D.cst(32, 0));
  if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__cxa_pure_virtual" || n == "_ZSt10unexpectedv") { report("abort", "the program is terminated (" + n + ")", &I, st, BT); intercepts.insert(n); return true; }
  static const char *exct[] = {"_ZNSt12out_of_range", "_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt12domain_error", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error", "_ZNSt9exception", "_ZNSt9bad_alloc"};
  for (auto e : exct) if (starts(n, e)) return ret();
  // ---- streams
  if (n == "_ZNSo5writeEPKcl" || n == "_ZNSi4readEPcl") {
    int id; V off; if (!resolve(st, a[0], id, off)) throw Undecided("stream");
    // basic_iostream's ostream part sits at offset 16
    if (!st.streams.count(id)) throw Undecided("stream operation on an unmodelled stream");
    V len = D.simp(a[2]); if (!len->isConst()) throw Undecided("stream transfer of unknown length");
    auto &x = st.streams[id]; int buf = x.obj;
    if ((i64)len->c < 0 || len->c > (1u << 25)) { report("stream", "stream transfer of absurd length " + std::to_string((i64)len->c), &I, st, BT); return ret(a[0]); }
    if (n == "_ZNSo5writeEPKcl") { u64 w = x.w; x.w += len->c; if (len->c) memcpy_(st, D.add(baseOf(buf), D.cst(64, w)), a[1], len, &I); }
    else {
      u64 r = x.r, av = x.w - x.r, k = len->c;
      if (k > av) { report("stream", "reads " + std::to_string(k) + " bytes where only " + std::to_string(av) + " were written", &I, st, BT); k = av; }
      x.r += k; if (k) memcpy_(st, a[1], D.add(baseOf(buf), D.cst(64, r)), D.cst(64, k), &I);
    }
    return ret(a[0]);
  }
  if (n == "_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv") return ret(D.cst(1, 1));
  if (n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv") return ret(D.cst(1, 0));
  // formatted output to a stream outside the model (std::cout, std::cerr) changes nothing that is observed
  if (starts(n, "_ZNSols") || starts(n, "_ZSt16__ostream_insert") || starts(n, "_ZNSo9_M_insert") || starts(n, "_ZStlsISt11char_traits") || starts(n, "_ZSt4endlIcSt11char") || starts(n, "_ZNSo3put") || starts(n, "_ZNSo5flush")) {
    int id; V off; if (!resolve(st, a[0], id, off)) throw Undecided("stream");
    if (st.streams.count(id)) throw Undecided("formatted output to a modelled stream");
    return ret(a[0]);
  }
  // ---- C library
  if (n == "memcpy" || n == "memmove") { memcpy_(st, a[0], a[1], a[2], &I); return ret(a[0]); }
  if (n == "memset") { fill_(st, a[0], D.trunc(a[1], 8), 1, a[2], &I); return ret(a[0]); }
  if (n == "memcmp" || n == "bcmp") {
    V len = D.simp(a[2]); if (!len->isConst() || len->c > 4096) throw Undecided("memcmp of unknown length");
    V r = D.cst(32, 0);
    for (i64 i = (i64)len->c - 1; i >= 0; i--) {
      V x = loadInt(st, D.add(a[0], D.cst(64, i)), 1, &I), y = loadInt(st, D.add(a[1], D.cst(64, i)), 1, &I);
      ctx(st); auto e = D.eq(x, y), l = D.lt(x, y, false); if (!e || !l) throw Undecided("memcmp");
      V d = D.mux(*l, D.cst(32, ~0ull), D.cst(32, 1)); r = D.mux(*e, r, d); if (!r) throw Undecided("memcmp");
    }
    return ret(r);
  }
  if (n == "strlen") { u64 i = 0; for (;; i++) { V b = loadInt(st, D.add(a[0], D.cst(64, i)), 1, &I); ctx(st); auto e = D.eq(b, D.cst(8, 0)); if (!e) throw Undecided("strlen"); if (*e == BT) break; if (*e != BF && D.bdd.And(st.pc, *e) != BF) throw Undecided("strlen of unknown"); if (i > 100000) throw Undecided("strlen"); } return ret(D.cst(64, i)); }
  if (a.size() >= 1 && a[0]->k == Val::FP) {
    double x = a[0]->d;
    if (n == "ceil" || n == "ceilf") return ret(D.fp(std::ceil(x))); if (n == "floor" || n == "floorf") return ret(D.fp(std::floor(x)));
    if (n == "log2" || n == "log2f") return ret(D.fp(std::log2(x))); if (n == "sqrt") return ret(D.fp(std::sqrt(x))); if (n == "log") return ret(D.fp(std::log(x)));
    if (n == "pow" && a[1]->k == Val::FP) return ret(D.fp(std::pow(x, a[1]->d)));
  }
  // ---- standard-library bulk operations over a number of elements that is not a constant
  if (starts(n, "_ZSt") || starts(n, "_ZNSt")) {
    std::string d = demangle(n); size_t p;
    auto big = [&](const V &x) { V s = D.simp(x); return !s->isConst() || s->c > 2048; };
    auto elem = [&](const std::string &t) -> u64 { std::string s = t; while (!s.empty() && (s.back() == '*' || s.back() == ' ')) s.pop_back(); if (starts(s, "const ")) s = s.substr(6); if (s.size() > 6 && s.substr(s.size() - 6) == " const") s.resize(s.size() - 6); return sizeofName(s); };
    std::string fn = d; if ((p = fn.find('<')) != std::string::npos) fn = fn.substr(0, p); if (starts(fn, "void ")) fn = fn.substr(5); { size_t q = fn.rfind(' '); if (q != std::string::npos) fn = fn.substr(q + 1); }
    bool defN = fn == "std::__uninitialized_default_n_a" || fn == "std::__uninitialized_default_n";
    bool fillN = fn == "std::__uninitialized_fill_n_a" || fn == "std::__uninitialized_fill_n" || fn == "std::__fill_n_a1" || fn == "std::__fill_n_a" || fn == "std::fill_n" || fn == "std::uninitialized_fill_n";
    bool fill = fn == "std::__fill_a1" || fn == "std::__fill_a" || fn == "std::fill";
    if (defN || fillN) {
      u64 es = elem(firstTemplateArg(d));
      if (es && a.size() >= 2 && a[0]->isInt() && a[1]->isInt() && big(a[1]) && a[1]->w == 64) {
        V e = D.cst(es * 8, 0);
        if (fillN) { e = loadInt(st, a[2], es, &I); }
        V cnt = a[1];
        fill_(st, a[0], e, es, cnt, &I);
        return ret(D.add(a[0], D.mulc(cnt, es)));
      }
    }
    if (fn == "std::_Destroy" && a.size() == 3 && a[0]->isInt() && a[1]->isInt() && elem(firstTemplateArg(d)) && big(D.sub(a[1], a[0]))) return ret(); // trivial destructors
    if (fill) {
      u64 es = elem(firstTemplateArg(d));
      if (es && a.size() >= 3 && a[0]->isInt() && a[1]->isInt()) {
        V len = D.simp(D.sub(a[1], a[0]));
        if (big(len)) {
          V cnt = es == 1 ? len : D.lshr(len, __builtin_ctzll(es));
          V e = loadInt(st, a[2], es, &I);
          fill_(st, a[0], e, es, cnt, &I); return ret();
        }
      }
    }
  }
  return false;
}

bool Engine::intrinsic(State &st, const IntrinsicInst &I, std::vector<V> &a, V &r) {
  unsigned w = I.getType()->isVoidTy() ? 0 : I.getType()->getScalarSizeInBits();
  auto each1 = [&](std::function<V(const V &)> f) { if (a[0]->k == Val::AGG) { std::vector<V> e; for (auto &x : a[0]->el) e.push_back(f(x)); r = D.agg(e); } else r = f(a[0]); return true; };
  auto each2 = [&](std::function<V(const V &, const V &)> f) { if (a[0]->k == Val::AGG) { std::vector<V> e; for (size_t i = 0; i < a[0]->el.size(); i++) e.push_back(f(a[0]->el[i], a[1]->el[i])); r = D.agg(e); } else r = f(a[0], a[1]); return true; };
  auto bytesOf = [&](const V &v) { return v; };
  (void)bytesOf;
  auto sel = [&](std::optional<B> c, const V &x, const V &y) -> V { if (!c) return D.top("min/max"); B f = *c; if (D.bdd.And(st.pc, f ^ 1) == BF) return x; if (D.bdd.And(st.pc, f) == BF) return y; V m = D.mux(f, x, y); return m ? m : D.top("min/max"); };
  auto constAmt = [&](const V &v) { V s = D.simp(v); return s; };
  auto bextr = [&](const V &x, const V &ctl, unsigned w) -> V {
    V c = D.simp(ctl);
    V start = D.trunc(c, 8), len = D.trunc(D.lshr(c, 8), 8);
    if (start->isTop() || len->isTop()) return D.top("bextr");
    V s = D.zext(start, w), l = D.zext(len, w);
    auto big = [&](const V &v) { auto q = D.lt(v, D.cst(w, w), false); return q; };
    auto bs = big(s), bl = big(l); if (!bs || !bl) return D.top("bextr");
    V sh = s->isConst() ? (s->c >= w ? D.cst(w, 0) : D.lshr(x, s->c)) : D.vshift(x, s, 1);
    if (!s->isConst() && *bs != BT) { V m = D.mux(*bs, sh, D.cst(w, 0)); if (!m) return D.top("bextr"); sh = m; }
    V mask;
    if (l->isConst()) mask = D.cst(w, l->c >= w ? ~0ull : maskw(l->c) & (l->c ? ~0ull : 0)); 
    else { V one = D.cst(w, 1); V p = D.sub(D.vshift(one, l, 0), one); mask = *bl == BT ? p : D.mux(*bl, p, D.cst(w, ~0ull)); if (!mask) return D.top("bextr"); }
    return D.and_(sh, mask);
  };
  switch (I.getIntrinsicID()) {
  case Intrinsic::lifetime_start: {
    int id; V off; if (resolve(st, a[1], id, off)) { OP o = getObj(st, id); if (o && o->kind == Obj::STACK) { o.reset(); Obj &m = mut(st, id); m.cells.clear(); m.regions.clear(); m.def = Obj::UNDEFD; 
      // a fresh lifetime has fresh indeterminate contents, deterministic per object
    } }
    return true; }
  case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::x86_avx_vzeroupper: return true;
  case Intrinsic::invariant_start: r = D.cst(64, 0); return true;
  case Intrinsic::expect: r = a[0]; return true;
  case Intrinsic::is_constant: r = D.cst(1, 0); return true;
  case Intrinsic::objectsize: r = D.cst(w, ~0ull); return true;
  case Intrinsic::trap: report("abort", "the program is terminated (trap)", &I, st, BT); st.pc = BF; return true;
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; return true;
  case Intrinsic::eh_typeid_for: { std::string nm = I.getArgOperand(0)->stripPointerCasts()->getName().str(); auto &id = typeIds[nm]; if (!id) id = typeIds.size(); r = D.cst(32, id); return true; }
  case Intrinsic::memcpy: case Intrinsic::memmove: memcpy_(st, a[0], a[1], a[2], &I); return true;
  case Intrinsic::memset: fill_(st, a[0], a[1], 1, a[2], &I); return true;
  case Intrinsic::ctpop: return each1([&](const V &x) { return D.ctpop(x); });
  case Intrinsic::cttz: case Intrinsic::ctlz: {
    bool lead = I.getIntrinsicID() == Intrinsic::ctlz;
    if (a[1]->isConst() && a[1]->c && a[0]->isInt()) { auto z = D.eq(a[0], D.cst(a[0]->w, 0)); if (z && D.bdd.And(st.pc, *z) != BF) { nUB++; report("ctz0", "count of leading/trailing zeros of zero is undefined", &I, st, *z); if (D.bdd.And(st.pc, *z ^ 1) == BF) { r = undefOf(I.getType()); return true; } assume(st, *z ^ 1); ctx(st); } }
    return each1([&](const V &x) { return D.ctz(x, lead); });
  }
  case Intrinsic::bswap: return each1([&](const V &x) -> V { auto b = D.bitsOf(x); if (!b) return D.top("bswap"); std::vector<B> o(b->size()); unsigned nb = b->size() / 8; for (unsigned i = 0; i < nb; i++) for (int k = 0; k < 8; k++) o[(nb - 1 - i) * 8 + k] = (*b)[i * 8 + k]; return D.fromBits(o); });
  case Intrinsic::bitreverse: return each1([&](const V &x) -> V { auto b = D.bitsOf(x); if (!b) return D.top("bitreverse"); std::vector<B> o(b->rbegin(), b->rend()); return D.fromBits(o); });
  case Intrinsic::umin: return each2([&](const V &x, const V &y) { return sel(D.lt(x, y, false), x, y); });
  case Intrinsic::umax: return each2([&](const V &x, const V &y) { return sel(D.lt(x, y, false), y, x); });
  case Intrinsic::smin: return each2([&](const V &x, const V &y) { return sel(D.lt(x, y, true), x, y); });
  case Intrinsic::smax: return each2([&](const V &x, const V &y) { return sel(D.lt(x, y, true), y, x); });
  case Intrinsic::abs: r = sel(D.lt(a[0], D.cst(w, 0), true), D.sub(D.cst(w, 0), a[0]), a[0]); return true;
  case Intrinsic::fshl: case Intrinsic::fshr: {
    V s = constAmt(a[2]); bool left = I.getIntrinsicID() == Intrinsic::fshl;
    auto one = [&](u64 k) -> V { k %= w; if (!k) return left ? a[0] : a[1]; return left ? D.or_(D.shl(a[0], k), D.lshr(a[1], w - k)) : D.or_(D.shl(a[0], w - k), D.lshr(a[1], k)); };
    if (s->isConst()) { r = one(s->c); return true; }
    auto sb = D.bitsOf(s, false); if (!sb) { r = D.top("funnel shift"); return true; }
    r = nullptr; for (unsigned k = 0; k < w; k++) { B c = BT; for (unsigned i = 0; (1u << i) < w; i++) c = D.bdd.And(c, (k >> i & 1) ? (*sb)[i] : (*sb)[i] ^ 1); if (D.bdd.And(c, st.pc) == BF) continue; V v = one(k); r = r ? D.mux(c, v, r) : v; if (!r) { r = D.top("funnel shift"); return true; } }
    return true;
  }
  case Intrinsic::umul_with_overflow: {
    if (a[0]->isConst() && a[1]->isConst()) { u128 p = (u128)a[0]->c * a[1]->c; unsigned ww = a[0]->w; r = D.agg({D.cst(ww, (u64)p), D.cst(1, p > maskw(ww))}); return true; }
    const V &x = a[0]->isConst() ? a[1] : a[0]; const V &k = a[0]->isConst() ? a[0] : a[1]; if (!k->isConst()) return false;
    PF q = D.pf(*x); if (!q.ok) return false; u128 mx = q.max * k->c; V m = D.mulc(x, k->c);
    r = D.agg({m, mx <= maskw(x->w) ? D.cst(1, 0) : D.top("overflow flag")}); return true;
  }
  case Intrinsic::uadd_with_overflow: { V s = D.add(a[0], a[1]); auto o = D.lt(s, a[0], false); if (!o) return false; r = D.agg({s, D.fromB(1, *o)}); return true; }
  case Intrinsic::usub_with_overflow: { V s = D.sub(a[0], a[1]); auto o = D.lt(a[0], a[1], false); if (!o) return false; r = D.agg({s, D.fromB(1, *o)}); return true; }
  case Intrinsic::usub_sat: r = sel(D.lt(a[0], a[1], false), D.cst(w, 0), D.sub(a[0], a[1])); return true;
  case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::sqrt: case Intrinsic::log2: case Intrinsic::fabs:
    if (a[0]->k != Val::FP) { r = D.top("floating point function of unknown"); return true; }
    switch (I.getIntrinsicID()) { case Intrinsic::ceil: r = D.fp(std::ceil(a[0]->d)); break; case Intrinsic::floor: r = D.fp(std::floor(a[0]->d)); break; case Intrinsic::sqrt: r = D.fp(std::sqrt(a[0]->d)); break; case Intrinsic::log2: r = D.fp(std::log2(a[0]->d)); break; default: r = D.fp(std::fabs(a[0]->d)); }
    return true;
  case Intrinsic::fmuladd: if (a[0]->k != Val::FP || a[1]->k != Val::FP || a[2]->k != Val::FP) { r = D.top("fma"); return true; } r = D.fp(a[0]->d * a[1]->d + a[2]->d); return true;
  case Intrinsic::x86_bmi_pdep_32: case Intrinsic::x86_bmi_pdep_64: r = D.pdep(a[0], a[1]); return true;
  case Intrinsic::x86_bmi_pext_32: case Intrinsic::x86_bmi_pext_64: r = D.pext(a[0], a[1]); return true;
  case Intrinsic::x86_bmi_bextr_32: case Intrinsic::x86_bmi_bextr_64: r = bextr(a[0], a[1], w); return true;
  case Intrinsic::x86_bmi_bzhi_64: case Intrinsic::x86_bmi_bzhi_32: { V n = D.zext(D.trunc(a[1], 8), w); r = bextr(a[0], D.shl(n, 8), w); return true; }
  case Intrinsic::x86_avx2_pshuf_b: case Intrinsic::x86_avx512_pshuf_b_512: case Intrinsic::x86_ssse3_pshuf_b_128: {
    std::vector<V> e; for (size_t i = 0; i < a[0]->el.size(); i++) { V m = a[1]->el[i]; if (!m->isConst()) { // table lookup within the lane
          std::vector<V> tab; for (int k = 0; k < 16; k++) tab.push_back(a[0]->el[(i & ~15u) + k]);
          auto mb = D.bitsOf(m); if (!mb) { e.push_back(D.top("pshufb")); continue; }
          V x = tab[0]; for (int k = 1; k < 16; k++) { B c = BT; for (int q = 0; q < 4; q++) c = D.bdd.And(c, (k >> q & 1) ? (*mb)[q] : (*mb)[q] ^ 1); V y = D.mux(c, tab[k], x); x = y ? y : D.top("pshufb"); }
          V z = D.mux((*mb)[7], D.cst(8, 0), x); e.push_back(z ? z : D.top("pshufb")); continue; }
      e.push_back((m->c & 0x80) ? D.cst(8, 0) : a[0]->el[(i & ~15u) + (m->c & 15)]); }
    r = D.agg(e); return true;
  }
  case Intrinsic::x86_avx2_psad_bw: case Intrinsic::x86_avx512_psad_bw_512: case Intrinsic::x86_sse2_psad_bw: {
    std::vector<V> e; for (size_t g = 0; g * 8 < a[0]->el.size(); g++) { V s = D.cst(64, 0); for (int k = 0; k < 8; k++) { V x = a[0]->el[g * 8 + k], y = a[1]->el[g * 8 + k]; if (!y->isConst() || y->c) return false; s = D.add(s, D.zext(x, 64)); } e.push_back(s); }
    r = D.agg(e); return true;
  }
  case Intrinsic::vector_reduce_add: { V s = a[0]->el[0]; for (size_t i = 1; i < a[0]->el.size(); i++) s = D.add(s, a[0]->el[i]); r = s; return true; }
  case Intrinsic::vector_reduce_or: { V s = a[0]->el[0]; for (size_t i = 1; i < a[0]->el.size(); i++) s = D.or_(s, a[0]->el[i]); r = s; return true; }
  case Intrinsic::vector_reduce_xor: { V s = a[0]->el[0]; for (size_t i = 1; i < a[0]->el.size(); i++) s = D.xor_(s, a[0]->el[i]); r = s; return true; }
  case Intrinsic::vector_reduce_and: { V s = a[0]->el[0]; for (size_t i = 1; i < a[0]->el.size(); i++) s = D.and_(s, a[0]->el[i]); r = s; return true; }
  case Intrinsic::x86_avx2_permd: { std::vector<V> e; for (size_t i = 0; i < a[1]->el.size(); i++) { V m = a[1]->el[i]; if (!m->isConst()) return false; e.push_back(a[0]->el[m->c & 7]); } r = D.agg(e); return true; }
  case Intrinsic::x86_avx512_permvar_di_256: case Intrinsic::x86_avx512_permvar_qi_256: case Intrinsic::x86_avx512_permvar_hi_256: case Intrinsic::x86_avx512_permvar_si_512: case Intrinsic::x86_avx512_permvar_di_512: { size_t nn = a[0]->el.size(); std::vector<V> e; for (size_t i = 0; i < nn; i++) { V m = a[1]->el[i]; if (!m->isConst()) return false; e.push_back(a[0]->el[m->c & (nn - 1)]); } r = D.agg(e); return true; }
  case Intrinsic::x86_avx2_psll_q: case Intrinsic::x86_avx2_pslli_q: case Intrinsic::x86_avx2_psrli_q: case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrli_q: {
    V s = D.simp(I.getIntrinsicID() == Intrinsic::x86_avx2_psll_q ? a[1]->el[0] : a[1]); if (!s->isConst()) return false; bool l = I.getIntrinsicID() != Intrinsic::x86_avx2_psrli_q && I.getIntrinsicID() != Intrinsic::x86_sse2_psrli_q;
    return each1([&](const V &x) { if (s->c >= 64) return D.cst(64, 0); return l ? D.shl(x, s->c) : D.lshr(x, s->c); });
  }
  case Intrinsic::x86_avx2_psllv_q: case Intrinsic::x86_avx2_psllv_q_256: case Intrinsic::x86_avx2_psrlv_q: case Intrinsic::x86_avx2_psrlv_q_256: {
    bool l = I.getIntrinsicID() == Intrinsic::x86_avx2_psllv_q || I.getIntrinsicID() == Intrinsic::x86_avx2_psllv_q_256;
    return each2([&](const V &x, const V &s0) -> V { V s = D.simp(s0); if (s->isConst()) return s->c >= 64 ? D.cst(64, 0) : l ? D.shl(x, s->c) : D.lshr(x, s->c); auto b = D.bitsOf(s, false); if (!b) return D.top("vector shift"); return D.vshift(x, s, l ? 0 : 1); });
  }
  case Intrinsic::x86_avx2_pslli_w: case Intrinsic::x86_avx2_psrli_w: case Intrinsic::x86_avx2_pslli_d: case Intrinsic::x86_avx2_psrli_d: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_psrli_d: {
    auto id = I.getIntrinsicID(); bool l = id == Intrinsic::x86_avx2_pslli_w || id == Intrinsic::x86_avx2_pslli_d || id == Intrinsic::x86_sse2_pslli_w || id == Intrinsic::x86_sse2_pslli_d;
    V s = D.simp(a[1]); if (!s->isConst()) return false;
    return each1([&](const V &x) { if (s->c >= w) return D.cst(w, 0); return l ? D.shl(x, s->c) : D.lshr(x, s->c); });
  }
  case Intrinsic::x86_mmx_pslli_w: case Intrinsic::x86_mmx_psrli_w: case Intrinsic::x86_mmx_pslli_d: case Intrinsic::x86_mmx_psrli_d: {
    auto id = I.getIntrinsicID(); bool l = id == Intrinsic::x86_mmx_pslli_w || id == Intrinsic::x86_mmx_pslli_d; unsigned lane = (id == Intrinsic::x86_mmx_pslli_w || id == Intrinsic::x86_mmx_psrli_w) ? 16 : 32;
    V s = D.simp(a[1]); auto b = D.bitsOf(a[0]); if (!s->isConst() || !b) return false; std::vector<B> o(64, BF);
    for (unsigned i = 0; i < 64; i++) { int src = l ? (int)(i % lane) - (int)std::min<u64>(s->c, 64) : (int)(i % lane) + (int)std::min<u64>(s->c, 64); if (src >= 0 && src < (int)lane) o[i] = (*b)[i / lane * lane + src]; }
    r = D.fromBits(o); return true; }
  case Intrinsic::x86_mmx_por: r = D.or_(a[0], a[1]); return true;
  case Intrinsic::x86_mmx_pand: r = D.and_(a[0], a[1]); return true;
  case Intrinsic::x86_mmx_pxor: r = D.xor_(a[0], a[1]); return true;
  case Intrinsic::x86_mmx_emms: return true;
  case Intrinsic::x86_avx2_pmovmskb: { std::vector<B> o(32, BF); for (size_t i = 0; i < 32; i++) { auto b = D.bitsOf(a[0]->el[i]); if (!b) return false; o[i] = (*b)[7]; } r = D.fromBits(o); return true; }
  case Intrinsic::x86_avx_movmsk_pd_256: return false;
  default: return false;
  }
}
