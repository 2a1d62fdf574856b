#include "engine.h"
#include <ctime>
#include <cmath>

double Engine::now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void Engine::reset() {
  D.reset(); gobj.clear(); objG.clear(); constObjs.clear(); objAtom.clear(); typeIds.clear();
  lazyBytes.clear(); lazySyms.clear(); nextObj = 1; nextHid = 1; seq = 1; intIdx = 0; usedInt = false;
  stack.clear(); active.clear(); depth = exdepth = 0; steps = 0;
}

FuncInfo &Engine::info(const Function *F) {
  auto &p = finfo[F];
  if (p) return *p;
  p = std::make_shared<FuncInfo>(); p->F = const_cast<Function *>(F);
  for (auto &a : F->args()) p->num[&a] = p->n++;
  for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++;
  p->dt.recalculate(*p->F);
  for (auto &bb : *F) for (auto *q : predecessors(&bb)) if (p->dt.dominates(&bb, q)) p->loops[&bb].latches.insert(q);
  for (auto &l : p->loops) for (int phi = 1; phi >= 0; phi--) for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy() && isa<PHINode>(i) * (&bb == l.first) == phi && (phi || (&bb != l.first && p->dt.dominates(&bb, l.first)))) l.second.live.push_back(p->num[&i]);
  // post-dominators of the sub-graph of blocks that can reach a return
  std::vector<const BasicBlock *> work; std::set<const BasicBlock *> live;
  for (auto &bb : *F) if (isa<ReturnInst>(bb.getTerminator())) { work.push_back(&bb); live.insert(&bb); }
  while (!work.empty()) { auto *b = work.back(); work.pop_back(); for (auto *q : predecessors(b)) if (live.insert(q).second) work.push_back(q); }
  // order: reverse post order of the reverse graph
  std::vector<const BasicBlock *> order; std::set<const BasicBlock *> seen;
  std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) {
    std::vector<std::pair<const BasicBlock *, std::vector<const BasicBlock *>>> st;
    auto preds = [&](const BasicBlock *x) { std::vector<const BasicBlock *> v; for (auto *q : predecessors(x)) if (live.count(q)) v.push_back(q); return v; };
    seen.insert(b); st.push_back({b, preds(b)});
    while (!st.empty()) {
      auto &t = st.back();
      if (t.second.empty()) { order.push_back(t.first); st.pop_back(); continue; }
      auto *n = t.second.back(); t.second.pop_back();
      if (seen.insert(n).second) st.push_back({n, preds(n)});
    }
  };
  for (auto &bb : *F) if (isa<ReturnInst>(bb.getTerminator()) && !seen.count(&bb)) dfs(&bb);
  std::map<const BasicBlock *, int> idx; for (size_t i = 0; i < order.size(); i++) idx[order[i]] = i;
  int root = order.size(); std::vector<int> ip(order.size() + 1, -1); ip[root] = root;
  auto inter = [&](int a, int b) { while (a != b) { while (a < b) a = ip[a]; while (b < a) b = ip[b]; } return a; };
  bool ch = true;
  while (ch) {
    ch = false;
    for (int i = (int)order.size() - 1; i >= 0; i--) {
      int n = -1;
      if (isa<ReturnInst>(order[i]->getTerminator())) n = root;
      for (auto *s : successors(order[i])) { auto it = idx.find(s); if (it == idx.end() || ip[it->second] < 0) continue; n = n < 0 ? it->second : inter(n, it->second); }
      if (n >= 0 && ip[i] != n) { ip[i] = n; ch = true; }
    }
  }
  for (size_t i = 0; i < order.size(); i++) p->ipdom[order[i]] = (ip[i] < 0 || ip[i] == root) ? nullptr : order[ip[i]];
  return *p;
}

// ------------------------------------------------------------------ reporting
std::string Engine::where(const Instruction *at) {
  if (!at) return "?";
  if (auto dl = at->getDebugLoc()) {
    std::string s = dl->getFilename().str(); return s + ":" + std::to_string(dl.getLine());
  }
  return demangle(at->getFunction()->getName().str());
}
static std::string shortFn(const Function *f) { std::string s = demangle(f->getName().str()); if (s.size() > 160) s = s.substr(0, 157) + "..."; return s; }
std::string Engine::stackStr() {
  std::string s;
  for (auto it = stack.rbegin(); it != stack.rend(); ++it) { if (!s.empty()) s += " <- "; s += shortFn((*it)->getFunction()) + "@" + where(*it); }
  return s;
}
std::string Engine::modelStr(const Dom::Model &m) {
  std::string s; std::map<std::string, std::string> words; std::vector<std::string> order;
  // group boolean variables "name.bit"
  std::map<std::string, u64> w;
  for (size_t i = 0; i < D.vars.size(); i++) {
    auto &v = D.vars[i]; if (v.k != Dom::VarInfo::BASE && v.k != Dom::VarInfo::UNDEF) continue;
    if (!w.count(v.name)) { order.push_back(v.name); w[v.name] = 0; }
    if (i < m.b.size() && m.b[i] && v.bit < 64) w[v.name] |= 1ull << v.bit;
  }
  int n = 0;
  for (auto &k : order) { if (!w[k]) continue; char buf[64]; snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)w[k]); s += (n++ ? ", " : "") + k + "=" + buf; if (n > 24) { s += ", ..."; break; } }
  for (size_t i = 0; i < D.ints.size(); i++) if (D.ints[i].obj < 0 && !D.ints[i].def && i < m.i.size()) { s += (n++ ? ", " : "") + D.ints[i].name + "=" + std::to_string(m.i[i]); if (n > 40) break; }
  if (s.empty()) s = "all inputs zero";
  return s;
}
bool Engine::definite(State &st, B cond, Dom::Model &m) {
  B f = D.bdd.And(st.pc, cond);
  if (f == BF) return false;
  bool simple = !D.haveDerived && st.cons.empty();
  for (int style = 0; style < (simple ? 1 : 400); style++) {
    if (!D.model(f, m, rng, style)) continue;
    if (simple) return true;
    bool ok = true;
    for (auto &d : st.cons) { i128 s = d.c; for (auto &x : d.t) s += x.second * (isIntAtom(x.first) ? (i128)m.i[x.first >> 1] : (i128)D.bdd.eval(x.first, m.b)); if (s < 0) { ok = false; break; } }
    if (ok) return true;
  }
  return false;
}
void Engine::report(const std::string &rule, const std::string &msg, const Instruction *at, State &st, B bad) {
  Dom::Model m; Finding f; f.rule = rule; f.msg = msg; f.loc = where(at); f.stack = stackStr();
  if (definite(st, bad, m)) { f.k = Finding::REFUTED; f.model = modelStr(m); nRefuted++; }
  else { f.k = Finding::UNKNOWN; nUnknown++; }
  if (fset.insert(f).second) findings.push_back(f);
}

// ------------------------------------------------------------------ constants and objects
V Engine::zeroOf(Type *t) {
  if (t->isX86_MMXTy()) return D.cst(64, 0);
  if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) throw Undecided("integer wider than 64 bits"); return D.cst(t->getIntegerBitWidth(), 0); }
  if (t->isPointerTy()) return D.cst(64, 0);
  if (t->isFloatingPointTy()) return D.fp(0);
  std::vector<V> e;
  if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) e.push_back(zeroOf(x));
  else if (auto *a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) e.push_back(zeroOf(a->getElementType()));
  else if (auto *v = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < v->getNumElements(); i++) e.push_back(zeroOf(v->getElementType()));
  else throw Undecided("zero of unknown type");
  return D.agg(e);
}
V Engine::undefOf(Type *t) {
  if (t->isIntegerTy() || t->isPointerTy() || t->isX86_MMXTy()) {
    unsigned w = t->isPointerTy() || t->isX86_MMXTy() ? 64 : t->getIntegerBitWidth(); if (w > 64) throw Undecided("integer wider than 64 bits");
    std::vector<B> b; for (unsigned i = 0; i < w; i++) { b.push_back(D.newVar(Dom::VarInfo::UNDEF, "indeterminate")); D.vars.back().bit = i; }
    return D.fromBits(b);
  }
  if (t->isFloatingPointTy()) return D.top("undefined floating point value");
  std::vector<V> e;
  if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) e.push_back(undefOf(x));
  else if (auto *a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) e.push_back(undefOf(a->getElementType()));
  else if (auto *v = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < v->getNumElements(); i++) e.push_back(undefOf(v->getElementType()));
  return D.agg(e);
}
V Engine::baseOf(int id) {
  auto it = objAtom.find(id);
  uint32_t a;
  if (it == objAtom.end()) { a = D.newInt(1ull << 40, "&obj" + std::to_string(id)); D.ints[a >> 1].obj = id; objAtom[id] = a; }
  else a = it->second;
  return D.lin(64, 4096, {{a, 4096}});
}
int Engine::newObj(State &s, V size, Obj::K k, const std::string &nm) {
  int id = nextObj++; auto o = std::make_shared<Obj>(); o->id = id; o->size = size; o->kind = k; o->name = nm;
  s.mem[id] = o; return id;
}
int Engine::globalObj(const GlobalObject *g) {
  auto it = gobj.find(g); if (it != gobj.end()) return it->second;
  int id = nextObj++; gobj[g] = id; objG[id] = g; return id;
}
void Engine::initCells(Obj &o, const Constant *c, u64 off) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return; // zero-filled default is fine for globals
  if (c->isNullValue()) return;
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initCells(o, s->getOperand(i), off + sl->getElementOffset(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initCells(o, a->getOperand(i), off + i * es); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(d->getElementType()); for (unsigned i = 0; i < d->getNumElements(); i++) initCells(o, d->getElementAsConstant(i), off + i * es); return; }
  if (auto *v = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(v->getType()->getElementType()); for (unsigned i = 0; i < v->getNumOperands(); i++) initCells(o, v->getOperand(i), off + i * es); return; }
  unsigned sz = DL->getTypeStoreSize(t);
  V x = constant(c);
  if (x->isInt() && x->w != sz * 8) x = D.zext(x, sz * 8);
  o.cells[{}][(i64)off] = Cell{x, sz, 0};
}
OP Engine::materialize(int id) {
  auto it = constObjs.find(id); if (it != constObjs.end()) return it->second;
  const GlobalObject *g = objG[id];
  auto o = std::make_shared<Obj>(); o->id = id; o->kind = Obj::GLOBAL; o->name = demangle(g->getName().str());
  if (auto *gv = dyn_cast<GlobalVariable>(g)) {
    o->size = D.cst(64, DL->getTypeAllocSize(gv->getValueType()));
    if (gv->hasInitializer()) { o->def = Obj::ZERO; o->ro = gv->isConstant(); initCells(*o, gv->getInitializer(), 0); }
    else { o->kind = Obj::EXT; }
    o->align = gv->getAlign() ? gv->getAlign()->value() : 8;
  } else { o->kind = Obj::FUNC; o->size = D.cst(64, 1); }
  constObjs[id] = o; return o;
}
OP Engine::getObj(State &s, int id) {
  auto it = s.mem.find(id); if (it != s.mem.end()) return it->second;
  if (objG.count(id)) return materialize(id);
  return nullptr;
}
bool Engine::isFrozen(const State &s, const Obj &o) const {
  if (!s.frozen) return false;
  if (o.kind == Obj::HEAP) return o.id < s.frozen;
  if (o.kind == Obj::GLOBAL) { auto it = objG.find(o.id); auto *gv = it == objG.end() ? nullptr : dyn_cast<GlobalVariable>(it->second); return !s.guard && !(gv && gv->isThreadLocal()); }
  return s.frozenStack.count(o.id) > 0;
}
Obj &Engine::mut(State &s, int id) {
  auto &p = s.mem[id];
  if (!p) { p = std::make_shared<Obj>(*materialize(id)); return *p; }
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}
V Engine::constant(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Undecided("integer wider than 64 bits"); return D.cst(ci->getBitWidth(), ci->getZExtValue()); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { bool l; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return D.fp(f.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return D.cst(64, 0);
  if (isa<UndefValue>(c)) return undefOf(c->getType());
  if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (isa<ConstantAggregate>(c)) { std::vector<V> e; for (auto &o : c->operands()) e.push_back(constant(cast<Constant>(o))); return D.agg(e); }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { std::vector<V> e; for (unsigned i = 0; i < d->getNumElements(); i++) e.push_back(constant(d->getElementAsConstant(i))); return D.agg(e); }
  if (auto *al = dyn_cast<GlobalAlias>(c)) return constant(al->getAliasee());
  if (auto *g = dyn_cast<GlobalObject>(c)) return baseOf(globalObj(g));
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(e)) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Undecided("constant gep"); return D.add(constant(cast<Constant>(g->getPointerOperand())), D.cst(64, off.getZExtValue())); }
    switch (e->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return toInt(constant(e->getOperand(0)), e->getType()->isPointerTy() ? 64 : e->getType()->getIntegerBitWidth());
    case Instruction::Trunc: return D.trunc(constant(e->getOperand(0)), e->getType()->getIntegerBitWidth());
    case Instruction::ZExt: return D.zext(constant(e->getOperand(0)), e->getType()->getIntegerBitWidth());
    case Instruction::Add: return D.add(constant(e->getOperand(0)), constant(e->getOperand(1)));
    case Instruction::Sub: return D.sub(constant(e->getOperand(0)), constant(e->getOperand(1)));
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  throw Undecided("constant expression " + s.substr(0, 100));
}
V Engine::toInt(const V &v, unsigned w) { if (!v->isInt()) return v; return w < v->w ? D.trunc(v, w) : w > v->w ? D.zext(v, w) : v; }
V Engine::operand(Ctx &c, FuncInfo &fi, const Value *v) {
  if (auto *k = dyn_cast<Constant>(v)) return constant(k);
  auto it = fi.num.find(v);
  if (it == fi.num.end()) throw Undecided("metadata operand");
  V r = c.regs[it->second];
  if (!r) throw Undecided("use of a dropped register");
  return r;
}

// ------------------------------------------------------------------ memory
void Engine::splitOff(const V &off, Sym &sym, i64 &o) { sym = off->t; o = (i64)off->c; }
bool Engine::resolve(State &s, const V &p, int &id, V &off) {
  if (!p->isInt()) throw Undecided("unknown pointer: " + p->why);
  id = -1;
  uint32_t atom = 0;
  for (auto &x : p->t) if (isIntAtom(x.first) && D.ints[x.first >> 1].obj >= 0) {
    if (x.second != 4096 || id >= 0) throw Undecided("pointer arithmetic across objects");
    id = D.ints[x.first >> 1].obj; atom = x.first;
  }
  if (id < 0) return false;
  off = D.sub(p, D.lin(64, 4096, {{atom, 4096}}));
  return true;
}
// a >= b (unsigned, both exact)
int Engine::isGE(State &s, const V &a, const V &b) { ctx(s); auto r = D.lt(a, b, false); if (!r) return -1; B x = D.bdd.And(s.pc, *r); if (x == BF) return 1; if (D.bdd.And(s.pc, *r ^ 1) == BF) return 0; return -1; }
bool Engine::disjoint(State &s, const Sym &a, i64 ao, u64 an, const Sym &b, i64 bo, u64 bn) {
  // signed difference of two 64-bit offsets whose magnitudes are far below 2^62
  ctx(s);
  V x = D.lin(64, (u64)ao, a), y = D.lin(64, (u64)bo, b);
  PF p = D.pf(*x), q = D.pf(*y);
  if (!p.ok || !q.ok) return false;
  DLin d = D.dsub(D.dl(q), D.dl(p)); d.c -= (i128)an; // b - a - an >= 0
  if (D.decideGE0(d) == 1) return true;
  DLin e = D.dsub(D.dl(p), D.dl(q)); e.c -= (i128)bn;
  return D.decideGE0(e) == 1;
}
V Engine::sliceBytes(const V &v, unsigned from, unsigned n) {
  if (!v->isInt()) { if (from == 0) return v; throw Undecided("partial read of a non-integer"); }
  return D.trunc(D.lshr(v, from * 8), n * 8);
}
V Engine::lazyByte(const Obj &o, int hid, const Sym &sym, i64 off, Dom::VarInfo::K k) {
  auto key = std::make_tuple(hid, sym, off);
  auto it = lazyBytes.find(key);
  if (it == lazyBytes.end()) {
    std::vector<B> b; std::string nm = k == Dom::VarInfo::UNDEF ? "indeterminate" : "mem" + std::to_string(hid);
    // consecutive variables per aligned 8-byte word
    for (int i = 0; i < 8; i++) { b.push_back(D.newVar(k, nm + (sym.empty() ? "" : "[s]") + "[" + std::to_string(off >> 3) + "]")); D.vars.back().bit = (off & 7) * 8 + i; }
    it = lazyBytes.emplace(key, b).first; lazySyms[hid].insert(sym);
  }
  return D.fromBits(it->second);
}
V Engine::gapByte(State &s, const Obj &o, const Sym &sym, i64 off, u64 minSeq) {
  for (auto it = o.regions.rbegin(); it != o.regions.rend(); ++it) {
    ctx(s);
    V rel = D.sub(D.lin(64, (u64)off, sym), it->start);
    V a = D.lin(64, (u64)off, sym);
    int ge = isGE(s, a, it->start);
    if (ge == 0) continue;
    int lt = isGE(s, a, D.add(it->start, it->len)) ;
    if (lt == 1) continue;
    if (ge != 1 || lt != 0) throw Undecided("read may or may not fall in a bulk-written region");
    if (it->seq < minSeq) return nullptr;
    if (it->k == Region::FILL) {
      V r = D.udivrem(rel, it->esize, true);
      if (!r->isConst()) throw Undecided("offset within fill element");
      return sliceBytes(it->elem, r->c, 1);
    }
    V so = D.add(it->srcStart, rel); Sym ss; i64 oo; splitOff(so, ss, oo);
    return readAt(s, *it->src, ss, oo, 1);
  }
  if (o.defSeq < minSeq) return nullptr;
  if (o.def == Obj::ZERO) return D.cst(8, 0);
  if (o.def == Obj::LAZYD) {
    for (auto &s2 : lazySyms[o.hid]) if (s2 != sym) {
      // distinct symbolic parts must be provably different bytes: checked lazily at byte level against what was created
      for (auto it = lazyBytes.lower_bound({o.hid, s2, INT64_MIN}); it != lazyBytes.end() && std::get<0>(it->first) == o.hid && std::get<1>(it->first) == s2; ++it)
        if (!disjoint(s, sym, off, 1, s2, std::get<2>(it->first), 1)) throw Undecided("two symbolic positions may coincide");
    }
    return lazyByte(o, o.hid, sym, off, Dom::VarInfo::BASE);
  }
  return lazyByte(o, -o.id, sym, off, Dom::VarInfo::UNDEF);
}
V Engine::readAt(State &s, const Obj &o, const Sym &sym, i64 off, unsigned bytes) {
  auto self = o.cells.find(sym);
  const std::map<i64, Cell> *cm = self == o.cells.end() ? nullptr : &self->second;
  // exact hit
  u64 foreign = 0;
  if (o.cells.size() > (cm ? 1u : 0u)) {
    for (auto &g : o.cells) if (g.first != sym) for (auto &c : g.second) if (!disjoint(s, sym, off, bytes, g.first, c.first, c.second.size)) {
      // an older cell that was fully overwritten by a newer exact cell is harmless
      if (cm) { auto e = cm->find(off); if (e != cm->end() && e->second.size >= bytes && e->second.seq > c.second.seq) continue; }
      throw Undecided("a read may overlap a cell at another symbolic offset in " + o.name);
    }
  }
  (void)foreign;
  u64 rs = o.defSeq; for (auto &r : o.regions) rs = std::max(rs, r.seq);
  if (cm) { auto e = cm->find(off); if (e != cm->end() && e->second.size == bytes && e->second.seq >= rs) return e->second.v; }
  std::vector<std::pair<V, unsigned>> parts; // value, nbytes
  unsigned i = 0;
  while (i < bytes) {
    i64 pos = off + i; const Cell *hit = nullptr; i64 hp = 0;
    if (cm) { auto it = cm->upper_bound(pos); if (it != cm->begin()) { --it; if (it->first + (i64)it->second.size > pos) { hit = &it->second; hp = it->first; } } }
    if (hit) {
      if (hit->seq < rs) { V g = gapByte(s, o, sym, pos, hit->seq + 1); if (g) { parts.push_back({g, 1}); i++; continue; } }
      unsigned n = hit->seq < rs ? 1 : std::min<unsigned>(bytes - i, hp + hit->size - pos);
      parts.push_back({sliceBytes(hit->v, pos - hp, n), n}); i += n;
    } else { parts.push_back({gapByte(s, o, sym, pos, 0), 1}); i++; }
  }
  if (parts.size() == 1) return parts[0].first;
  // all bit-sliced: assemble directly
  std::vector<B> bits; bool ok = true;
  for (auto &p : parts) { if (!p.first->isInt()) { throw Undecided("mixed float/int bytes"); } if (!D.isSliced(p.first)) { ok = false; break; } auto b = D.bitsOf(p.first); bits.insert(bits.end(), b->begin(), b->end()); }
  if (ok) return D.fromBits(bits);
  V r = D.cst(bytes * 8, 0); unsigned sh = 0;
  for (auto &p : parts) { r = D.add(r, D.shl(D.zext(p.first, bytes * 8), sh * 8)); sh += p.second; }
  return r;
}
void Engine::writeAt(State &s, Obj &o, const Sym &sym, i64 off, unsigned bytes, const V &v) {
  for (auto &g : o.cells) if (g.first != sym) for (auto &c : g.second) if (!disjoint(s, sym, off, bytes, g.first, c.first, c.second.size)) throw Undecided("a write may overlap a cell at another symbolic offset in " + o.name);
  if (o.def == Obj::LAZYD) for (auto &s2 : lazySyms[o.hid]) if (s2 != sym) {
    for (auto it = lazyBytes.lower_bound({o.hid, s2, INT64_MIN}); it != lazyBytes.end() && std::get<0>(it->first) == o.hid && std::get<1>(it->first) == s2; ++it)
      if (!disjoint(s, sym, off, bytes, s2, std::get<2>(it->first), 1)) throw Undecided("a write may overlap an unknown at another symbolic offset");
  }
  auto &cm = o.cells[sym];
  auto it = cm.upper_bound(off); if (it != cm.begin()) --it;
  while (it != cm.end() && it->first < off + (i64)bytes) {
    i64 p = it->first; Cell c = it->second;
    if (p + (i64)c.size <= off) { ++it; continue; }
    it = cm.erase(it);
    if (p < off) cm[p] = Cell{sliceBytes(c.v, 0, off - p), (unsigned)(off - p), c.seq};
    if (p + (i64)c.size > off + (i64)bytes) { i64 q = off + bytes; cm[q] = Cell{sliceBytes(c.v, q - p, p + c.size - q), (unsigned)(p + c.size - q), c.seq}; }
    it = cm.lower_bound(off);
  }
  cm[off] = Cell{v, bytes, ++seq};
}
bool Engine::boundsOK(State &s, const Obj &o, const V &off, u64 len, const Instruction *at, const char *what) {
  nBounds++;
  if (o.kind == Obj::EXT) throw Undecided("access to external object " + o.name);
  if (o.size->isConst() && o.size->c < len) { report("bounds", std::string(what) + " of " + std::to_string(len) + " bytes in " + o.name + " of size " + std::to_string(o.size->c), at, s, BT); return false; }
  if (off->isConst() && o.size->isConst()) {
    if (off->c <= o.size->c - len) return true;
    report("bounds", std::string(what) + " out of bounds: offset " + std::to_string((i64)off->c) + " in " + o.name + " of size " + std::to_string(o.size->c), at, s, BT); return false;
  }
  ctx(s);
  V lim = D.sub(o.size, D.cst(64, len - 1));
  if (!o.size->isConst()) { // size >= len ?
    int g = isGE(s, o.size, D.cst(64, len));
    if (g != 1) { if (g == 0) { report("bounds", std::string(what) + " out of bounds in " + o.name, at, s, BT); return false; } nUnknown++; Finding f{Finding::UNKNOWN, "bounds", "undecided size of " + o.name, where(at), stackStr(), ""}; if (fset.insert(f).second) findings.push_back(f); return true; }
  }
  auto r = D.lt(off, lim, false);
  if (!r) { nUnknown++; Finding f{Finding::UNKNOWN, "bounds", "undecided offset in " + o.name, where(at), stackStr(), ""}; if (fset.insert(f).second) findings.push_back(f); return true; }
  B bad = D.bdd.And(s.pc, *r ^ 1);
  if (bad == BF) return true;
  report("bounds", std::string(what) + " out of bounds in " + o.name, at, s, *r ^ 1);
  if (D.bdd.And(s.pc, *r) == BF) return false;
  assume(s, *r);
  return true;
}
std::vector<std::pair<B, V>> Engine::enumerate(State &s, const V &off, size_t limit) {
  ctx(s);
  std::vector<Term> ia; std::map<u64, B> cur{{off->c, BT}};
  std::vector<Term> bt;
  for (auto &x : off->t) { if (isIntAtom(x.first)) ia.push_back(x); else bt.push_back(x); }
  std::sort(bt.begin(), bt.end(), [&](const Term &a, const Term &b) { return D.bdd.var(a.first) < D.bdd.var(b.first); });
  for (auto &x : bt) {
    std::map<u64, B> nx;
    for (auto &c : cur) {
      B t = D.bdd.And(c.second, x.first), f = D.bdd.And(c.second, x.first ^ 1);
      if (t != BF && D.bdd.And(t, s.pc) != BF) { auto &r = nx.emplace(c.first + x.second, BF).first->second; r = D.bdd.Or(r, t); }
      if (f != BF && D.bdd.And(f, s.pc) != BF) { auto &r = nx.emplace(c.first, BF).first->second; r = D.bdd.Or(r, f); }
    }
    cur.swap(nx);
    if (cur.size() > limit) throw Undecided("too many alternatives for an address");
  }
  std::vector<std::pair<B, V>> out;
  for (auto &c : cur) out.push_back({c.second, D.lin(off->w, c.first, ia)});
  return out;
}
void Engine::split(State &s, const std::vector<std::pair<B, V>> &alts, const char *why) {
  Split sp; for (auto &a : alts) if (D.bdd.And(s.pc, a.first) != BF) sp.cases.push_back(a.first);
  if (sp.cases.size() < 2 || nSplits > 4000) throw Undecided(why);
  nSplits += sp.cases.size(); throw sp;
}
static bool boolFree(const V &v) { for (auto &x : v->t) if (!isIntAtom(x.first)) return false; return true; }
V Engine::loadVal(State &s, const V &p, unsigned bytes, const Instruction *at) {
  int id; V off;
  if (!resolve(s, p, id, off)) {
    if (p->isConst()) { report("null", p->c == 0 ? "null pointer dereference (read)" : "wild pointer dereference (read)", at, s, BT); return undefOf(IntegerType::get(M->getContext(), bytes * 8)); }
    ctx(s); auto e = D.eq(p, D.cst(64, 0)); (void)e;
    throw Undecided("load through an unknown pointer");
  }
  OP o = getObj(s, id);
  if (!o) { report("lifetime", "read of an object whose lifetime has ended", at, s, BT); return undefOf(IntegerType::get(M->getContext(), bytes * 8)); }
  if (!boundsOK(s, *o, off, bytes, at, "read")) return undefOf(IntegerType::get(M->getContext(), bytes * 8));
  if (boolFree(off)) { Sym sy; i64 oo; splitOff(off, sy, oo); return readAt(s, *o, sy, oo, bytes); }
  ctx(s); off = D.simp(off);
  if (boolFree(off)) { Sym sy; i64 oo; splitOff(off, sy, oo); return readAt(s, *o, sy, oo, bytes); }
  // constant tables
  if (o->ro && o->size->isConst() && o->size->c <= (1 << 16) && D.boolOnly(*off)) {
    std::vector<u64> tab; bool ok = true;
    if (auto ob = D.bitsOf(off, false)) {
      unsigned nb = 0; for (B x : *ob) if (x != BT && x != BF) nb++;
      if (nb <= 14) {
        static std::map<std::pair<const Obj *, unsigned>, std::vector<u64>> cache;
        for (u64 x = 0; x + bytes <= o->size->c && ok; x++) {
          bool need = true; for (unsigned i = 0; i < 64 && need; i++) if (((*ob)[i] == BT && !(x >> i & 1)) || ((*ob)[i] == BF && (x >> i & 1))) need = false;
          if (!need) { tab.push_back(0); continue; }
          V c = readAt(s, *o, {}, x, bytes); if (!c->isConst()) { ok = false; break; } tab.push_back(c->c);
        }
        if (ok) { V r = D.table(off, tab, bytes * 8); if (r) return r; }
      }
    }
  }
  auto alts = enumerate(s, off);
  V r;
  for (auto &a : alts) {
    Sym sy; i64 oo; splitOff(a.second, sy, oo);
    if (o->size->isConst() && a.second->isConst() && a.second->c + bytes > o->size->c) continue; // excluded by the bounds assumption
    V x = readAt(s, *o, sy, oo, bytes);
    if (!r) { r = x; continue; }
    V m = D.mux(a.first, x, r);
    if (!m) split(s, alts, "cannot join alternatives of a read");
    r = m;
  }
  if (!r) throw Undecided("no alternative for a read");
  return r;
}
V Engine::loadInt(State &s, const V &p, unsigned bytes, const Instruction *at) { V r = loadVal(s, p, bytes, at); if (!r->isInt()) throw Undecided("integer read of a floating value"); return r; }
V Engine::load(State &s, const V &p, Type *t, const Instruction *at, unsigned align) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    if (align >= 16) { int id; V off; if (resolve(s, p, id, off)) { OP o = getObj(s, id); if (o && o->align < align) { nUB++; report("alignment", "vector access assumes " + std::to_string(align) + "-byte alignment of storage that is only " + std::to_string(o->align) + "-byte aligned", at, s, BT); } } }
    std::vector<V> e; u64 es = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) e.push_back(load(s, D.add(p, D.cst(64, i * es)), vt->getElementType(), at));
    return D.agg(e);
  }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); std::vector<V> e; for (unsigned i = 0; i < st->getNumElements(); i++) e.push_back(load(s, D.add(p, D.cst(64, sl->getElementOffset(i))), st->getElementType(i), at)); return D.agg(e); }
  if (auto *ar = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(ar->getElementType()); std::vector<V> e; for (unsigned i = 0; i < ar->getNumElements(); i++) e.push_back(load(s, D.add(p, D.cst(64, i * es)), ar->getElementType(), at)); return D.agg(e); }
  unsigned bytes = DL->getTypeStoreSize(t);
  V v = loadVal(s, p, bytes, at);
  if (t->isFloatingPointTy()) {
    if (v->k == Val::FP || v->isTop()) return v;
    if (v->isConst()) { if (bytes == 8) { double d; u64 c = v->c; memcpy(&d, &c, 8); return D.fp(d); } float f; uint32_t c = v->c; memcpy(&f, &c, 4); return D.fp(f); }
    return D.top("floating point value of unknown bits");
  }
  if (v->isInt()) { unsigned w = t->isPointerTy() || t->isX86_MMXTy() ? 64 : t->getIntegerBitWidth(); if (w > 64) throw Undecided("wide integer"); return toInt(v, w); }
  if (v->k == Val::FP) { u64 c; if (bytes == 8) memcpy(&c, &v->d, 8); else { float f = v->d; uint32_t q; memcpy(&q, &f, 4); c = q; } return D.cst(bytes * 8, c); }
  return v;
}
void Engine::storeInt(State &s, const V &p, const V &v, unsigned bytes, const Instruction *at) {
  int id; V off;
  if (!resolve(s, p, id, off)) {
    if (p->isConst()) { report("null", p->c == 0 ? "null pointer dereference (write)" : "wild pointer dereference (write)", at, s, BT); return; }
    throw Undecided("store through an unknown pointer");
  }
  OP o = getObj(s, id);
  if (!o) { report("lifetime", "write to an object whose lifetime has ended", at, s, BT); return; }
  if (o->ro) { report("const-write", "write to constant object " + o->name, at, s, BT); return; }
  if (!boundsOK(s, *o, off, bytes, at, "write")) return;
  if (isFrozen(s, *o)) { report("effect", "a query writes to storage that existed before it (" + o->name + ")", at, s, BT); return; }
  o.reset();
  ctx(s); if (!boolFree(off)) off = D.simp(off);
  if (boolFree(off)) { Sym sy; i64 oo; splitOff(off, sy, oo); writeAt(s, mut(s, id), sy, oo, bytes, v); return; }
  auto alts = enumerate(s, off);
  Obj &m = mut(s, id);
  for (auto &a : alts) {
    Sym sy; i64 oo; splitOff(a.second, sy, oo);
    if (m.size->isConst() && a.second->isConst() && a.second->c + bytes > m.size->c) continue;
    V old = readAt(s, m, sy, oo, bytes);
    V x = D.mux(a.first, v, old);
    if (!x) split(s, alts, "cannot join alternatives of a write");
    writeAt(s, m, sy, oo, bytes, x);
  }
}
void Engine::store(State &s, const V &p, const V &v, Type *t, const Instruction *at, unsigned align) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    if (align >= 16) { int id; V off; if (resolve(s, p, id, off)) { OP o = getObj(s, id); if (o && o->align < align) { nUB++; report("alignment", "vector access assumes " + std::to_string(align) + "-byte alignment of storage that is only " + std::to_string(o->align) + "-byte aligned", at, s, BT); } } }
    u64 es = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) store(s, D.add(p, D.cst(64, i * es)), v->el[i], vt->getElementType(), at);
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) store(s, D.add(p, D.cst(64, sl->getElementOffset(i))), v->el[i], st->getElementType(i), at); return; }
  if (auto *ar = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) store(s, D.add(p, D.cst(64, i * es)), v->el[i], ar->getElementType(), at); return; }
  unsigned bytes = DL->getTypeStoreSize(t);
  V x = v; if (x->isInt() && x->w != bytes * 8) x = D.zext(x, bytes * 8);
  storeInt(s, p, x, bytes, at);
}
void Engine::memcpy_(State &s, const V &d, const V &src, const V &n, const Instruction *at) {
  V nn = n; ctx(s); if (!nn->isConst()) nn = D.simp(nn);
  if (!nn->isInt()) throw Undecided("copy of unknown length");
  if (nn->isConst()) {
    if (nn->c == 0) return;
    s.work += nn->c / 16;
    int di, si; V doff, soff;
    if (!resolve(s, d, di, doff)) { report("null", "bulk copy to a null or wild pointer", at, s, BT); return; }
    if (!resolve(s, src, si, soff)) { report("null", "bulk copy from a null or wild pointer", at, s, BT); return; }
    OP so = getObj(s, si); OP dob = getObj(s, di);
    if (!so || !dob) { report("lifetime", "bulk copy touches an object whose lifetime has ended", at, s, BT); return; }
    if (!boundsOK(s, *so, soff, nn->c, at, "bulk read")) return;
    if (!boundsOK(s, *dob, doff, nn->c, at, "bulk write")) return;
    if (dob->ro) { report("const-write", "write to constant object", at, s, BT); return; }
    if (isFrozen(s, *dob)) { report("effect", "a query writes to storage that existed before it (" + dob->name + ")", at, s, BT); return; }
    dob.reset();
    ctx(s); soff = D.simp(soff); doff = D.simp(doff);
    if (!boolFree(soff) || !boolFree(doff)) { // small copies: one access each
      if (nn->c <= 8) { V v = loadVal(s, src, nn->c, at); storeInt(s, d, v, nn->c, at); return; }
      if (nn->c > 4096) throw Undecided("bulk copy at input-dependent address");
      std::vector<std::pair<V, unsigned>> tmp; u64 i = 0;
      while (i < nn->c) { unsigned k = nn->c - i >= 8 ? 8 : 1; tmp.push_back({loadVal(s, D.add(src, D.cst(64, i)), k, at), k}); i += k; }
      i = 0; for (auto &x : tmp) { storeInt(s, D.add(d, D.cst(64, i)), x.first, x.second, at); i += x.second; }
      return;
    }
    Sym ss, ds; i64 so_, do_; splitOff(soff, ss, so_); splitOff(doff, ds, do_);
    u64 N = nn->c;
    if (N > (1u << 22)) throw Undecided("very large bulk copy");
    // copy along existing cell boundaries
    std::vector<std::tuple<u64, unsigned, V>> tmp; u64 i = 0;
    auto cm = so->cells.find(ss);
    while (i < N) {
      unsigned k = 0;
      if (cm != so->cells.end()) {
        auto it = cm->second.find(so_ + (i64)i);
        if (it != cm->second.end() && it->second.size <= N - i) k = it->second.size;
      }
      if (!k) { k = (((so_ + i) & 7) == 0 && N - i >= 8) ? 8 : 1; 
        if (cm != so->cells.end() && k == 8) { auto it = cm->second.upper_bound(so_ + (i64)i); if (it != cm->second.end() && it->first < so_ + (i64)i + 8) k = 1; if (it != cm->second.begin()) { --it; if (it->first + (i64)it->second.size > so_ + (i64)i) k = std::min<u64>(N - i, it->first + it->second.size - (so_ + i)); } } }
      tick();
      tmp.push_back({i, k, readAt(s, *so, ss, so_ + (i64)i, k)}); i += k;
    }
    Obj &m = mut(s, di);
    for (auto &x : tmp) writeAt(s, m, ds, do_ + (i64)std::get<0>(x), std::get<1>(x), std::get<2>(x));
    return;
  }
  // symbolic length
  int di, si; V doff, soff;
  if (!resolve(s, d, di, doff) || !resolve(s, src, si, soff)) throw Undecided("bulk copy of unknown length through an unknown pointer");
  OP so = getObj(s, si); OP dob = getObj(s, di);
  if (!so || !dob) { report("lifetime", "bulk copy touches an object whose lifetime has ended", at, s, BT); return; }
  for (auto &pr : {std::make_pair(so, soff), std::make_pair(dob, doff)}) {
    nBounds++;
    V end = D.add(pr.second, nn);
    int g = isGE(s, pr.first->size, end);
    if (g == 0) report("bounds", "bulk copy out of bounds in " + pr.first->name, at, s, BT);
    else if (g < 0) throw Undecided("bulk copy of unknown length: bounds undecided");
  }
  if (isFrozen(s, *dob)) { report("effect", "a query writes to storage that existed before it (" + dob->name + ")", at, s, BT); return; }
  if (di == si) throw Undecided("overlapping bulk copy of unknown length");
  Region r; r.k = Region::COPY; r.start = doff; r.len = nn; r.src = so; r.srcStart = soff; r.seq = ++seq;
  dob.reset();
  Obj &m = mut(s, di);
  m.regions.push_back(r);
}
void Engine::fill_(State &s, const V &d, const V &elem, unsigned esz, const V &count, const Instruction *at) {
  V n = count; ctx(s); if (!n->isConst()) n = D.simp(n);
  if (!n->isInt()) throw Undecided("fill of unknown length");
  if (n->isConst() && n->c == 0) return;
  int di; V doff;
  if (!resolve(s, d, di, doff)) { if (n->isConst()) { report("null", "bulk fill of a null or wild pointer", at, s, BT); return; } throw Undecided("fill through an unknown pointer"); }
  OP dob = getObj(s, di);
  if (!dob) { report("lifetime", "fill of an object whose lifetime has ended", at, s, BT); return; }
  if (isFrozen(s, *dob)) { report("effect", "a query writes to storage that existed before it (" + dob->name + ")", at, s, BT); return; }
  if (n->isConst()) {
    s.work += n->c * esz / 16;
    if (!boundsOK(s, *dob, doff, n->c * esz, at, "fill")) return;
    doff = D.simp(doff);
    if (boolFree(doff) && n->c * esz <= 4096) {
      dob.reset(); Sym ds; i64 o; splitOff(doff, ds, o); Obj &m = mut(s, di);
      if (esz == 1 && elem->isConst()) { u64 N = n->c, i = 0; u64 w = elem->c * 0x0101010101010101ull; while (i < N) { unsigned k = ((o + i) & 7) == 0 && N - i >= 8 ? 8 : 1; writeAt(s, m, ds, o + i, k, D.cst(k * 8, w)); i += k; } }
      else for (u64 i = 0; i < n->c; i++) writeAt(s, m, ds, o + i * esz, esz, elem);
      return;
    }
    if (!boolFree(doff)) throw Undecided("fill at an input-dependent address");
  } else {
    nBounds++;
    V end = D.add(doff, D.mulc(n, esz));
    int g = isGE(s, dob->size, end);
    if (g == 0) report("bounds", "fill out of bounds in " + dob->name, at, s, BT);
    else if (g < 0) throw Undecided("fill of unknown length: bounds undecided");
  }
  dob.reset();
  Region r; r.k = Region::FILL; r.start = doff; r.len = D.mulc(n, esz); r.elem = elem; r.esize = esz; r.seq = ++seq;
  Obj &m = mut(s, di);
  m.regions.push_back(r);
}

// ------------------------------------------------------------------ conditions
B Engine::dependsOnUndef(State &st, B b) {
  if (!D.haveUndef || b == BT || b == BF) return BF;
  std::vector<uint32_t> sup; D.bdd.support(b, sup); bool any = false;
  for (auto v : sup) if (D.vars[v].k == Dom::VarInfo::UNDEF) any = true;
  if (!any) return BF;
  B f = b, g = b ^ 1;
  auto exists = [&](B x) { for (auto v : sup) if (D.vars[v].k == Dom::VarInfo::UNDEF) { B h = D.bdd.varHandle(v); x = D.bdd.Or(D.bdd.Constrain(x, h), D.bdd.Constrain(x, h ^ 1)); } return x; };
  // Constrain by a literal is the plain cofactor
  B both = D.bdd.And(exists(f), exists(g));
  return D.bdd.And(st.pc, both);
}
B Engine::boolOf(State &st, const V &v, const char *what) {
  if (!v->isInt()) throw Undecided(std::string("condition not decidable: ") + (v->isTop() ? v->why : what));
  ctx(st);
  auto b = D.bitsOf(v); if (!b) throw Undecided("condition of integer unknown");
  return (*b)[0];
}
void Engine::assume(State &s, B cond) {
  s.pc = D.bdd.And(s.pc, cond);
  if (cond == BT || D.predDef.empty()) return;
  std::vector<uint32_t> sup; D.bdd.support(cond, sup);
  for (auto v : sup) {
    auto it = D.predDef.find(v); if (it == D.predDef.end()) continue;
    B h = D.bdd.varHandle(v);
    if (D.bdd.And(s.pc, h ^ 1) == BF) { if (std::find(s.cons.begin(), s.cons.end(), it->second) == s.cons.end()) s.cons.push_back(it->second); }
    else if (D.bdd.And(s.pc, h) == BF) { DLin n = D.neg1(it->second); if (std::find(s.cons.begin(), s.cons.end(), n) == s.cons.end()) s.cons.push_back(n); }
  }
}
V Engine::cmpVal(State &st, CmpInst::Predicate p, const V &a, const V &b) {
  if (a->k == Val::FP && b->k == Val::FP) {
    bool r;
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a->d == b->d; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a->d != b->d; break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a->d > b->d; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a->d >= b->d; break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a->d < b->d; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a->d <= b->d; break;
    default: return D.top("fcmp");
    }
    return D.cst(1, r);
  }
  if (!a->isInt() || !b->isInt()) return D.top("comparison of non-integers" + (a->isTop() ? ": " + a->why : b->isTop() ? ": " + b->why : ""));
  std::optional<B> r; bool neg = false;
  ctx(st);
  switch (p) {
  case CmpInst::ICMP_EQ: r = D.eq(a, b); break;
  case CmpInst::ICMP_NE: r = D.eq(a, b); neg = true; break;
  case CmpInst::ICMP_ULT: r = D.lt(a, b, false); break;
  case CmpInst::ICMP_UGE: r = D.lt(a, b, false); neg = true; break;
  case CmpInst::ICMP_UGT: r = D.lt(b, a, false); break;
  case CmpInst::ICMP_ULE: r = D.lt(b, a, false); neg = true; break;
  case CmpInst::ICMP_SLT: r = D.lt(a, b, true); break;
  case CmpInst::ICMP_SGE: r = D.lt(a, b, true); neg = true; break;
  case CmpInst::ICMP_SGT: r = D.lt(b, a, true); break;
  case CmpInst::ICMP_SLE: r = D.lt(b, a, true); neg = true; break;
  default: break;
  }
  if (!r) return D.top("comparison not expressible");
  return D.fromB(1, neg ? *r ^ 1 : *r);
}
V Engine::cmp(State &st, CmpInst::Predicate p, const V &a, const V &b) {
  if (a->k == Val::AGG) { std::vector<V> e; for (size_t i = 0; i < a->el.size(); i++) e.push_back(cmpVal(st, p, a->el[i], b->el[i])); return D.agg(e); }
  return cmpVal(st, p, a, b);
}
V Engine::binop(State &st, unsigned opc, const V &a, const V &b, const Instruction *I) {
  if (a->k == Val::FP && b->k == Val::FP) {
    switch (opc) {
    case Instruction::FAdd: return D.fp(a->d + b->d); case Instruction::FSub: return D.fp(a->d - b->d);
    case Instruction::FMul: return D.fp(a->d * b->d); case Instruction::FDiv: return D.fp(a->d / b->d);
    }
  }
  if (a->isTop()) return a; if (b->isTop()) return b;
  if (!a->isInt() || !b->isInt()) return D.top("arithmetic on floating unknown");
  ctx(st);
  unsigned w = a->w;
  switch (opc) {
  case Instruction::Add: return D.add(a, b);
  case Instruction::Sub: return D.sub(a, b);
  case Instruction::Mul: {
    V r = D.mul(a, b);
    return r;
  }
  case Instruction::And: return D.and_(a, b);
  case Instruction::Or: return D.or_(a, b);
  case Instruction::Xor: return D.xor_(a, b);
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    V s = b->isConst() ? b : D.simp(b);
    int kind = opc == Instruction::Shl ? 0 : opc == Instruction::LShr ? 1 : 2;
    if (s->isConst()) {
      if (s->c >= w) { nUB++; report("shift", "shift of a " + std::to_string(w) + "-bit value by " + std::to_string(s->c), I, st, BT); return undefOf(IntegerType::get(M->getContext(), w)); }
      return kind == 0 ? D.shl(a, s->c) : kind == 1 ? D.lshr(a, s->c) : D.ashr(a, s->c);
    }
    nUB++;
    auto r = D.lt(s, D.cst(w, w), false);
    if (r && D.bdd.And(st.pc, *r ^ 1) != BF) { report("shift", "shift of a " + std::to_string(w) + "-bit value by an amount that can reach " + std::to_string(w), I, st, *r ^ 1); if (D.bdd.And(st.pc, *r) != BF) assume(st, *r); ctx(st); }
    V x = D.vshift(a, s, kind);
    return x;
  }
  case Instruction::UDiv: case Instruction::URem: {
    V d = b->isConst() ? b : D.simp(b);
    if (d->isConst()) { if (d->c == 0) { nUB++; report("div", "division by zero", I, st, BT); return undefOf(IntegerType::get(M->getContext(), w)); } return D.udivrem(a, d->c, opc == Instruction::URem); }
    auto alts = enumerate(st, d, 130); V r;
    for (auto &x : alts) {
      if (!x.second->isConst()) return D.top("division by integer unknown");
      if (x.second->c == 0) { nUB++; report("div", "division by zero", I, st, x.first); continue; }
      V q = D.udivrem(a, x.second->c, opc == Instruction::URem); if (q->isTop()) return q;
      if (!r) r = q; else { r = D.mux(x.first, q, r); if (!r) return D.top("division"); }
    }
    return r ? r : D.top("division");
  }
  case Instruction::SDiv: case Instruction::SRem: {
    V d = b->isConst() ? b : D.simp(b);
    if (!d->isConst()) return D.top("signed division by unknown");
    if (d->c == 0) { nUB++; report("div", "division by zero", I, st, BT); return undefOf(IntegerType::get(M->getContext(), w)); }
    if (a->isConst()) { i64 x = (i64)(a->c << (64 - w)) >> (64 - w), y = (i64)(d->c << (64 - w)) >> (64 - w); return D.cst(w, opc == Instruction::SDiv ? x / y : x % y); }
    i64 y = (i64)(d->c << (64 - w)) >> (64 - w);
    auto neg = D.lt(a, D.cst(w, 0), true);
    if (y > 0 && neg && D.bdd.And(st.pc, *neg) == BF) return D.udivrem(a, y, opc == Instruction::SRem);
    if (y > 0 && neg) { // truncation towards zero: a negative dividend divides by magnitude
      V m = D.sub(D.cst(w, 0), a); V qn = D.sub(D.cst(w, 0), D.udivrem(m, y, opc == Instruction::SRem));
      if (D.bdd.And(st.pc, *neg ^ 1) == BF) return qn;
    }
    // exact division of a multiple
    if (opc == Instruction::SDiv && y > 0) {
      bool all = a->c % y == 0; for (auto &t : a->t) if (t.second % y) all = false;
      if (all && (y & (y - 1)) == 0) return D.ashr(a, __builtin_ctzll(y));
    }
    return D.top("signed division of unknown");
  }
  }
  return D.top(std::string("operation ") + Instruction::getOpcodeName(opc));
}
V Engine::binopV(State &st, unsigned opc, const V &a, const V &b, const Instruction *I) {
  if (a->k == Val::AGG) { std::vector<V> e; for (size_t i = 0; i < a->el.size(); i++) e.push_back(binop(st, opc, a->el[i], b->el[i], I)); return D.agg(e); }
  return binop(st, opc, a, b, I);
}
bool Engine::flat(const V &v, Type *t, std::vector<B> &out) {
  if (v->k == Val::AGG) { Type *et = nullptr; if (auto *vt = dyn_cast<FixedVectorType>(t)) et = vt->getElementType(); for (auto &x : v->el) if (!flat(x, et, out)) return false; return true; }
  if (!v->isInt()) { if (v->k == Val::FP) { V c; if (t && t->isFloatTy()) { float f = v->d; uint32_t q; memcpy(&q, &f, 4); c = D.cst(32, q); } else { u64 q; memcpy(&q, &v->d, 8); c = D.cst(64, q); } return flat(c, nullptr, out); } return false; }
  auto b = D.bitsOf(v); if (!b) return false;
  out.insert(out.end(), b->begin(), b->end()); return true;
}
V Engine::unflat(const std::vector<B> &b, size_t &pos, Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<V> e; for (unsigned i = 0; i < vt->getNumElements(); i++) e.push_back(unflat(b, pos, vt->getElementType())); return D.agg(e); }
  unsigned w = t->isPointerTy() || t->isX86_MMXTy() ? 64 : t->getScalarSizeInBits();
  if (w > 64) throw Undecided("wide integer");
  std::vector<B> x(b.begin() + pos, b.begin() + pos + w); pos += w;
  V v = D.fromBits(x);
  if (t->isFloatingPointTy()) { if (v->isConst()) { if (w == 64) { double d; memcpy(&d, &v->c, 8); return D.fp(d); } float f; uint32_t q = v->c; memcpy(&f, &q, 4); return D.fp(f); } return v; }
  return v;
}
V Engine::bitcast(const V &v, Type *from, Type *to) {
  if (from == to || (v->isInt() && !to->isVectorTy() && !to->isFloatingPointTy())) return v;
  if (v->isTop()) return v;
  std::vector<B> b; if (!flat(v, from, b)) return D.top("bitcast");
  size_t pos = 0; return unflat(b, pos, to);
}
V Engine::gep(Ctx &c, FuncInfo &fi, const GEPOperator &g) {
  V p = operand(c, fi, g.getPointerOperand());
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    V idx = operand(c, fi, it.getOperand());
    if (it.isStruct()) { auto *sl = DL->getStructLayout(it.getStructType()); p = D.add(p, D.cst(64, sl->getElementOffset(idx->c))); continue; }
    if (idx->isTop()) return idx;
    u64 sz = DL->getTypeAllocSize(it.getIndexedType());
    if (idx->w < 64) idx = D.sext(idx, 64); 
    p = D.add(p, D.mulc(idx, sz));
  }
  return p;
}

// ------------------------------------------------------------------ instructions
bool Engine::step(Ctx &c, FuncInfo &fi, const Instruction &I) {
  auto set = [&](V v) { c.regs[fi.num[&I]] = v; };
  auto op = [&](unsigned i) { return operand(c, fi, I.getOperand(i)); };
  if (I.isBinaryOp()) {
    V r = binopV(c.st, I.getOpcode(), op(0), op(1), &I);
    set(r); return true;
  }
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    auto &a = cast<AllocaInst>(I); V n = op(0); u64 es = DL->getTypeAllocSize(a.getAllocatedType());
    int id = newObj(c.st, D.mulc(D.zext(n, 64), es), Obj::STACK, a.hasName() ? a.getName().str() : "local"); mut(c.st, id).align = a.getAlign().value();
    c.allocas.push_back(id); set(baseOf(id)); return true;
  }
  case Instruction::Load: { auto &l = cast<LoadInst>(I); set(load(c.st, op(0), I.getType(), &I, l.getAlign().value())); return true; }
  case Instruction::Store: { auto &s = cast<StoreInst>(I); store(c.st, op(1), op(0), s.getValueOperand()->getType(), &I, s.getAlign().value()); return true; }
  case Instruction::GetElementPtr: set(gep(c, fi, cast<GEPOperator>(I))); return true;
  case Instruction::ICmp: case Instruction::FCmp: set(cmp(c.st, cast<CmpInst>(I).getPredicate(), op(0), op(1))); return true;
  case Instruction::FNeg: { V a = op(0); set(a->k == Val::FP ? D.fp(-a->d) : D.top("fneg")); return true; }
  case Instruction::Select: {
    V k = op(0), a = op(1), b = op(2); ctx(c.st);
    if (k->k == Val::AGG) { std::vector<V> e; for (size_t i = 0; i < a->el.size(); i++) { V m = D.mux(boolOf(c.st, k->el[i], "select"), a->el[i], b->el[i]); if (!m) throw Undecided("vector select"); e.push_back(m); } set(D.agg(e)); return true; }
    B f = boolOf(c.st, k, "select condition");
    if (B u = dependsOnUndef(c.st, f); u != BF) report("indeterminate", "a choice depends on an indeterminate (uninitialised or undefined) value", &I, c.st, u);
    if (f == BT || D.bdd.And(c.st.pc, f ^ 1) == BF) { set(a); return true; }
    if (f == BF || D.bdd.And(c.st.pc, f) == BF) { set(b); return true; }
    V m = D.mux(f, a, b); if (!m) return false;
    set(m); return true;
  }
  case Instruction::ExtractValue: { V v = op(0); for (unsigned i : cast<ExtractValueInst>(I).indices()) v = v->el.at(i); set(v); return true; }
  case Instruction::InsertValue: {
    V v = op(0), x = op(1); ArrayRef<unsigned> idx = cast<InsertValueInst>(I).getIndices();
    std::function<V(const V &, size_t)> rec = [&](const V &a, size_t d) -> V { if (d == idx.size()) return x; std::vector<V> e = a->el; e.at(idx[d]) = rec(a->el.at(idx[d]), d + 1); return D.agg(e); };
    set(rec(v, 0)); return true;
  }
  case Instruction::ExtractElement: { V v = op(0), i = op(1); if (!i->isConst()) throw Undecided("variable vector lane"); if (i->c >= v->el.size()) { report("bounds", "vector lane out of range", &I, c.st, BT); set(undefOf(I.getType())); } else set(v->el[i->c]); return true; }
  case Instruction::InsertElement: { V v = op(0), x = op(1), i = op(2); if (!i->isConst()) throw Undecided("variable vector lane"); std::vector<V> e = v->el; e.at(i->c) = x; set(D.agg(e)); return true; }
  case Instruction::ShuffleVector: { auto &s = cast<ShuffleVectorInst>(I); V a = op(0), b = op(1); std::vector<V> e; for (int m : s.getShuffleMask()) { if (m < 0) e.push_back(undefOf(s.getType()->getElementType())); else e.push_back(m < (int)a->el.size() ? a->el[m] : b->el[m - a->el.size()]); } set(D.agg(e)); return true; }
  case Instruction::Freeze: set(op(0)); return true;
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
    V v = op(0); unsigned w = I.getType()->getScalarSizeInBits(); if (w > 64) throw Undecided("integer wider than 64 bits");
    ctx(c.st);
    auto f = [&](const V &x) { return I.getOpcode() == Instruction::Trunc ? D.trunc(x, w) : I.getOpcode() == Instruction::ZExt ? D.zext(x, w) : D.sext(x, w); };
    if (v->k == Val::AGG) { std::vector<V> e; for (auto &x : v->el) e.push_back(f(x)); set(D.agg(e)); } else set(f(v));
    return true;
  }
  case Instruction::PtrToInt: case Instruction::IntToPtr: set(toInt(op(0), I.getType()->isPointerTy() ? 64 : I.getType()->getIntegerBitWidth())); return true;
  case Instruction::BitCast: set(bitcast(op(0), I.getOperand(0)->getType(), I.getType())); return true;
  case Instruction::UIToFP: case Instruction::SIToFP: { V v = op(0); if (v->isConst()) { i64 s = (i64)(v->c << (64 - v->w)) >> (64 - v->w); double d = I.getOpcode() == Instruction::UIToFP ? (double)v->c : (double)s; if (I.getType()->isFloatTy()) d = (float)d; set(D.fp(d)); } else set(D.top("int to float of unknown")); return true; }
  case Instruction::FPToUI: case Instruction::FPToSI: { V v = op(0); unsigned w = I.getType()->getIntegerBitWidth(); if (v->k == Val::FP) set(D.cst(w, I.getOpcode() == Instruction::FPToUI ? (u64)v->d : (u64)(i64)v->d)); else set(D.top("float to int of unknown")); return true; }
  case Instruction::FPExt: { V v = op(0); set(v->k == Val::FP ? v : D.top("widening of an unknown float")); return true; }
  case Instruction::FPTrunc: { V v = op(0); set(v->k == Val::FP ? D.fp((float)v->d) : v); return true; }
  case Instruction::LandingPad: return true; // set by landing()
  default: throw Undecided(std::string("instruction ") + I.getOpcodeName());
  }
}
void Engine::arrive(Ctx &c, FuncInfo &fi, const BasicBlock *from, const BasicBlock *to) {
  std::vector<std::pair<int, V>> upd;
  for (auto &phi : to->phis()) upd.push_back({fi.num[&phi], operand(c, fi, phi.getIncomingValueForBlock(from))});
  for (auto &u : upd) c.regs[u.first] = u.second;
  c.prev = from;
}
// the same values, whatever the inputs (an unknown is not the same as anything)
static bool exact(const V &a) { if (!a || a->isTop()) return false; for (auto &x : a->el) if (!exact(x)) return false; return true; }
static bool alike(const V &a, const V &b) { return (!a && !b) || (a && b && Dom::same(a, b) && exact(a)); }
bool Engine::sameState(const Seen &a, const State &b) {
  if (a.streams.size() != b.streams.size()) return false;
  for (auto &x : a.streams) { auto it = b.streams.find(x.first); if (it == b.streams.end() || it->second.w != x.second.w || it->second.r != x.second.r || it->second.obj != x.second.obj) return false; }
  for (auto &x : a.mem) {
    auto it = b.mem.find(x.first); if (it == b.mem.end()) return false;
    if (it->second == x.second) continue;
    const Obj &p = *x.second, &q = *it->second;
    if (p.def != q.def || p.hid != q.hid || !alike(p.size, q.size) || p.cells.size() != q.cells.size() || p.regions.size() != q.regions.size()) return false;
    bool order = p.cells.size() > 1 || !p.regions.empty(); // then the order of the writes matters
    for (size_t i = 0; i < p.regions.size(); i++) if (p.regions[i].seq != q.regions[i].seq) return false;
    for (auto i = p.cells.begin(), j = q.cells.begin(); i != p.cells.end(); ++i, ++j) {
      if (i->first != j->first || i->second.size() != j->second.size()) return false;
      for (auto k = i->second.begin(), l = j->second.begin(); k != i->second.end(); ++k, ++l)
        if (k->first != l->first || k->second.size != l->second.size || (order && k->second.seq != l->second.seq) || !(alike(k->second.v, l->second.v))) return false;
    }
  }
  return true;
}
// the path goes from a latch to the header of a loop: true when it was there before with the same values and the same memory
bool Engine::again(Ctx &c, FuncInfo &fi, const BasicBlock *from, const BasicBlock *to) {
  auto h = fi.loops.find(to); if (h == fi.loops.end()) return false;
  if (!h->second.latches.count(from)) { c.visits.erase(to); return false; }
  auto &v = c.visits[to];
  if (++v.n > maxVisits) maxVisits = v.n;
  if (v.n < 256) return false;
  bool snap = (v.n & (v.n - 1)) == 0; if (!v.seen && !snap) return false;
  auto &live = h->second.live;
  if (v.seen) { bool eq = true; for (size_t i = 0; eq && i < live.size(); i++) eq = alike(c.regs[live[i]], v.seen->vals[i]); if (eq && sameState(*v.seen, c.st)) return true; }
  if (snap) { auto s = std::make_shared<Seen>(); s->mem = c.st.mem; s->streams = c.st.streams; for (int i : live) s->vals.push_back(c.regs[i]); v.seen = s; }
  return false;
}
bool Engine::mergeState(const State &a, const State &b, State &out, B &f) {
  if (a.streams.size() != b.streams.size()) return false;
  if (a.frozen != b.frozen || a.guard != b.guard || a.frozenStack != b.frozenStack) return false;
  for (auto &x : a.streams) { auto it = b.streams.find(x.first); if (it == b.streams.end() || it->second.w != x.second.w || it->second.r != x.second.r || it->second.obj != x.second.obj) return false; }
  out.pc = D.bdd.Or(a.pc, b.pc); f = D.bdd.Constrain(a.pc, out.pc);
  out.cons.clear(); // only facts common to both sides survive a join
  for (auto &d : a.cons) if (std::find(b.cons.begin(), b.cons.end(), d) != b.cons.end()) out.cons.push_back(d);
  out.streams = a.streams; out.frozen = a.frozen; out.guard = a.guard; out.frozenStack = a.frozenStack; out.work = std::max(a.work, b.work);
  out.least = std::min(a.least, b.least);
  if (a.heap == b.heap) out.heap = a.heap;
  else { V x = a.heap ? a.heap : D.cst(64, 0), y = b.heap ? b.heap : D.cst(64, 0); out.heap = D.mux(f, x, y); if (!out.heap) out.heap = D.top("the amount of live storage differs between paths"); }
  out.mem = a.mem;
  for (auto &y : b.mem) {
    auto it = out.mem.find(y.first);
    if (it == out.mem.end()) { out.mem[y.first] = y.second; continue; }
    if (it->second == y.second) continue;
    const Obj &p = *it->second, &q = *y.second;
    if (p.def != q.def || p.hid != q.hid || p.regions.size() != q.regions.size() || !D.same(p.size, q.size)) return false;
    for (size_t i = 0; i < p.regions.size(); i++) if (p.regions[i].seq != q.regions[i].seq) return false;
    auto m = std::make_shared<Obj>(p);
    State tmp; tmp.pc = out.pc; tmp.cons = out.cons;
    std::set<Sym> syms; for (auto &z : p.cells) syms.insert(z.first); for (auto &z : q.cells) syms.insert(z.first);
    for (auto &sy : syms) {
      static const std::map<i64, Cell> none;
      auto pi = p.cells.find(sy), qi = q.cells.find(sy);
      const auto &pc = pi == p.cells.end() ? none : pi->second; const auto &qc = qi == q.cells.end() ? none : qi->second;
      // positions where they differ
      std::map<i64, unsigned> pos;
      auto x = pc.begin(), z = qc.begin();
      while (x != pc.end() || z != qc.end()) {
        if (x != pc.end() && z != qc.end() && x->first == z->first && x->second.size == z->second.size) { if (x->second.seq != z->second.seq || x->second.v != z->second.v) { if (!D.same(x->second.v, z->second.v)) pos[x->first] = x->second.size; } ++x; ++z; }
        else if (z == qc.end() || (x != pc.end() && x->first <= z->first)) { auto &n = pos[x->first]; n = std::max(n, x->second.size); ++x; }
        else { auto &n = pos[z->first]; n = std::max(n, z->second.size); ++z; }
      }
      i64 done = INT64_MIN;
      for (auto &k : pos) {
        i64 o = std::max(k.first, done); i64 e = k.first + k.second; if (o >= e) continue; done = e;
        unsigned n = e - o;
        if (n > 8) return false;
        V u, v;
        try { u = readAt(tmp, p, sy, o, n); v = readAt(tmp, q, sy, o, n); } catch (Undecided &) { return false; }
        V r = D.mux(f, u, v); if (!r) return false;
        writeAt(tmp, *m, sy, o, n, r);
      }
    }
    it->second = m;
  }
  return true;
}
bool Engine::tryMerge(Ctx &a, Ctx &b, FuncInfo &fi, const BasicBlock *at) {
  State out; B f;
  if (!mergeState(a.st, b.st, out, f)) return false;
  Regs r(a.regs.size());
  static const char *dbg = getenv("ABSINT_TRACE"); (void)dbg;
  for (auto &kv : fi.num) {
    int i = kv.second; const V &x = a.regs[i], &y = b.regs[i];
    if (x == y) { r[i] = x; continue; }
    const Instruction *I = dyn_cast<Instruction>(kv.first);
    bool dom = !I || (I->getParent() == at ? isa<PHINode>(I) : fi.dt.dominates(I->getParent(), at));
    if (!dom) { continue; }
    if (!x || !y) continue;
    // registers not used at or after the join may be dropped: only used ones must merge
    V m = D.mux(f, x, y);
    if (!m) {
      if (isa<Instruction>(kv.first) && kv.first->use_empty()) continue;
      return false;
    }
    r[i] = m;
  }
  a.st = std::move(out); a.regs = std::move(r);
  for (auto i = a.visits.begin(); i != a.visits.end();) { auto j = b.visits.find(i->first); if (j == b.visits.end()) { i = a.visits.erase(i); continue; } i->second.n = std::max(i->second.n, j->second.n); if (i->second.seen != j->second.seen) i->second.seen = nullptr; ++i; }
  if (a.allocas != b.allocas) for (int x : b.allocas) if (std::find(a.allocas.begin(), a.allocas.end(), x) == a.allocas.end()) a.allocas.push_back(x);
  nMerges++;
  return true;
}
void Engine::mergeAll(std::vector<Ctx> &v, FuncInfo &fi, const BasicBlock *at) {
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size();) { if (tryMerge(v[i], v[j], fi, at)) { v.erase(v.begin() + j); j = i + 1; } else j++; }
}
void Engine::fork(const Ctx &c, FuncInfo &fi, const BasicBlock *bb, const std::vector<std::pair<B, const BasicBlock *>> &succ, const BasicBlock *stop, std::vector<Ctx> &out) {
  nForks++;
  auto ij = fi.ipdom.find(bb); const BasicBlock *J = ij == fi.ipdom.end() ? nullptr : ij->second;
  const BasicBlock *tgt = J ? J : stop;
  std::vector<Ctx> res;
  if (++exdepth > 4000) throw Undecided("nesting budget");
  for (auto &sc : succ) {
    Ctx n = c; assume(n.st, sc.first);
    if (n.st.pc == BF) continue;
    arrive(n, fi, bb, sc.second);
    if (again(n, fi, bb, sc.second)) { report("nontermination", "a loop does not end: the same state comes back", bb->getTerminator(), n.st, BT); continue; }
    if (sc.second == tgt) { n.status = Ctx::AT_STOP; res.push_back(std::move(n)); }
    else exec(std::move(n), fi, sc.second, sc.second->begin(), tgt, res);
  }
  exdepth--;
  std::vector<Ctx> here;
  for (auto &r : res) { if (r.status == Ctx::AT_STOP) here.push_back(std::move(r)); else out.push_back(std::move(r)); }
  res.clear();
  if (here.empty()) return;
  mergeAll(here, fi, tgt);
  if (tgt == stop) { for (auto &h : here) out.push_back(std::move(h)); return; }
  if (here.size() > 1) nForks += here.size() - 1;
  for (auto &h : here) exec(std::move(h), fi, tgt, tgt->begin(), stop, out);
}
void Engine::resplit(Ctx &c, FuncInfo &fi, const BasicBlock *bb, BasicBlock::const_iterator it, const BasicBlock *stop, std::vector<Ctx> &out, const Split &sp) {
  if (exdepth > 4000) throw Undecided("nesting budget");
  exdepth++; nForks++;
  for (B f : sp.cases) { Ctx n = c; assume(n.st, f); if (n.st.pc == BF) continue; exec(std::move(n), fi, bb, it, stop, out); }
  exdepth--;
}
void Engine::exec(Ctx c, FuncInfo &fi, const BasicBlock *bb, BasicBlock::const_iterator it, const BasicBlock *stop, std::vector<Ctx> &out) {
  for (;;) {
    for (; !it->isTerminator(); ++it) {
      const Instruction &I = *it; tick(); c.st.work++; ctx(c.st);
      if (isa<PHINode>(I)) continue;
      stack.push_back(&I);
      if (auto *cb = dyn_cast<CallInst>(&I)) {
        size_t depth0 = stack.size(); std::vector<Outcome> os;
        try { os = callInst(c, fi, *cb); }
        catch (Split &sp) { stack.resize(depth0 - 1); resplit(c, fi, bb, it, stop, out, sp); return; }
        stack.pop_back();
        if (os.size() == 1 && !os[0].threw) { c.st = std::move(os[0].st); if (!I.getType()->isVoidTy()) c.regs[fi.num[&I]] = os[0].ret; continue; }
        auto nx = std::next(it);
        for (auto &o : os) {
          Ctx n = c; n.st = std::move(o.st);
          if (o.threw) { n.status = Ctx::THREW; n.ti = o.ti; n.exc = o.exc; out.push_back(std::move(n)); continue; }
          if (!I.getType()->isVoidTy()) n.regs[fi.num[&I]] = o.ret;
          if (++exdepth > 4000) throw Undecided("nesting budget");
          exec(std::move(n), fi, bb, nx, stop, out); exdepth--;
        }
        return;
      }
      bool ok; size_t depth0 = stack.size();
      try { ok = step(c, fi, I); }
      catch (Split &sp) { stack.resize(depth0 - 1); resplit(c, fi, bb, it, stop, out, sp); return; }
      stack.pop_back();
      if (!ok) { // select between values that cannot be joined: partition
        B f = boolOf(c.st, operand(c, fi, I.getOperand(0)), "select");
        for (int side = 0; side < 2; side++) {
          Ctx n = c; assume(n.st, side ? f ^ 1 : f); if (n.st.pc == BF) continue;
          n.regs[fi.num[&I]] = operand(n, fi, I.getOperand(1 + side));
          if (++exdepth > 4000) throw Undecided("nesting budget");
          exec(std::move(n), fi, bb, std::next(it), stop, out); exdepth--;
        }
        nForks++;
        return;
      }
    }
    const Instruction &T = *it; tick(); c.st.work++; ctx(c.st);
    const BasicBlock *next = nullptr;
    stack.push_back(&T);
    struct Pop { std::vector<const Instruction *> &s; bool on = true; ~Pop() { if (on) s.pop_back(); } } pop{stack};
    if (auto *br = dyn_cast<BranchInst>(&T)) {
      if (br->isUnconditional()) next = br->getSuccessor(0);
      else {
        B f = boolOf(c.st, operand(c, fi, br->getCondition()), "branch condition");
        if (f != BT && f != BF) {
          if (B u = dependsOnUndef(c.st, f); u != BF) report("indeterminate", "control flow depends on an indeterminate (uninitialised or undefined) value", &T, c.st, u);
          if (D.bdd.And(c.st.pc, f ^ 1) == BF) f = BT; else if (D.bdd.And(c.st.pc, f) == BF) f = BF;
        }
        if (f == BT) next = br->getSuccessor(0);
        else if (f == BF) next = br->getSuccessor(1);
        else { pop.on = false; stack.pop_back(); fork(c, fi, bb, {{f, br->getSuccessor(0)}, {f ^ 1, br->getSuccessor(1)}}, stop, out); return; }
      }
    } else if (auto *sw = dyn_cast<SwitchInst>(&T)) {
      V v = operand(c, fi, sw->getCondition());
      if (!v->isInt()) throw Undecided("switch on unknown");
      v = D.simp(v);
      if (v->isConst()) { next = sw->getDefaultDest(); for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v->c) next = cs.getCaseSuccessor(); }
      else {
        std::vector<std::pair<B, const BasicBlock *>> succ; B rest = BT; std::map<const BasicBlock *, B> by; std::vector<const BasicBlock *> order;
        for (auto &cs : sw->cases()) { auto e = D.eq(v, D.cst(v->w, cs.getCaseValue()->getZExtValue())); if (!e) throw Undecided("switch"); auto *s = cs.getCaseSuccessor(); if (!by.count(s)) { by[s] = BF; order.push_back(s); } by[s] = D.bdd.Or(by[s], *e); rest = D.bdd.And(rest, *e ^ 1); }
        auto *dd = sw->getDefaultDest(); if (!by.count(dd)) { by[dd] = BF; order.push_back(dd); } by[dd] = D.bdd.Or(by[dd], rest);
        for (auto *s : order) if (D.bdd.And(c.st.pc, by[s]) != BF) succ.push_back({by[s], s});
        if (succ.size() == 1) next = succ[0].second;
        else { pop.on = false; stack.pop_back(); fork(c, fi, bb, succ, stop, out); return; }
      }
    } else if (auto *r = dyn_cast<ReturnInst>(&T)) {
      c.status = Ctx::RETURNED; if (r->getReturnValue()) c.ret = operand(c, fi, r->getReturnValue());
      out.push_back(std::move(c)); return;
    } else if (isa<UnreachableInst>(&T)) {
      nUB++;
      report("unreachable", "execution reaches a point with undefined behaviour (for instance the end of a value-returning function)", &T, c.st, BT);
      return; // this path has no defined continuation
    } else if (isa<ResumeInst>(&T)) {
      c.status = Ctx::THREW; out.push_back(std::move(c)); return;
    } else if (auto *inv = dyn_cast<InvokeInst>(&T)) {
      size_t depth0 = stack.size(); std::vector<Outcome> os;
      try { os = callInst(c, fi, *inv); }
      catch (Split &sp) { pop.on = false; stack.resize(depth0 - 1); resplit(c, fi, bb, it, stop, out, sp); return; }
      pop.on = false; stack.pop_back();
      for (size_t k = 0; k < os.size(); k++) {
        auto &o = os[k]; bool last = k + 1 == os.size();
        Ctx n = last ? std::move(c) : c; n.st = std::move(o.st);
        const BasicBlock *to;
        if (o.threw) {
          n.ti = o.ti; n.exc = o.exc;
          if (!landing(n, fi, *inv, o)) { n.status = Ctx::THREW; out.push_back(std::move(n)); if (last) return; continue; }
          to = inv->getUnwindDest();
        } else { if (!inv->getType()->isVoidTy()) n.regs[fi.num[inv]] = o.ret; to = inv->getNormalDest(); }
        arrive(n, fi, bb, to);
        if (again(n, fi, bb, to)) { report("nontermination", "a loop does not end: the same state comes back", &T, n.st, BT); if (last) return; continue; }
        if (to == stop) { n.status = Ctx::AT_STOP; out.push_back(std::move(n)); if (last) return; continue; }
        if (last) { c = std::move(n); next = to; break; }
        if (++exdepth > 4000) throw Undecided("nesting budget");
        exec(std::move(n), fi, to, to->begin(), stop, out); exdepth--;
      }
      if (os.empty()) return;
      bb = next; it = bb->begin(); continue;
    } else throw Undecided(std::string("terminator ") + T.getOpcodeName());
    arrive(c, fi, bb, next);
    if (again(c, fi, bb, next)) { report("nontermination", "a loop does not end: the same state comes back", &T, c.st, BT); return; }
    if (next == stop) { c.status = Ctx::AT_STOP; out.push_back(std::move(c)); return; }
    bb = next; it = bb->begin();
  }
}
// ------------------------------------------------------------------ exceptions
static const std::map<std::string, std::string> &stdExc() {
  static const std::map<std::string, std::string> m = {
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  return m;
}
static bool excIsA(std::string t, const std::string &base) { for (;;) { if (t == base) return true; auto it = stdExc().find(t); if (it == stdExc().end()) return false; t = it->second; } }
bool Engine::landing(Ctx &c, FuncInfo &fi, const InvokeInst &inv, const Outcome &o) {
  auto *lp = inv.getLandingPadInst(); int sel = -1;
  for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
    if (!lp->isCatch(i)) continue;
    auto *cl = lp->getClause(i);
    if (cl->isNullValue()) sel = 100000;
    else { std::string nm = cl->getName().str(); if (excIsA(o.ti, nm)) { auto &id = typeIds[nm]; if (!id) id = typeIds.size(); sel = id; } }
  }
  if (sel < 0) { if (!lp->isCleanup()) return false; sel = 0; }
  V e = o.exc ? o.exc : D.cst(64, 0);
  c.regs[fi.num[lp]] = D.agg({e, D.cst(32, sel)});
  return true;
}
// ------------------------------------------------------------------ calls
std::vector<Outcome> Engine::callInst(Ctx &c, FuncInfo &fi, const CallBase &cb) {
  std::vector<Outcome> out;
  if (auto *ii = dyn_cast<IntrinsicInst>(&cb)) {
    if (ii->getIntrinsicID() == Intrinsic::dbg_declare || ii->getIntrinsicID() == Intrinsic::dbg_value || ii->getIntrinsicID() == Intrinsic::dbg_label || isa<DbgInfoIntrinsic>(ii)) { Outcome o; o.st = std::move(c.st); out.push_back(std::move(o)); return out; }
    std::vector<V> a; for (auto &x : cb.args()) if (!isa<MetadataAsValue>(x)) a.push_back(operand(c, fi, x));
    V r; State st = std::move(c.st); ctx(st);
    bool known; try { known = intrinsic(st, *ii, a, r); } catch (Split &) { c.st = std::move(st); throw; }
    if (!known) throw Undecided("intrinsic " + cb.getCalledFunction()->getName().str());
    if (st.pc == BF) return out;
    Outcome o; o.st = std::move(st); o.ret = r; out.push_back(std::move(o)); return out;
  }
  if (cb.isInlineAsm()) throw Undecided("inline assembly");
  Function *F = cb.getCalledFunction();
  if (!F) {
    auto *cv = cb.getCalledOperand()->stripPointerCasts();
    if (auto *al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliaseeObject());
    else if (auto *ff = dyn_cast<Function>(cv)) F = ff;
    else {
      V p = operand(c, fi, cb.getCalledOperand()); int id; V off;
      if (resolve(c.st, p, id, off) && off->isConst() && off->c == 0 && objG.count(id)) F = const_cast<Function *>(dyn_cast<Function>(objG[id]));
    }
    if (!F) throw Undecided("call through an unknown pointer");
  }
  std::vector<V> args;
  for (unsigned i = 0; i < cb.arg_size(); i++) {
    V v = operand(c, fi, cb.getArgOperand(i));
    if (cb.isByValArgument(i)) { Type *t = cb.getParamByValType(i); int id = newObj(c.st, D.cst(64, DL->getTypeAllocSize(t)), Obj::STACK, "byval"); memcpy_(c.st, baseOf(id), v, D.cst(64, DL->getTypeAllocSize(t)), &cb); v = baseOf(id); }
    args.push_back(v);
  }
  State st = std::move(c.st); ctx(st);
  { bool done; try { done = builtin(st, cb, F, args, out); } catch (Split &) { c.st = std::move(st); throw; }
    if (done) { for (size_t i = out.size(); i-- > 0;) if (out[i].st.pc == BF) out.erase(out.begin() + i); return out; } }
  if (F->isDeclaration()) throw Undecided("call of external function " + demangle(F->getName().str()).substr(0, 120));
  return call(std::move(st), F, std::move(args));
}
std::vector<Outcome> Engine::call(State st, Function *F, std::vector<V> args) {
  nCalls++; visited.insert(F);
  auto &act = active[F]; struct Leave { Visits &v; std::shared_ptr<const Seen> was; ~Leave() { v.n--; v.seen = was; } } leave{act, act.seen};
  if (++act.n >= 64) {
    bool eq = act.seen && act.seen->vals.size() == args.size(); for (size_t i = 0; eq && i < args.size(); i++) eq = alike(args[i], act.seen->vals[i]);
    if (eq && sameState(*act.seen, st)) { report("nontermination", "a recursion does not end: the same call comes back with the same memory", stack.empty() ? &F->getEntryBlock().front() : stack.back(), st, BT); return {}; }
    if (act.n == 64 || act.n == 128) { auto s = std::make_shared<Seen>(); s->mem = st.mem; s->streams = st.streams; s->vals = args; act.seen = s; }
  }
  if (++depth > 200) throw Undecided("call depth budget");
  FuncInfo &fi = info(F);
  Ctx c; c.st = std::move(st); c.regs.resize(fi.n);
  for (unsigned i = 0; i < F->arg_size(); i++) c.regs[i] = args[i];
  std::vector<Ctx> res;
  auto *e = &F->getEntryBlock();
  exec(std::move(c), fi, e, e->begin(), nullptr, res);
  depth--;
  std::vector<Outcome> out;
  for (auto &r : res) {
    for (int id : r.allocas) r.st.mem.erase(id);
    Outcome o; o.st = std::move(r.st); o.ret = r.ret; o.threw = r.status == Ctx::THREW; o.ti = r.ti; o.exc = r.exc;
    // join with an earlier outcome of the same kind
    bool done = false;
    for (auto &p : out) {
      if (p.threw != o.threw || p.ti != o.ti) continue;
      State m; B f; if (!mergeState(p.st, o.st, m, f)) continue;
      V rv;
      if (p.ret) { rv = D.mux(f, p.ret, o.ret); if (!rv) continue; }
      p.st = std::move(m); p.ret = rv; done = true; nMerges++; break;
    }
    if (!done) out.push_back(std::move(o));
  }
  return out;
}
