#include "engine.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
#include <fstream>
#include <iostream>
#include <sstream>

static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else if (c < 127) o += c; else o += '?'; } return o + "\""; }
struct Unit { std::string w; std::vector<u64> args; };
static std::vector<u64> parseRange(const std::string &s) {
  std::vector<u64> r; std::stringstream ss(s); std::string x;
  while (std::getline(ss, x, ',')) { u64 step = 1; size_t p = x.find('/'); if (p != std::string::npos) { step = strtoull(x.c_str() + p + 1, 0, 0); x.resize(p); } p = x.find('-'); u64 a = strtoull(x.c_str(), 0, 0), b = p == std::string::npos ? a : strtoull(x.c_str() + p + 1, 0, 0); for (u64 v = a; v <= b; v += step) r.push_back(v); }
  return r;
}
static std::string cstrOf(GlobalVariable *g) {
  if (!g || !g->hasInitializer()) return "";
  if (auto *d = dyn_cast<ConstantDataSequential>(g->getInitializer())) if (d->isCString()) return d->getAsCString().str();
  return "";
}
void Engine::runWitness(Function *F, const std::vector<u64> &args) {
  findings.clear(); fset.clear();
  reset();
  State st; std::vector<V> a; size_t i = 0;
  for (auto &x : F->args()) a.push_back(D.cst(x.getType()->getIntegerBitWidth(), args.at(i++)));
  try {
    auto os = call(std::move(st), F, a);
    for (auto &o : os) if (o.threw) { State s = o.st; B b = BT; Dom::Model m; Finding f; f.rule = "exception"; f.msg = "an exception (" + demangle(o.ti) + ") escapes from an operation that must succeed"; f.loc = where(&F->getEntryBlock().front()); if (definite(s, b, m)) { f.k = Finding::REFUTED; f.model = modelStr(m); nRefuted++; } else { f.k = Finding::UNKNOWN; nUnknown++; } findings.push_back(f); }
  } catch (Undecided &u) { nUnknown++; Finding f; f.k = Finding::UNKNOWN; f.rule = "undecided"; f.msg = u.what(); f.loc = stack.empty() ? "" : where(stack.back()); f.stack = stackStr(); findings.push_back(f); }
  catch (BudgetExceeded &u) { nUnknown++; Finding f; f.k = Finding::UNKNOWN; f.rule = "budget"; f.msg = u.what(); f.loc = stack.empty() ? "" : where(stack.back()); f.stack = stackStr(); findings.push_back(f); }
  stack.clear();
}
static std::string runUnit(Engine &E, Function *F, const Unit &u, double tmo, double total) {
  double t0 = Engine::now();
  E.visited.clear(); E.intercepts.clear(); E.nProved = E.nRefuted = E.nUnknown = E.nBounds = E.nCalls = E.nMerges = E.nForks = E.nUB = E.nSplits = E.maxVisits = E.maxHeap = 0;
  E.pick = -1; E.deadline = t0 + tmo; E.D.bdd.limit = 12u << 20;
  E.runWitness(F, u.args);
  std::vector<Finding> fs = E.findings; u64 proved = E.nProved, steps = E.steps, forks = E.nForks, merges = E.nMerges, nodes = E.D.bdd.nodes();
  bool refuted = false, unknown = false; for (auto &f : fs) (f.k == Finding::REFUTED ? refuted : unknown) = true;
  bool used = E.usedInt; std::string mode = used ? "universal" : "exhaustive-contents";
  int npick = 0; u64 pickProved = 0; int pickUnknown = 0;
  if (!refuted && unknown && used) {
    for (int k = 0; k < 12; k++) {
      if (Engine::now() - t0 > total) break;
      E.pick = k; E.deadline = Engine::now() + tmo / 4; E.nProved = 0;
      E.runWitness(F, u.args); npick++;
      bool ru = false; for (auto &f : E.findings) { if (f.k == Finding::REFUTED) { Finding g = f; g.model += " [integer instance " + std::to_string(k) + "]"; fs.push_back(g); refuted = true; } else ru = true; }
      if (ru) pickUnknown++; else pickProved += E.nProved;
      if (refuted) break;
    }
  }
  std::string st = refuted ? "refuted" : unknown ? "unknown" : "proved";
  std::ostringstream o;
  o << "{\"w\":" << js(u.w) << ",\"args\":["; for (size_t i = 0; i < u.args.size(); i++) o << (i ? "," : "") << u.args[i];
  o << "],\"status\":\"" << st << "\",\"mode\":\"" << mode << "\",\"proved\":" << proved << ",\"unknown\":" << E.nUnknown << ",\"bounds\":" << E.nBounds << ",\"calls\":" << E.nCalls << ",\"joins\":" << merges << ",\"forks\":" << forks << ",\"steps\":" << steps << ",\"nodes\":" << nodes << ",\"ub\":" << E.nUB << ",\"heap\":" << E.maxHeap << ",\"iterations\":" << E.maxVisits << ",\"inst\":" << npick << ",\"instProved\":" << pickProved << ",\"instUnknown\":" << pickUnknown << ",\"secs\":" << (Engine::now() - t0);
  o << ",\"findings\":["; bool first = true; int cnt = 0;
  std::stable_sort(fs.begin(), fs.end(), [](const Finding &a, const Finding &b) { return a.k < b.k; });
  for (auto &f : fs) { if (cnt++ > 12) break; if (!first) o << ","; first = false; o << "{\"k\":\"" << (f.k == Finding::REFUTED ? "refuted" : "unknown") << "\",\"rule\":" << js(f.rule) << ",\"msg\":" << js(f.msg) << ",\"loc\":" << js(f.loc) << ",\"path\":" << js(f.stack.substr(0, 1500)) << ",\"model\":" << js(f.model) << "}"; }
  o << "],\"functions\":["; first = true;
  for (auto *f : E.visited) { std::string d = demangle(f->getName().str()); if (d.find("sim_ds::") == std::string::npos || d.find("std::") == 0) continue; if (!first) o << ","; first = false; o << js(d.substr(0, 200)); }
  o << "]}"; return o.str();
}
struct Args { Engine *E; Function *F; Unit u; double tmo, total; std::string out; };
static void *thr(void *p) { auto *a = (Args *)p; a->out = runUnit(*a->E, a->F, a->u, a->tmo, a->total); return nullptr; }

int main(int argc, char **argv) {
  std::string bc, filter; int jobs = 8; double tmo = 60, total = 120, wall = 1e9; bool list = false, thorough = false; std::vector<u64> only; bool haveOnly = false; u64 memMB = 2500;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-t") tmo = atof(argv[++i]); else if (a == "-T") total = atof(argv[++i]); else if (a == "-W") wall = atof(argv[++i]); else if (a == "-w") filter = argv[++i]; else if (a == "-a") { only = parseRange(argv[++i]); haveOnly = true; } else if (a == "--list") list = true; else if (a == "--thorough") thorough = true; else if (a == "-m") memMB = atoi(argv[++i]); else bc = a; }
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(bc, err, C);
  if (!M) { err.print("absint", errs()); return 3; }
  std::vector<Unit> units; std::map<std::string, Function *> fn;
  std::vector<std::string> filters; { std::stringstream ss(filter); std::string x; while (std::getline(ss, x, ',')) filters.push_back(x); }
  std::map<std::string, std::string> meta;
  for (auto &g : M->globals()) if (g.getName().starts_with("sds_meta_")) meta[g.getName().substr(9).str()] = cstrOf(&g);
  for (auto &F : *M) {
    if (F.isDeclaration() || !F.getName().starts_with("W_")) continue;
    std::string n = F.getName().str();
    if (!filters.empty()) { bool ok = false; for (auto &f : filters) if (f == n || (f.back() == '*' && n.rfind(f.substr(0, f.size() - 1), 0) == 0)) ok = true; if (!ok) continue; }
    fn[n] = &F;
    if (haveOnly) { units.push_back({n, only}); continue; }
    std::string spec = meta.count(n) ? meta[n] : ""; size_t bar = spec.find('|'); if (bar != std::string::npos) spec = thorough ? spec.substr(bar + 1) : spec.substr(0, bar);
    std::vector<std::vector<u64>> rs; std::stringstream ss(spec); std::string x; while (std::getline(ss, x, ';')) if (!x.empty()) rs.push_back(parseRange(x));
    if (rs.size() != F.arg_size()) { fprintf(stderr, "bad spec for %s: %s\n", n.c_str(), spec.c_str()); return 3; }
    std::vector<size_t> ix(rs.size(), 0);
    for (;;) { Unit u; u.w = n; for (size_t i = 0; i < rs.size(); i++) u.args.push_back(rs[i][ix[i]]); units.push_back(u); size_t i = 0; while (i < rs.size() && ++ix[i] == rs[i].size()) ix[i++] = 0; if (i == rs.size()) break; }
  }
  if (list) { for (auto &u : units) { printf("%s", u.w.c_str()); for (auto a : u.args) printf(" %llu", (unsigned long long)a); puts(""); } return 0; }
  // shared counter
  auto *next = (std::atomic<size_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (next) std::atomic<size_t>(0);
  auto *bad = (std::atomic<size_t> *)((char *)next + 256); new (bad) std::atomic<size_t>(0);
  auto *cur = (volatile i64 *)((char *)next + 512);
  auto *mtx = (pthread_mutex_t *)((char *)next + 2048); { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); pthread_mutex_init(mtx, &a); }
  // interleave for balance: deterministic shuffle
  std::mt19937_64 sh(1); std::shuffle(units.begin(), units.end(), sh);
  double t0 = Engine::now();
  jobs = std::min<int>(jobs, std::max<size_t>(1, units.size()));
  auto worker = [&](int id) {
    rlimit rl{(rlim_t)memMB << 20, (rlim_t)memMB << 20}; setrlimit(RLIMIT_AS, &rl);
    std::string buf;
    for (;;) {
      size_t i = (*next)++; if (i >= units.size()) break;
      cur[id] = i;
      if (Engine::now() - t0 > wall || (*bad >= 30 && Engine::now() - t0 > 100)) { std::ostringstream o; o << "{\"w\":" << js(units[i].w) << ",\"status\":\"skipped\"}\n"; buf = o.str(); }
      else {
        Engine E(M.get()); E.deadline = 0; if (meta.count("heap_limit")) E.heapLimit = strtoull(meta["heap_limit"].c_str(), 0, 0);
        Args a{&E, fn[units[i].w], units[i], tmo, total, ""};
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024ull << 20); pthread_t t;
        pthread_create(&t, &at, thr, &a);
        // the engine checks its own deadline between steps; a single step that does not end takes the worker with it (reported as crashed, the parent starts another)
        double left = std::min(total + 20, std::max(10.0, wall - (Engine::now() - t0) + 30)); timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += (time_t)left + 1;
        if (pthread_timedjoin_np(t, nullptr, &ts)) _exit(9);
        buf = a.out + "\n"; if (buf.find("\"status\":\"refuted\"") != std::string::npos) ++*bad;
      }
      if (pthread_mutex_lock(mtx) == EOWNERDEAD) pthread_mutex_consistent(mtx);
      size_t off = 0; while (off < buf.size()) { ssize_t k = write(1, buf.data() + off, buf.size() - off); if (k <= 0) break; off += k; }
      pthread_mutex_unlock(mtx);
      cur[id] = -1;
    }
    _exit(0);
  };
  fflush(stdout);
  std::map<pid_t, int> pids; 
  auto spawn = [&](int id) { cur[id] = -1; pid_t p = fork(); if (!p) worker(id); pids[p] = id; };
  if (jobs == 1 && units.size() == 1) worker(0);
  // each worker writes lines atomically through its own pipe-less append; lines are below PIPE_BUF only sometimes, so use per-worker files
  for (int i = 0; i < jobs; i++) spawn(i);
  int st; pid_t p;
  while ((p = wait(&st)) > 0) {
    int id = pids[p]; pids.erase(p);
    if (cur[id] >= 0) { // worker died while analysing a unit
      std::ostringstream o; auto &u = units[cur[id]]; o << "{\"w\":" << js(u.w) << ",\"args\":["; for (size_t i = 0; i < u.args.size(); i++) o << (i ? "," : "") << u.args[i]; o << "],\"status\":\"crashed\",\"signal\":" << (WIFSIGNALED(st) ? WTERMSIG(st) : 0) << "}\n"; std::string s = o.str(); if (write(1, s.data(), s.size()) < 0) return 3;
      spawn(id);
    }
  }
  return 0;
}
