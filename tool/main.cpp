#include "llvm/Analysis/ValueTracking.h"
#include "effects.h"
#include "report.h"
#include "facts.h"
#include "live.h"
#include "num.h"
#include "term.h"
#include "init.h"
#include "jsonacc.h"
#include <chrono>
#include "llvm/Support/Regex.h"
// ---- parallel sites: calls from library code into an algorithm that takes a parallel execution policy
struct ParSite { const Function *F; const Instruction *I; const Function *entry; std::set<const Function *> callables; };
static std::vector<ParSite> parSites(Prog &P, Effects &E) {
  std::vector<ParSite> r;
  for (auto &F : *P.M) {
    if (F.isDeclaration() || isParEntry(&F) && !isGbs(&F)) continue;
    for (auto &[I, cs] : E.callees[&F]) for (auto *C : cs) {
      if (!isParEntry(C) || isGbs(C)) continue;
      ParSite s{&F, I, C, {}}; std::set<const Function *> seen; std::vector<const Function *> st{C};
      while (!st.empty()) { auto *f = st.back(); st.pop_back(); if (!seen.insert(f).second) continue; if (f != C && isGbs(f)) { s.callables.insert(f); continue; } for (auto &[J, c2] : E.callees[f]) for (auto *c : c2) if (!c->isDeclaration()) st.push_back(c); }
      r.push_back(s);
    }
  }
  return r;
}

static bool isCallOp(const Function *F) { std::string d = demangled(F); return d.find("operator()") != std::string::npos || (d[0] == '_' && d.find("_cl") != std::string::npos); }
static std::string lambdaLoc(const Function *F) { return fnLoc(F); }
// C01: callables given to parallel algorithms must not write state shared between elements
static void rulePar(Prog &P, Effects &E, Report &R) {
  const char *r = "PAR-RACE"; std::set<const Function *> seenC;
  for (auto &s : parSites(P, E)) {
    if (isDrv(s.F)) continue;
    R.item(r, "sites", locStr(s.I) + " " + enclosingName(s.F));
    // overlapping input and output ranges
    { std::string en = shortName(s.entry); std::vector<const Value *> it; for (auto &a : cast<CallBase>(s.I)->args()) if (a->getType()->isPointerTy()) it.push_back(a);
      if (en.find("transform") != std::string::npos && en.find("reduce") == std::string::npos && it.size() >= 3) {
        FnState &S = E.st[s.F]; auto pt = [&](const Value *v) { auto f = S.vals.find(v); return f == S.vals.end() ? PT{} : f->second; };
        for (size_t d = 2; d < it.size() && d <= 3; d++) { auto a = pt(it[0]), b = pt(it[d]);
          if (a.size() == 1 && b.size() == 1 && a[0].first == b[0].first && a[0].second.k == Off::C && b[0].second.k == Off::C && a[0].second.c != b[0].second.c && E.objs[a[0].first].k != OK::Local)
            R.add(r, s.I, enclosingName(s.F), "overlap", "a parallel algorithm reads and writes the same range shifted by " + std::to_string(b[0].second.c - a[0].second.c) + " bytes"); }
      } }
    for (auto *c : s.callables) {
      if (isDrv(c)) continue;
      bool lam = isCallOp(c); int t = Effects::thisIdx(c);
      R.item(r, "callables", fnLoc(c) + " " + enclosingName(c));
      uint64_t em = 0; for (unsigned i = 0; i < c->arg_size() && i < 32; i++) if (!(lam && (int)i == t) && !(t == 1 && i == 0)) em |= 1ull << i | 1ull << (i + 32);
      for (auto &[e, w] : E.sum[c].writes) {
        auto &o = E.objs[e.obj]; R.count(r, "writes");
        if (o.k == OK::Arg && o.parent == 0 && t == 1) continue;
        bool shared = o.rootK == OK::Global || (lam && o.rootK == OK::Arg && o.root == t);
        if (!shared) continue;
        if (o.rootK == OK::Global) if (auto *gv = dyn_cast<GlobalVariable>(o.v); gv && gv->isThreadLocal()) continue; // one copy per thread
        if (o.k == OK::Deref && o.org == (const Value *)1) continue; // collapsed object: element dependence is not tracked
        if (E.pathMask(e.obj, e.off) & em) continue;
        auto *I = E.origin(c, e); auto ch = E.chain(c, e);
        std::string what = o.rootK == OK::Global ? "static object '" + llvm::demangle(o.v->getName()) + "'" : o.depth == 0 ? "the callable's own captured copy" : "an object captured by the callable";
        Finding f; f.rule = r; Loc l = repoLoc(s.I); f.file = l.file; f.line = l.line; f.func = enclosingName(s.F); f.msg = "callable at " + fnLoc(c) + " run by a parallel algorithm writes " + what + " at a location that does not depend on its element (" + (ch.empty() ? "" : ch.back()) + ")"; f.chain = ch;
        f.key = l.file + "|" + f.func + "|" + what; R.add(f);
      }
      if (lam) for (auto &[e, w] : E.sum[c].writes) if (e.off.k == Off::Aff && E.objs[e.obj].rootK == OK::Arg && E.objs[e.obj].root == t)
        for (auto &[e2, w2] : E.sum[c].reads) if (e2.obj == e.obj && e2.off.k == Off::Aff && e2.off.sym == e.off.sym && e2.off.coef == e.off.coef && std::abs(e2.off.c - e.off.c) >= std::abs(e.off.coef) && (e2.off.c - e.off.c) % e.off.coef == 0)
          R.add(r, E.origin(c, e), enclosingName(s.F), "cross-element", "callable at " + fnLoc(c) + " writes its own element and reads a neighbouring element of the same array", E.chain(c, e2, false));
    }
  }
}
static void ruleStaticInit(const char *r, const Function &F, Effects &E, Report &R);
// C02: const member functions of library types leave every reachable object and every static unchanged
static void ruleConst(Prog &P, Effects &E, Report &R) {
  const char *r = "CONST-PURE";
  for (auto &F : *P.M) {
    if (F.isDeclaration() || !startsWith(F.getName(), "_ZNK3gbs")) continue;
    R.item(r, "functions", shortName(&F)); R.count(r, "instances");
    ruleStaticInit(r, F, E, R);
    int t = Effects::thisIdx(&F);
    for (auto &[e, w] : E.sum[&F].writes) {
      auto &o = E.objs[e.obj]; R.count(r, "writes");
      bool self = o.rootK == OK::Arg && o.root == t, glob = o.rootK == OK::Global;
      if (!self && !glob) continue;
      auto *I = E.origin(&F, e); const Function *in = nullptr; E.origin(&F, e, &in);
      std::string what = glob ? "writes static " + llvm::demangle(o.v->getName()) : "writes object";
      R.add(r, I, shortName(in), what, std::string("a const operation ") + (glob ? "modifies static object '" + llvm::demangle(o.v->getName()) + "'" : o.depth ? "modifies memory reachable from its object" : "modifies its own object") + "; reached from const member " + shortName(&F), E.chain(&F, e));
    }
  }
  // mesh queries: free functions that look at faces, edges and vertices through (pointers to) them
  for (auto &F : *P.M) {
    if (F.isDeclaration() || !isGbs(&F) || isDrv(&F)) continue; std::string fl = fnLoc(&F);
    if (fl.find("halfEdgeMeshGetters.h") == std::string::npos && fl.find("halfEdgeMeshGeomTests.h") == std::string::npos && fl.find("halfEdgeMeshQuality.h") == std::string::npos) continue;
    if (F.getName().contains("C1E") || F.getName().contains("C2E")) continue; R.item(r, "mesh queries", shortName(&F));
  }
  for (auto &w : P.entityWrites) { bool q = false; for (auto *f : {"halfEdgeMeshGetters.h", "halfEdgeMeshGeomTests.h", "halfEdgeMeshQuality.h"}) q |= w.fn.find(f) != std::string::npos || w.at.file.find(f) != std::string::npos; if (!q || StringRef(w.mangled).contains("C1E") || StringRef(w.mangled).contains("C2E")) continue;
    Finding f; f.rule = r; f.file = w.at.file; f.line = w.at.line; f.func = w.func; f.msg = "the query " + w.func + " modifies the mesh entity it looks at"; f.key = f.file + "|" + f.func + "|writes mesh entity"; R.add(f); }
}
// a static object whose first-use initialisation takes its value from that call's arguments: later calls see the first call's value
static bool fromArguments(const Function &F, const Value *v0, const Value *self) {
  std::set<const Value *> seen; std::vector<const Value *> st{v0};
  while (!st.empty()) { auto *v = st.back(); st.pop_back(); if (v == self || !seen.insert(v).second || seen.size() > 3000) continue;
    if (auto *a = dyn_cast<Argument>(v)) { if (a->hasStructRetAttr()) continue; return true; }
    if (isa<AllocaInst>(v)) { std::vector<const Value *> w{v}; std::set<const Value *> ws; while (!w.empty()) { auto *p = w.back(); w.pop_back(); if (!ws.insert(p).second) continue; for (auto *u : p->users()) { if (isa<GetElementPtrInst>(u)) w.push_back(u); else if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() == p) st.push_back(s->getValueOperand()); } else if (auto *cb = dyn_cast<CallBase>(u)) { if (!cb->isLifetimeStartOrEnd()) for (auto &x : cb->args()) st.push_back(x); } } } continue; }
    if (auto *u = dyn_cast<Instruction>(v)) { if (auto *cb = dyn_cast<CallBase>(u)) { for (auto &x : cb->args()) st.push_back(x); continue; } for (auto &o : u->operands()) st.push_back(o); } }
  return false; }
static void ruleStaticInit(const char *r, const Function &F, Effects &E, Report &R) {
  for (auto &J : instructions(F)) { auto *cb = dyn_cast<CallBase>(&J); if (!cb || !cb->getCalledFunction() || cb->getCalledFunction()->getName() != "__cxa_guard_acquire") continue;
    auto *gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()); if (!gv) continue; std::string on = "_Z" + gv->getName().drop_front(4).str(); auto *obj = F.getParent()->getNamedValue(on); if (!obj) continue;
    const BasicBlock *ini = nullptr; for (auto *u : J.users()) for (auto *u2 : u->users()) if (auto *br = dyn_cast<BranchInst>(u2)) for (auto *s : br->successors()) if (s->getSinglePredecessor()) { bool rel = false; std::set<const BasicBlock *> sn; std::vector<const BasicBlock *> q{s}; while (!q.empty()) { auto *b = q.back(); q.pop_back(); if (!sn.insert(b).second || !E.dt(&F).dominates(s, b)) continue; for (auto &K : *b) if (auto *c = dyn_cast<CallBase>(&K); c && c->getCalledFunction() && c->getCalledFunction()->getName() == "__cxa_guard_release") rel = true; for (auto *t : successors(b)) q.push_back(t); } if (rel) ini = s; }
    if (!ini) continue;
    for (auto &B : F) if (E.dt(&F).dominates(ini, &B)) for (auto &K : B) { bool dep = false;
      if (auto *S = dyn_cast<StoreInst>(&K)) { if (getUnderlyingObject(S->getPointerOperand()) == obj) dep = fromArguments(F, S->getValueOperand(), obj); }
      else if (auto *M = dyn_cast<MemTransferInst>(&K)) { if (getUnderlyingObject(M->getRawDest()) == obj) dep = fromArguments(F, M->getRawSource(), obj); }
      else if (auto *c = dyn_cast<CallBase>(&K)) { bool on = false; for (auto &x : c->args()) if (x->getType()->isPointerTy() && getUnderlyingObject(x) == obj) on = true; if (on) for (auto &x : c->args()) if (getUnderlyingObject(x) != obj && fromArguments(F, x, obj)) dep = true; }
      if (dep) { R.add(r, &K, enclosingName(&F), "static " + llvm::demangle(on), "keeps what the first call's arguments gave in the static object '" + llvm::demangle(on) + "' for all later calls"); break; } } }
}
// C04: nothing a library function computes comes from a clock, a random source, the environment, the scheduler or earlier calls
static const char *denied(StringRef n) {
  static const std::map<std::string, const char *> ex = {{"rand", "random numbers"}, {"rand_r", "random numbers"}, {"srand", "random numbers"}, {"random", "random numbers"}, {"srandom", "random numbers"}, {"drand48", "random numbers"}, {"lrand48", "random numbers"}, {"arc4random", "random numbers"}, {"getrandom", "random numbers"}, {"nlopt_srand", "random numbers"}, {"nlopt_srand_time", "random numbers"},
    {"time", "the clock"}, {"clock", "the clock"}, {"clock_gettime", "the clock"}, {"gettimeofday", "the clock"}, {"nlopt_set_maxtime", "the clock"}, {"times", "the clock"},
    {"getenv", "the environment"}, {"secure_getenv", "the environment"}, {"getpid", "the process"}, {"gettid", "the thread"}, {"pthread_self", "the thread"}, {"sched_getcpu", "the thread"}, {"get_nprocs", "the machine"}, {"sysconf", "the machine"}, {"omp_get_num_threads", "the machine"}, {"omp_get_thread_num", "the thread"},
    {"printf", "standard output"}, {"puts", "standard output"}, {"putchar", "standard output"}, {"vprintf", "standard output"}, {"exit", "process exit"}, {"_exit", "process exit"}, {"quick_exit", "process exit"}, {"system", "another process"}, {"fopen", "a file"}, {"fopen64", "a file"}, {"remove", "a file"}, {"unlink", "a file"}, {"setenv", "the environment"}, {"putenv", "the environment"}, {"setlocale", "the locale"}, {"signal", "signal handlers"}, {"fesetround", "the rounding mode"}};
  auto it = ex.find(n.str()); if (it != ex.end()) return it->second;
  if (n.contains("random_device")) return "random numbers";
  if (n.contains("6chrono") && n.contains("3nowEv")) return "the clock";
  if (n.contains("hardware_concurrency")) return "the machine";
  if (startsWith(n, "_ZNSt13basic_filebuf") && n.contains("4open")) return "a file";
  if (n == "setlocale" || n == "fesetround" || n == "fesetenv" || n == "feenableexcept" || n == "_ZSt13set_terminatePFvvE" || n == "signal" || n == "sigaction" || n == "setenv" || n == "putenv" || n == "unsetenv" || n == "chdir" || n.contains("global_control")) return "a process-wide setting";
  if (startsWith(n, "_ZNSt6locale6global")) return "the locale";
  return nullptr;
}
// a call written in the library that ends the process
static const char *endsProcess(const CallBase *CB) { auto *c = CB->getCalledFunction(); if (!c) return nullptr; auto n = c->getName();
  if (n == "_ZSt9terminatev" || n == "abort" || n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit" || n == "__assert_fail" || n == "raise" || n == "kill") { auto l = locOf(CB->getDebugLoc().get()); return !l.file.empty() && l.file[0] != '/' ? (n == "_ZSt9terminatev" ? "std::terminate" : c->getName().data()) : nullptr; } return nullptr; }
static void ruleDet(Prog &P, Effects &E, Report &R) {
  const char *r = "DETERMINISM";
  auto direct = [&](const Function *F, const std::function<void(const Instruction *, const Function *)> &f) {
    for (auto &I : instructions(*F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; if (auto *c = CB->getCalledFunction()) f(&I, c); else { auto it = E.callees.find(F); if (it != E.callees.end()) { auto j = it->second.find(&I); if (j != it->second.end()) for (auto *c : j->second) f(&I, c); } } } };
  // functions outside the library: the denied source they reach without passing through the library again
  std::map<const Function *, std::pair<const char *, std::string>> memo; std::set<const Function *> busy;
  std::function<std::pair<const char *, std::string>(const Function *)> reach = [&](const Function *F) -> std::pair<const char *, std::string> {
    if (F->isDeclaration()) { auto *d = denied(F->getName()); return {d, d ? llvm::demangle(F->getName()) : ""}; }
    if (isGbs(F) || isDrv(F)) return {nullptr, ""};
    auto it = memo.find(F); if (it != memo.end()) return it->second; if (!busy.insert(F).second) return {nullptr, ""};
    std::pair<const char *, std::string> res{nullptr, ""};
    direct(F, [&](const Instruction *, const Function *c) { if (!res.first) res = reach(c); });
    for (auto &I : instructions(*F)) if (!res.first) for (auto &op : I.operands()) if (auto *g = dyn_cast<GlobalVariable>(op); g && g->getName() == "_ZSt4cout") res = {"standard output", "std::cout"};
    busy.erase(F); return memo[F] = res; };
  for (auto &F : *P.M) {
    if (F.isDeclaration() || !isGbs(&F) || isDrv(&F)) continue;
    std::string fl = fnLoc(&F); bool io = fl.find("gbs-io/") != std::string::npos || fl.find("gbs-render") != std::string::npos;
    R.item(r, "functions", enclosingName(&F));
    ruleStaticInit(r, F, E, R);
    auto bad = [&](const Instruction *I, const char *what, const std::string &sym) {
      bool isio = !strcmp(what, "standard output") || !strcmp(what, "a file"); if (io && isio) return;
      R.add(r, I, enclosingName(&F), std::string("uses ") + what, "uses " + std::string(what) + " (" + sym + ")"); };
    // formatting state left behind in a stream of the process
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->arg_size() > 1 && CB->getCalledFunction()) { auto n = CB->getCalledFunction()->getName();
      bool sets = n.contains("8ios_base9precisionEl") || n.contains("8ios_base5widthEl") || n.contains("8ios_base4setfE") || n.contains("8ios_base5flagsESt") || n.contains("8ios_base5imbue") || n.contains("9basic_iosIcSt11char_traitsIcEE10exceptionsE") || n.contains("5imbueERKSt6locale") || n.contains("St13_Setprecision") || n.contains("St8_Setbase") || n.contains("St12_Setiosflags") || n.contains("St8_SetfillI") || (n.contains("SolsE") && n.contains("RSt8ios_base")) || n.contains("ElsEPFRSt8ios_baseS0_E");
      if (!sets) continue; const Value *o = CB->getArgOperand(0); for (int i = 0; i < 30; i++) { o = getUnderlyingObject(o, 0); if (auto *c = dyn_cast<CallBase>(o); c && c->arg_size() && c->getArgOperand(0)->getType()->isPointerTy()) o = c->getArgOperand(0); else break; }
      if (auto *g = dyn_cast<GlobalVariable>(o); g && (g->getName() == "_ZSt4cerr" || g->getName() == "_ZSt4cout" || g->getName() == "_ZSt4clog")) bad(&I, "a process-wide setting", llvm::demangle(g->getName())); }
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *k = endsProcess(CB); k && !denied(k)) bad(&I, "process exit", k);
    direct(&F, [&](const Instruction *I, const Function *c) { R.count(r, "calls"); auto d = reach(c); if (d.first) bad(I, d.first, d.second);
      if (c->getName() == "nlopt_create") R.count(r, "optimisers"); });
    for (auto &I : instructions(F)) for (auto &op : I.operands()) if (auto *g = dyn_cast<GlobalVariable>(op); g && g->getName() == "_ZSt4cout") bad(&I, "standard output", "std::cout");
    for (auto &I : instructions(F)) { const Value *p = nullptr; if (auto *x = dyn_cast<AtomicRMWInst>(&I)) p = x->getPointerOperand(); else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) p = x->getPointerOperand(); else if (auto *x = dyn_cast<StoreInst>(&I); x && x->isAtomic()) p = x->getPointerOperand();
      if (!p) continue; if (auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(p)); g && g->getName().contains("3gbs") && !startsWith(g->getName(), "_ZGV")) R.add(r, &I, enclosingName(&F), "static " + llvm::demangle(g->getName()), "keeps state between calls in the static object '" + llvm::demangle(g->getName()) + "'"); }
    for (auto &[e, w] : E.sum[&F].writes) { auto &o = E.objs[e.obj]; if (o.rootK != OK::Global) continue; std::string g = llvm::demangle(o.v->getName()); if (g.find("rapidjson::") != std::string::npos && g.find("gbs::") == std::string::npos) continue;
      const Function *in = nullptr; auto *I = E.origin(&F, e, &in); R.add(r, I, shortName(in), "static " + g, "keeps state between calls in the static object '" + g + "'", E.chain(&F, e)); }
  }
  // containers sorted or hashed by address
  R.count(r, "walks over containers ordered by address", P.addrWalks); std::set<std::string> seenA;
  for (auto &a : P.addrOrder) { bool io = a.at.file.find("gbs-render") != std::string::npos; if (io || !seenA.insert(a.at.file + std::to_string(a.at.line) + a.what).second) continue;
    if (!a.callees.empty()) { bool w = false; for (auto &n : a.callees) { auto *c = P.M->getFunction(n); if (!c || c->isDeclaration()) { w = true; continue; } for (auto &[e, x] : E.sum[c].writes) if (E.objs[e.obj].rootK != OK::Local && E.objs[e.obj].rootK != OK::Fresh) w = true; } if (!w) continue; }
    Finding f; f.rule = r; f.file = a.at.file; f.line = a.at.line; f.func = a.fn; f.msg = "takes elements in the order of their addresses: " + a.what; f.key = f.file + "|" + f.func + "|order of addresses"; R.add(f); }
  for (auto &s : parSites(P, E)) { std::string n = llvm::demangle(s.entry->getName()); std::string en = shortName(s.entry);
    if (en.find("reduce") == std::string::npos && en.find("_scan") == std::string::npos) continue; R.item(r, "parallel reductions", locStr(s.I));
    // order-dependent: floating-point operands
    std::string full = demangled(s.entry); if (full.find("double") == std::string::npos && full.find("float") == std::string::npos) continue;
    R.add(r, s.I, enclosingName(s.F), "parallel floating-point reduction", "adds floating-point numbers in an order that depends on the schedule"); }
}
// C03: an exception thrown by the library while it works on an element in parallel must not leave the element function
struct Thrower { Prog &P; Effects &E; std::map<const Function *, const Instruction *> memo; std::map<const Function *, const Function *> via; std::set<const Function *> busy;
  static bool terminates(const BasicBlock *b) { std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> st{b}; bool t = false; // leads to nothing but std::terminate
    while (!st.empty()) { b = st.back(); st.pop_back(); if (!seen.insert(b).second || seen.size() > 30) continue; for (auto &I : *b) if (auto *c = dyn_cast<CallBase>(&I); c && c->getCalledFunction()) { auto n = c->getCalledFunction()->getName(); if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") t = true; if (n == "__cxa_end_catch") return false; } for (auto *s : successors(b)) st.push_back(s); }
    return t; }
  static bool absorbed(const CallBase *CB) { // a handler for everything that does not rethrow
    auto *II = dyn_cast<InvokeInst>(CB); if (!II) return false; auto *lp = II->getLandingPadInst(); bool all = false;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { auto *c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) all = true; else if (auto *g = dyn_cast<GlobalVariable>(c); g && (g->getName() == "_ZTISt9exception")) all = true; }
    if (!all) return false;
    if (terminates(lp->getParent())) return false;
    // the handler must not rethrow: no __cxa_rethrow reachable from the landing pad before the function's normal flow
    std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> st{lp->getParent()}; 
    while (!st.empty()) { auto *b = st.back(); st.pop_back(); if (!seen.insert(b).second) continue; bool end = false; for (auto &I : *b) if (auto *c = dyn_cast<CallBase>(&I); c && c->getCalledFunction()) { if (c->getCalledFunction()->getName() == "__cxa_rethrow") return false; if (c->getCalledFunction()->getName() == "__cxa_end_catch") end = true; } if (!end) for (auto *s : successors(b)) st.push_back(s); }
    return true; }
  const Instruction *escapes(const Function *F) {
    if (F->isDeclaration()) return nullptr; auto it = memo.find(F); if (it != memo.end()) return it->second; if (!busy.insert(F).second) return nullptr;
    const Instruction *res = nullptr; const Function *v = nullptr;
    for (auto &I : instructions(*F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB || res || absorbed(CB)) continue;
      auto *c = CB->getCalledFunction();
      if (c && c->getName() == "__cxa_throw") { if (isGbs(F) || isDrv(F) || F->getName().contains("5nlopt")) { res = &I; v = nullptr; } continue; }
      if (c && c->getName() == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") { res = &I; continue; }
      auto f = E.callees.find(F); if (f == E.callees.end()) continue; auto j = f->second.find(&I); if (j == f->second.end()) { if (c && escapes(c)) { res = &I; v = c; } continue; }
      for (auto *k : j->second) if (escapes(k)) { res = &I; v = k; break; } }
    busy.erase(F); memo[F] = res; via[F] = v; return res; }
  // a handler that keeps what it caught: takes the exception pointer, or writes memory other than its own stack
  std::set<const Function *> trapped; std::map<const Function *, bool> km; std::map<const Function *, bool> rm;
  bool calls(const Function *F, const std::function<bool(StringRef)> &p, std::map<const Function *, bool> &m) { if (F->isDeclaration()) return p(F->getName()); auto it = m.find(F); if (it != m.end()) return it->second; m[F] = false;
    for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = CB->getCalledFunction()) if (calls(c, p, m)) return m[F] = true; return false; }
  const Value *swallows(const Function *F) {
    for (auto &I : instructions(*F)) { auto *II = dyn_cast<InvokeInst>(&I); if (!II || !absorbed(II)) continue; bool thr = false;
      auto f = E.callees.find(F); if (f != E.callees.end()) { auto j = f->second.find(&I); if (j != f->second.end()) for (auto *k : j->second) if (escapes(k)) thr = true; }
      if (auto *c = II->getCalledFunction()) thr = thr || (c->getName() == "__cxa_throw" && isGbs(F)) || escapes(c);
      if (!thr) continue; bool keeps = false; trapped.insert(F);
      std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> st{II->getLandingPadInst()->getParent()};
      while (!st.empty() && !keeps) { auto *b = st.back(); st.pop_back(); if (!seen.insert(b).second) continue; bool end = false;
        for (auto &J : *b) { if (auto *S = dyn_cast<StoreInst>(&J)) { if (!isa<AllocaInst>(getUnderlyingObject(S->getPointerOperand()))) keeps = true; }
          if (isa<AtomicRMWInst>(&J) || isa<AtomicCmpXchgInst>(&J)) keeps = true;
          if (auto *c = dyn_cast<CallBase>(&J)) { auto *g = c->getCalledFunction(); if (!g) { keeps = true; continue; } if (g->getName() == "__cxa_throw" || g->getName() == "__cxa_rethrow") keeps = true; if (g->getName() == "__cxa_end_catch") { end = true; break; }
            if (calls(g, [](StringRef n) { return n == "_ZSt17current_exceptionv"; }, km)) keeps = true; else if (isGbs(g) && !E.sum[g].writes.empty()) keeps = true; } }
        if (!end) for (auto *q : successors(b)) st.push_back(q); }
      if (!keeps) return &I; }
    return nullptr; }
  // throws again what one fixed element left (front, back, constant index) of a sequence that keeps an error per element
  // whether the error thrown again leaves some element of the container out (always the first, the last or a constant index, or a loop over a part)
  static bool fixedElement(const CallBase *c) {
    auto *g = c->getCalledFunction(); if (!g || g->getName() != "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE" || !c->arg_size()) return false;
    auto *tmp = c->getArgOperand(0)->stripPointerCasts();
    for (auto *u : tmp->users()) {
      const Value *src = nullptr;
      if (auto *s = dyn_cast<StoreInst>(u); s && s->getPointerOperand() == tmp) src = s->getValueOperand();
      else if (auto *k = dyn_cast<CallBase>(u); k && k->getCalledFunction() && k->arg_size() > 1 && k->getArgOperand(0) == tmp && k->getCalledFunction()->getName().contains("13exception_ptrC")) {
        auto *o = dyn_cast<CallBase>(k->getArgOperand(1)->stripPointerCasts()); auto n = o && o->getCalledFunction() ? o->getCalledFunction()->getName() : "";
        if (!n.contains("13exception_ptr")) continue;
        if (n.ends_with("4backEv") || n.ends_with("5frontEv")) return true;
        if ((n.ends_with("ixEm") || n.ends_with("2atEm")) && o->arg_size() > 1 && isa<ConstantInt>(o->getArgOperand(1))) return true; }
      auto *l = dyn_cast_or_null<LoadInst>(src); if (!l) continue;
      const Value *p = l->getPointerOperand()->stripPointerCasts();
      // element number i of a loop that starts after the first element, or stops at a capped count
      if (auto *gp = dyn_cast<GetElementPtrInst>(p); gp && gp->getNumIndices() == 1) if (auto *ph = dyn_cast<PHINode>(gp->getOperand(1))) {
        for (auto &in : ph->incoming_values()) if (auto *k = dyn_cast<ConstantInt>(in); k && !k->isZero()) return true;
        for (auto *pu : ph->users()) if (auto *cmp = dyn_cast<ICmpInst>(pu)) { auto *o = cmp->getOperand(0) == ph ? cmp->getOperand(1) : cmp->getOperand(0); if (isa<SelectInst>(o)) return true; if (auto *mi = dyn_cast<IntrinsicInst>(o); mi && (mi->getIntrinsicID() == Intrinsic::umin || mi->getIntrinsicID() == Intrinsic::smin)) return true; if (auto *b = dyn_cast<BinaryOperator>(o); b && (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::UDiv)) if (isa<ConstantInt>(b->getOperand(1))) return true; } }
      while (auto *gp = dyn_cast<GetElementPtrInst>(p)) { if (!gp->hasAllConstantIndices()) { p = nullptr; break; } p = gp->getPointerOperand()->stripPointerCasts(); }
      if (p && (isa<LoadInst>(p) || isa<CallBase>(p))) return true; }
    return false; }
  bool rethrowsAfter(const ParSite &s) { std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> st; bool past = false; const BasicBlock *b0 = s.I->getParent();
    auto hit = [&](const Instruction &J) { auto *c = dyn_cast<CallBase>(&J); if (!c || fixedElement(c)) return false; if (auto *g = c->getCalledFunction()) return calls(g, [](StringRef n) { return n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE" || n == "__cxa_throw"; }, rm); return false; };
    for (auto &J : *b0) { if (past && hit(J)) return true; if (&J == s.I) past = true; }
    if (auto *II = dyn_cast<InvokeInst>(s.I)) st.push_back(II->getNormalDest()); else for (auto *q : successors(b0)) st.push_back(q);
    while (!st.empty()) { auto *b = st.back(); st.pop_back(); if (!seen.insert(b).second) continue; for (auto &J : *b) if (hit(J)) return true; for (auto *q : successors(b)) st.push_back(q); }
    return false; }
  std::vector<std::string> chain(const Function *F) { std::vector<std::string> r; while (F && memo[F] && r.size() < 12) { r.push_back(locStr(memo[F]) + " in " + demangled(F).substr(0, 110)); F = via[F]; } return r; } };
static void ruleParThrow(Prog &P, Effects &E, Report &R) {
  const char *r = "PAR-THROW"; Thrower T{P, E};
  for (auto &s : parSites(P, E)) { if (isDrv(s.F)) continue; R.item(r, "sites", locStr(s.I) + " " + enclosingName(s.F));
    for (auto *c : s.callables) { if (isDrv(c)) continue; R.item(r, "callables", fnLoc(c));
      if (!T.escapes(c)) { if (auto *sw = T.swallows(c)) R.add(r, s.I, enclosingName(s.F), "failure lost", "the handler of the call at " + locStr(cast<Instruction>(sw)) + " drops an exception thrown while one element is processed in parallel");
        else if (T.trapped.count(c) && !T.rethrowsAfter(s)) R.add(r, s.I, enclosingName(s.F), "failure lost", "exceptions trapped while the elements are processed in parallel are not all thrown again after it");
        continue; }
      auto ch = T.chain(c);
      R.add(r, s.I, enclosingName(s.F), "throw leaves a parallel callable", "an exception thrown while one element is processed in parallel ends the program: thrown at " + (ch.empty() ? "" : ch.back()), ch); } }
}
// failures raised anywhere in the library leave through every caller: no function on the way ends the program or drops them
static void ruleFail(Prog &P, Effects &E, Report &R) {
  const char *r = "FAILURE"; Thrower T{P, E};
  for (auto &F : *P.M) { if (F.isDeclaration() || isDrv(&F)) continue; bool lib = isGbs(&F); std::string fl = fnLoc(&F); if (lib && (fl.find("gbs-io/") != std::string::npos || fl.find("gbs-render") != std::string::npos)) continue;
    if (!lib) continue; R.item(r, "functions", enclosingName(&F));
    for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; bool thr = false; const Function *by = nullptr; auto *c = CB->getCalledFunction();
      if (c && c->getName() == "__cxa_throw") { thr = true; R.count(r, "throws"); }
      else { auto f = E.callees.find(&F); if (f != E.callees.end()) { auto j = f->second.find(&I); if (j != f->second.end()) for (auto *k : j->second) if (T.escapes(k)) { thr = true; by = k; break; } } if (!thr && c && T.escapes(c)) { thr = true; by = c; } }
      if (!thr) continue; R.count(r, "throwing calls"); auto ch = by ? T.chain(by) : std::vector<std::string>{};
      if (auto *II = dyn_cast<InvokeInst>(CB)) { if (T.terminates(II->getLandingPadInst()->getParent())) { R.add(r, &I, enclosingName(&F), "failure ends the program", "an error thrown at " + (ch.empty() ? locStr(&I) : ch.back()) + " ends the program: " + enclosingName(&F) + " does not let it out", ch); continue; } }
      else if (F.doesNotThrow()) { R.add(r, &I, enclosingName(&F), "failure ends the program", "an error thrown at " + (ch.empty() ? locStr(&I) : ch.back()) + " ends the program: " + enclosingName(&F) + " does not let it out", ch); continue; } }
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *k = endsProcess(CB)) R.add(r, &I, enclosingName(&F), "ends the program", "ends the program (" + std::string(k) + ") instead of raising an error");
    if (auto *sw = T.swallows(&F)) R.add(r, cast<Instruction>(sw), enclosingName(&F), "failure lost", "the handler around this call drops an error raised by the library"); }
}
// for every argument of a library function: a write through it that a later library exception leaves behind
static void emitExc(Prog &P, Effects &E, Report &R) {
  Thrower T{P, E}; json::Array out;
  // pointer that comes from argument a, not from a local container (which may hold memory of the argument after a move)
  auto from = [](const Value *v, int a) { std::set<const Value *> seen; std::vector<const Value *> st{v};
    while (!st.empty()) { auto *x = st.back(); st.pop_back(); if (!seen.insert(x).second || seen.size() > 200) continue;
      if (auto *g = dyn_cast<Argument>(x)) { if ((int)g->getArgNo() == a) return true; continue; }
      if (auto *l = dyn_cast<LoadInst>(x)) { st.push_back(l->getPointerOperand()); continue; }
      if (auto *c = dyn_cast<CallBase>(x)) { for (auto &o : c->args()) if (o->getType()->isPointerTy()) st.push_back(o); continue; }
      if (isa<AllocaInst>(x)) { // a closure that holds the address itself
        std::vector<const Value *> us{x}; for (size_t q = 0; q < us.size() && q < 50; q++) for (auto *u : us[q]->users()) { if (isa<GetElementPtrInst>(u)) us.push_back(u); else if (auto *s = dyn_cast<StoreInst>(u); s && s->getPointerOperand() == us[q] && s->getValueOperand()->getType()->isPointerTy()) { auto *v = s->getValueOperand()->stripInBoundsOffsets(); if (auto *g = dyn_cast<Argument>(v); g && (int)g->getArgNo() == a) return true; } }
        continue; }
      if (auto *i = dyn_cast<Instruction>(x)) for (auto &o : i->operands()) if (o->getType()->isPointerTy()) st.push_back(o); }
    return false; };
  auto direct = [&](const Instruction *I, int a) { if (auto *s = dyn_cast<StoreInst>(I)) return from(s->getPointerOperand(), a); if (auto *m = dyn_cast<MemIntrinsic>(I)) return from(m->getRawDest(), a);
    if (auto *c = dyn_cast<CallBase>(I)) { std::set<unsigned> wr; bool known = false; auto f = E.callees.find(I->getFunction()); std::set<const Function *> cs; if (f != E.callees.end()) if (auto j = f->second.find(I); j != f->second.end()) cs = j->second; if (auto *g = c->getCalledFunction()) cs.insert(g);
      for (auto *g : cs) if (!g->isDeclaration()) { known = true; for (auto &[e, w] : E.sum[g].writes) if (E.objs[e.obj].rootK == OK::Arg) wr.insert(E.objs[e.obj].root); }
      for (unsigned k = 0; k < c->arg_size(); k++) if (c->getArgOperand(k)->getType()->isPointerTy() && (!known || wr.count(k)) && from(c->getArgOperand(k), a)) return true; return false; } return true; };
  for (auto &F : *P.M) { if (F.isDeclaration() || !isGbs(&F) || isDrv(&F)) continue;
    std::set<const Instruction *> thr; std::map<const Instruction *, const Function *> by;
    for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; auto *c = CB->getCalledFunction();
      if (c && c->getName() == "__cxa_throw") { thr.insert(&I); continue; }
      auto f = E.callees.find(&F); if (f != E.callees.end()) { auto j = f->second.find(&I); if (j != f->second.end()) for (auto *k : j->second) if (T.escapes(k)) { thr.insert(&I); by[&I] = k; break; } }
      if (c && !thr.count(&I) && T.escapes(c)) { thr.insert(&I); by[&I] = c; } }
    // caught and thrown again by a handler that writes the object: the handler restores it
    for (auto it = thr.begin(); it != thr.end();) { bool restored = false; if (auto *II = dyn_cast<InvokeInst>(*it)) { auto *lp = II->getLandingPadInst(); bool all = false; for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k) && isa<ConstantPointerNull>(lp->getClause(k))) all = true;
        if (all) { std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> stk{lp->getParent()}; bool again = false, wr = false; while (!stk.empty()) { auto *b = stk.back(); stk.pop_back(); if (!seen.insert(b).second) continue; for (auto &J : *b) { if (auto *k = dyn_cast<CallBase>(&J)) if (auto *g = k->getCalledFunction(); g && g->getName() == "__cxa_rethrow") again = true; for (auto &[a, is] : E.argWrites[&F]) if (is.count(&J)) wr = true; } for (auto *q : successors(b)) stk.push_back(q); } restored = again && wr; } }
      it = restored ? thr.erase(it) : std::next(it); }
    json::Array ws; auto &aw = E.argWrites[&F];
    for (auto &[a, is] : aw) { bool done = false;
      for (auto *I : is) { if (done) break; if (!direct(I, a)) continue; std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> stk; const Instruction *hit = nullptr;
        if (auto *II = dyn_cast<InvokeInst>(I)) stk.push_back(II->getNormalDest());
        else { for (auto *J = I->getNextNode(); J && !hit; J = J->getNextNode()) if (thr.count(J)) hit = J; if (!hit) { if (auto *II = dyn_cast<InvokeInst>(I->getParent()->getTerminator())) stk.push_back(II->getNormalDest()); else for (auto *q : successors(I->getParent())) stk.push_back(q); } }
        while (!stk.empty() && !hit) { auto *b = stk.back(); stk.pop_back(); if (!seen.insert(b).second) continue; for (auto &J : *b) if (thr.count(&J)) { hit = &J; break; } if (auto *II = dyn_cast<InvokeInst>(b->getTerminator())) stk.push_back(II->getNormalDest()); else for (auto *q : successors(b)) stk.push_back(q); }
        if (!hit) continue; done = true; json::Array ch; if (by.count(hit)) for (auto &c : T.chain(by[hit])) ch.push_back(c);
        ws.push_back(json::Object{{"arg", a}, {"write", locStr(I)}, {"throw", locStr(hit)}, {"chain", std::move(ch)}}); } }
    out.push_back(json::Object{{"name", shortName(&F)}, {"dem", demangled(&F)}, {"loc", fnLoc(&F)}, {"nargs", (int64_t)F.arg_size()}, {"sret", F.arg_size() && F.getArg(0)->hasStructRetAttr()}, {"throws", (int64_t)thr.size()}, {"left", std::move(ws)}}); }
  R.extra["exc"] = std::move(out);
}
// write sets of every library function, for the rules evaluated outside
static void emitMod(Prog &P, Effects &E, Report &R) {
  json::Array out;
  for (auto &F : *P.M) {
    if (F.isDeclaration() || !isGbs(&F) || isDrv(&F)) continue;
    json::Array ws; std::set<std::string> seen;
    for (auto &[e, w] : E.sum[&F].writes) {
      auto &o = E.objs[e.obj];
      if (o.rootK != OK::Arg && o.rootK != OK::Global) continue;
      // a field of the argument at an unknown offset: a copied closure or the like, which field is not known
      { int q = e.obj; while (E.objs[q].k == OK::Deref && E.objs[E.objs[q].parent].k == OK::Deref) q = E.objs[q].parent; if (E.objs[q].k == OK::Deref && E.objs[q].offAny) { R.count("MOD", "vague"); continue; } }
      std::string key = std::to_string((int)o.rootK) + ":" + std::to_string(o.rootK == OK::Arg ? o.root : 0) + ":" + (o.rootK == OK::Global ? o.v->getName().str() : "") + ":" + std::to_string(o.depth > 0);
      if (!seen.insert(key).second) continue;
      const Function *in = nullptr; auto *I = E.origin(&F, e, &in); json::Array ch; for (auto &c : E.chain(&F, e)) ch.push_back(c);
      ws.push_back(json::Object{{"arg", o.rootK == OK::Arg ? o.root : -1}, {"glob", o.rootK == OK::Global ? llvm::demangle(o.v->getName()) : ""}, {"depth", o.depth}, {"loc", locStr(I)}, {"in", in ? shortName(in) : ""}, {"chain", std::move(ch)}});
    }
    json::Array at; for (auto &a : F.args()) at.push_back(a.hasByValAttr() ? "byval" : a.hasStructRetAttr() ? "sret" : a.getType()->isPointerTy() ? "ptr" : a.getType()->isDoubleTy() ? "double" : "x");
    out.push_back(json::Object{{"name", shortName(&F)}, {"dem", demangled(&F)}, {"loc", fnLoc(&F)}, {"nargs", (int64_t)F.arg_size()}, {"sret", F.arg_size() && F.getArg(0)->hasStructRetAttr()}, {"args", std::move(at)}, {"writes", std::move(ws)}});
  }
  R.extra["mods"] = std::move(out);
}
static const char *PIPE_STD = "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),globaldce";
int main(int argc, char **argv) {
  std::string mode = argv[1]; std::vector<std::string> files(argv + 2, argv + argc); bool verbose = getenv("GBSA_V");
  auto t0 = std::chrono::steady_clock::now(); auto tick = [&](const char *s) { if (verbose) errs() << s << " " << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "s\n"; };
  auto has = [&](const char *m) { return ("," + mode + ",").find(std::string(",") + m + ",") != std::string::npos; };
  Report R;
  if (has("json")) { Prog P; P.load(files); P.runPasses("function(sroa,early-cse,simplifycfg)"); ruleJson(P, R); }
  if (has("num")) { Prog P; P.load(files); P.runPasses("function(sroa,early-cse,simplifycfg)"); ruleNum(P, R); }
  if (has("init")) { Prog P; P.load(files); P.indexVTables(); ruleInit(P, R); }
  if (has("term")) { Prog P; P.load(files); P.prepareB(); ruleTerm(P, R); }
  if (has("live")) { Prog P; P.load(files); P.prepare([](Function &F) { return isGbs(&F) || isDrv(&F) || isParEntry(&F) || F.getName().contains("_Sp_counted_base"); }, "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,dse,adce),globaldce"); ruleLive(P, R); }
  if (has("par") || has("const") || has("mod") || has("exc") || has("det") || has("thr")) {
    Prog P; P.load(files); tick("load");
    P.prepare([](Function &F) { return isGbs(&F) || isDrv(&F) || isParEntry(&F) || F.getName().contains("_Sp_counted_base"); }, PIPE_STD); tick("prep");
    Effects E(P); E.run(); tick("effects");
    if (has("par")) rulePar(P, E, R);
    if (has("const")) ruleConst(P, E, R);
    if (has("exc")) emitExc(P, E, R);
    if (has("mod")) emitMod(P, E, R);
    if (has("det")) ruleDet(P, E, R);
    if (has("thr")) { ruleParThrow(P, E, R); ruleFail(P, E, R); }
    if (auto *df = getenv("GBSA_DUMP")) for (auto &F : *P.M) if (!F.isDeclaration() && demangled(&F).find(df) != std::string::npos) { // debugging aid
      errs() << demangled(&F).substr(0, 200) << "\n";
      for (auto &[k, pt] : E.sum[&F].stores) { errs() << "  store " << E.objStr(k.first) << E.offStr(k.second) << " <-"; for (auto &x : pt) errs() << " " << E.objStr(x.first) << E.offStr(x.second); errs() << "\n"; }
      for (auto &[e, w] : E.sum[&F].writes) errs() << "  write " << E.objStr(e.obj) << E.offStr(e.off) << " at " << locStr(E.origin(&F, e)) << "\n";
      errs() << "  ret"; for (auto &x : E.sum[&F].ret) errs() << " " << E.objStr(x.first) << E.offStr(x.second); errs() << "\n"; }
    for (auto &F : *P.M) if (!F.isDeclaration()) R.count("ALL", "functions");
    R.count("ALL", "unresolved_indirect_calls", E.unresolved.size());
  }
  if (has("facts")) {
    Prog P; P.load(files); P.prepareB(); tick("prep"); Ctx C(P);
    const char *f = getenv("GBSA_F");
    for (auto &F : *P.M) { if (F.isDeclaration() || !isGbs(&F)) continue; std::string n = shortName(&F); if (f && n.find(f) == std::string::npos) continue; auto &fs = C.retFacts(&F); if (fs.empty()) continue; outs() << n << "   " << demangled(&F).substr(0,150) << "\n"; for (auto &x : fs) outs() << "      " << x.str() << "\n"; if (getenv("GBSA_G")) for (auto &g : C.guards(&F, 2)) { outs() << "      guard " << locStr(g.I) << (g.fp ? " fp" : "") << (g.loop ? " loop" : ""); for (auto &d : g.deps) outs() << " a" << d.arg << "+" << d.off << "^" << d.depth; outs() << "\n"; } }
    tick("facts"); return 0;
  }
  if (has("spec")) { Prog P; P.load(files); P.prepareB(); tick("prep"); if (auto *lf = getenv("GBSA_LL")) for (auto &F : *P.M) if (!F.isDeclaration() && F.getName().contains(lf)) F.print(errs()); Ctx C(P); factsJson(C, getenv("GBSA_SPEC") ? getenv("GBSA_SPEC") : ".", R.extra); tick("spec"); }
  R.print(outs());
}
