// Reading of JSON values: every accessor that presumes the kind of a value (or a size) is reached only behind a test that rejects the others.
#include "jsonacc.h"
#include "llvm/Analysis/ValueTracking.h"
namespace {
const char *ACC[] = {"GetInt", "GetUint", "GetInt64", "GetUint64", "GetDouble", "GetFloat", "GetBool", "GetString", "GetStringLength", "GetArray", "GetObject", "Size", "Begin", "End", "Empty", "Capacity", "operator[]", "FindMember", "HasMember", "MemberBegin", "MemberEnd", "MemberCount", "MemberCapacity"};
std::string member(const Function *F) { // X of rapidjson::GenericValue<...>::X
  const std::string &d = demangled(F); size_t q = d.find("rapidjson::GenericValue<"); // a leading return type may name the class as well: take the qualifier of the function
  for (; q != std::string::npos; q = d.find("rapidjson::GenericValue<", q + 1)) { size_t i = q + 24; int n = 1; while (n && i < d.size()) { n += (d[i] == '<') - (d[i] == '>'); i++; }
    if (d.compare(i, 2, "::")) continue; i += 2; size_t e = i; while (e < d.size() && (isalnum(d[e]) || d[e] == '_')) e++; std::string m = d.substr(i, e - i);
    if (m == "operator") { if (d.compare(e, 2, "[]") == 0) return "operator[]"; return m; } return m; }
  return ""; }
bool rapid(const Function *F) { return F && F->getName().contains("9rapidjson"); }
struct Json {
  std::map<const Function *, int> ok; std::map<const BasicBlock *, int> dead;
  bool returns(const BasicBlock *b) { // a normal return can be reached from b
    auto it = dead.find(b); if (it != dead.end()) return it->second != 1; std::set<const BasicBlock *> s; std::vector<const BasicBlock *> w{b}; bool r = false;
    while (!w.empty() && !r) { auto *x = w.back(); w.pop_back(); if (!s.insert(x).second) continue; if (isa<ReturnInst>(x->getTerminator())) r = true; if (auto *iv = dyn_cast<InvokeInst>(x->getTerminator())) w.push_back(iv->getNormalDest()); else for (auto *q : successors(x)) w.push_back(q); }
    dead[b] = r ? 2 : 1; return r; }
  bool dependsOn(const Value *v, const Value *on, std::set<const Value *> &seen) {
    if (v == on) return true; if (!seen.insert(v).second) return false; auto *I = dyn_cast<Instruction>(v); if (!I) return false;
    if (auto *a = dyn_cast<AllocaInst>(I)) { for (auto *u : a->users()) if (auto *s = dyn_cast<StoreInst>(u); s && s->getPointerOperand() == a && dependsOn(s->getValueOperand(), on, seen)) return true; else if (auto *cb = dyn_cast<CallBase>(u)) for (auto &o : cb->args()) if (o.get() != a && dependsOn(o.get(), on, seen)) return true; return false; }
    if (auto *p = dyn_cast<PHINode>(I)) for (auto *b : p->blocks()) if (auto *br = dyn_cast<BranchInst>(b->getTerminator()); br && br->isConditional() && dependsOn(br->getCondition(), on, seen)) return true;
    for (auto &o : I->operands()) if (!isa<BasicBlock>(o.get()) && !isa<Function>(o.get()) && dependsOn(o.get(), on, seen)) return true; return false; }
  // a branch on the object that, one way, never comes back
  bool rejects(const Function *F, const Value *obj) {
    for (auto &B : *F) { auto *br = dyn_cast<BranchInst>(B.getTerminator()); if (!br || !br->isConditional()) continue; if (returns(br->getSuccessor(0)) == returns(br->getSuccessor(1))) continue;
      std::set<const Value *> seen; if (dependsOn(br->getCondition(), obj, seen)) return true; }
    return false; }
  bool checks(const Function *F) { // the accessor itself refuses an unfit value
    auto it = ok.find(F); if (it != ok.end()) return it->second; ok[F] = 0; if (F->isDeclaration() || !F->arg_size()) return false;
    const Value *self = F->getArg(F->getArg(0)->hasStructRetAttr() ? 1 : 0); bool r = rejects(F, self);
    if (!r) for (auto &B : *F) { for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) { auto *g = cb->getCalledFunction(); if (!g || g == F || !isAcc(g) || !cb->arg_size()) continue; std::set<const Value *> s; unsigned k = g->getArg(0)->hasStructRetAttr() ? 1 : 0; if (k < cb->arg_size() && dependsOn(cb->getArgOperand(k), self, s) && checks(g)) r = true; } }
    return ok[F] = r; }
  static bool isAcc(const Function *F) { if (!rapid(F)) return false; auto m = member(F); for (auto *a : ACC) if (m == a) return true; return false; }
};
}
// ---- values of unknown number copied into an array of fixed size
namespace {
const Value *back(const Value *v, int d = 0) { // through copies of an iterator and local variables
  if (d > 12) return v;
  if (auto *a = dyn_cast<AllocaInst>(v)) { const Value *o = nullptr; int n = 0; for (auto *u : a->users()) if (auto *s = dyn_cast<StoreInst>(u); s && s->getPointerOperand() == a) { o = s->getValueOperand(); n++; } else if (auto *g = dyn_cast<GetElementPtrInst>(u)) { for (auto *w : g->users()) if (auto *s2 = dyn_cast<StoreInst>(w); s2 && s2->getPointerOperand() == g) { o = s2->getValueOperand(); n++; } } return n == 1 ? back(o, d + 1) : v; }
  if (auto *l = dyn_cast<LoadInst>(v)) { auto *p = l->getPointerOperand(); auto *r = back(p->stripInBoundsConstantOffsets(), d + 1); return r == p->stripInBoundsConstantOffsets() ? v : r; }
  if (auto *c = dyn_cast<CastInst>(v)) return back(c->getOperand(0), d + 1);
  return v; }
std::string lastName(const std::string &d) { size_t n = 0; int dep = 0; for (size_t i = d.size(); i-- > 0;) { if (d[i] == ')' || d[i] == '>') dep++; else if (d[i] == '(' || d[i] == '<') dep--; if (dep == 0 && d[i] == '(' ) { n = i; break; } } size_t e = n; std::string s = d.substr(0, e); while (!s.empty() && s.back() == '>') { int q = 0; size_t k = s.size(); while (k-- > 0) { q += (s[k] == '>') - (s[k] == '<'); if (!q) break; } s.resize(k); } size_t b = s.size(); while (b > 0 && (isalnum(s[b - 1]) || s[b - 1] == '_')) b--; return s.substr(b); }
long arrayOf(const CallBase *cb) { // N of std::array<T, N>::begin / data
  auto *f = cb->getCalledFunction(); if (!f) return -1; StringRef n = f->getName(); if (!n.contains("St5arrayI")) return -1; auto &d = demangled(f); auto l = lastName(d); if (l != "begin" && l != "data") return -1;
  auto p = d.rfind("ul>::" + l); if (p == std::string::npos) return -1; size_t b = p; while (b > 0 && isdigit(d[b - 1])) b--; return b < p ? std::stol(d.substr(b, p - b)) : -1; }
const CallBase *beginCall(const Value *v) { auto *r = back(v); auto *cb = dyn_cast<CallBase>(r); if (!cb) return nullptr; auto *f = cb->getCalledFunction(); if (!f) return nullptr; auto l = lastName(demangled(f)); return l == "begin" || l == "data" || l == "Begin" || l == "cbegin" ? cb : nullptr; }
}
static void fixedFit(Prog &P, Report &R, Json &J) {
  const char *r = "JSON-FIT";
  for (auto &G : *P.M) { if (G.isDeclaration() || !isGbs(&G) || isDrv(&G) || G.getName().contains("operator")) continue; auto loc = fnLoc(&G); if (loc.find("gbs-io/") == std::string::npos) continue; DominatorTree DT(G);
    for (auto &B : G) for (auto &I : B) { auto *cb = dyn_cast<CallBase>(&I); if (!cb) continue; auto *H = cb->getCalledFunction(); if (!H || !H->getName().starts_with("_ZSt") || cb->arg_size() < 3) continue;
      auto nm = lastName(demangled(H)); if (nm != "transform" && nm != "copy" && nm != "move" && nm != "copy_if" && nm != "inclusive_scan" && nm != "partial_sum") continue;
      auto *src = beginCall(cb->getArgOperand(0)); long N = -1; for (unsigned k = 2; k < cb->arg_size(); k++) if (auto *o = beginCall(cb->getArgOperand(k))) { N = arrayOf(o); if (N >= 0) break; }
      if (N < 0 || !src) continue; if (arrayOf(src) >= 0) { if (arrayOf(src) <= N) continue; }
      const Value *obj = src->arg_size() ? src->getArgOperand(0) : nullptr; if (!obj) continue; R.item(r, "copies", locStr(&I)); long lo = 0, hi = -1; bool helper = false;
      for (auto &QB : G) { if (!DT.dominates(&QB, &B)) continue;
        for (auto &QI : QB) if (auto *c2 = dyn_cast<CallBase>(&QI); c2 && c2 != cb && DT.dominates(&QI, &I)) { auto *g = c2->getCalledFunction(); if (!g || !isGbs(g) || g->isDeclaration()) continue; bool uses = false; for (auto &a : c2->args()) uses |= a.get() == obj; if (!uses) continue; bool thr = false; for (auto &x : *g) if (!J.returns(&x)) thr = true; auto cn = lastName(demangled(g)); if (thr && !g->getReturnType()->isVoidTy() == false) helper |= g->getReturnType()->isVoidTy() && cn != "split"; }
        auto *br = dyn_cast<BranchInst>(QB.getTerminator()); if (!br || !br->isConditional()) continue; bool r0 = J.returns(br->getSuccessor(0)), r1 = J.returns(br->getSuccessor(1)); if (r0 == r1) continue;
        auto *ic = dyn_cast<ICmpInst>(br->getCondition()); if (!ic) { std::set<const Value *> s; if (J.dependsOn(br->getCondition(), obj, s) && isa<CallBase>(br->getCondition())) { auto *g = cast<CallBase>(br->getCondition())->getCalledFunction(); if (g && isGbs(g)) helper = true; } continue; }
        auto strip = [](const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; }; auto *a = strip(ic->getOperand(0)), *b = strip(ic->getOperand(1)); auto pr = ic->getPredicate();
        if (isa<ConstantInt>(a)) { std::swap(a, b); pr = ICmpInst::getSwappedPredicate(pr); } auto *k = dyn_cast<ConstantInt>(b); auto *sc = dyn_cast<CallBase>(a); if (!k || !sc || !sc->getCalledFunction()) continue;
        auto sn = lastName(demangled(sc->getCalledFunction())); if (sn != "size" && sn != "Size" && sn != "distance") continue; std::set<const Value *> s; if (!J.dependsOn(sc, obj, s)) continue;
        if (!r0) pr = ICmpInst::getInversePredicate(pr); long c = k->getSExtValue();
        switch (pr) { case ICmpInst::ICMP_EQ: lo = std::max(lo, c); hi = hi < 0 ? c : std::min(hi, c); break; case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: hi = hi < 0 ? c - 1 : std::min(hi, c - 1); break; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: hi = hi < 0 ? c : std::min(hi, c); break;
          case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: lo = std::max(lo, c + 1); break; case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: lo = std::max(lo, c); break; case ICmpInst::ICMP_NE: if (c == 0) lo = std::max(lo, 1l); break; default: break; } }
      if (lo == N && hi == N) continue; if (helper) { R.count(r, "inconclusive"); continue; }
      R.add(r, &I, enclosingName(&G), "copy into " + std::to_string(N), "values read from outside are copied into an array of " + std::to_string(N) + " and nothing rejects another number of them"); } }
}
// ---- every normal return of a reader passes through the construction of its result
static void readerResult(Prog &P, Report &R) {
  const char *r = "JSON-RESULT"; static const std::set<std::string> readers = {"make_curve", "make_surface", "make_bscurve", "make_bssurface", "bscurve_direct", "bssurface_direct", "bscurve_interp", "bscurve_interp_cn"};
  for (auto &G : *P.M) { if (G.isDeclaration() || !isGbs(&G) || isDrv(&G)) continue; auto sn = shortName(&G); auto q = sn.rfind("::"); if (q == std::string::npos || !readers.count(sn.substr(q + 2)) || fnLoc(&G).find("gbs-io/") == std::string::npos) continue;
    R.item(r, "readers", demangled(&G).substr(0, 120)); std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{&G.getEntryBlock()}; const Instruction *hit = nullptr;
    auto builds = [&](const BasicBlock *b) { for (auto &I : *b) if (auto *cb = dyn_cast<CallBase>(&I)) { auto *f = cb->getCalledFunction(); if (!f) continue; if (f->getName().starts_with("_ZSt11make_shared")) return true; if (!isGbs(f)) continue; auto n = lastName(demangled(f)); auto m = StringRef(f->getName());
        if (m.contains("C2Ev") || m.contains("C1Ev") || m.contains("D2Ev") || m.contains("D1Ev")) continue; if (n.rfind("BSCurve", 0) == 0 || n.rfind("BSSurface", 0) == 0 || n == "interpolate" || n == "approx" || readers.count(n)) return true; } return false; };
    while (!w.empty() && !hit) { auto *b = w.back(); w.pop_back(); if (!seen.insert(b).second || builds(b)) continue; if (isa<ReturnInst>(b->getTerminator())) { hit = b->getTerminator(); break; } if (auto *iv = dyn_cast<InvokeInst>(b->getTerminator())) w.push_back(iv->getNormalDest()); else for (auto *s : successors(b)) w.push_back(s); }
    if (hit) R.add(r, hit, shortName(&G), "return without a result", "a path returns normally without having built the entity: content of an unknown kind is accepted"); }
}
// ---- a file is read only after a test that it could be opened; an error met while reading is not dropped
static void readerFiles(Prog &P, Report &R, Json &J) {
  const char *r = "JSON-FILE";
  for (auto &G : *P.M) { if (G.isDeclaration() || !isGbs(&G) || isDrv(&G) || fnLoc(&G).find("gbs-io/") == std::string::npos) continue; DominatorTree DT(G);
    for (auto &B : G) for (auto &I : B) { auto *cb = dyn_cast<CallBase>(&I); if (!cb) continue; auto *H = cb->getCalledFunction(); if (!H) continue;
      if (H->getName() == "__cxa_begin_catch") { R.item(r, "handlers", locStr(&I)); const BasicBlock *hit = nullptr; std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{&B}; while (!w.empty()) { auto *b = w.back(); w.pop_back(); if (!seen.insert(b).second) continue; if (isa<ReturnInst>(b->getTerminator())) hit = b; if (auto *iv = dyn_cast<InvokeInst>(b->getTerminator())) w.push_back(iv->getNormalDest()); else for (auto *q : successors(b)) w.push_back(q); }
        if (hit) R.add(r, &I, enclosingName(&G), "dropped error", "an error met while reading is caught and the reading goes on as if nothing had happened"); continue; }
      if (rapid(H) && lastName(demangled(H)).rfind("Parse", 0) == 0) { R.item(r, "parses", locStr(&I)); std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{&B}; const BasicBlock *hit = nullptr;
        auto tested = [&](const BasicBlock *b) { auto *br = dyn_cast<BranchInst>(b->getTerminator()); if (!br || !br->isConditional() || J.returns(br->getSuccessor(0)) == J.returns(br->getSuccessor(1))) return false; auto *c = br->getCondition(); std::vector<const Value *> q{c}; std::set<const Value *> sn; while (!q.empty()) { auto *v = q.back(); q.pop_back(); if (!sn.insert(v).second) continue; if (auto *cc = dyn_cast<CallBase>(v)) { if (auto *g = cc->getCalledFunction()) { auto l = lastName(demangled(g)); if (l == "HasParseError" || l == "GetParseError" || l == "IsError") return true; } } if (auto *in = dyn_cast<Instruction>(v)) for (auto &o : in->operands()) q.push_back(o.get()); } return false; };
        while (!w.empty()) { auto *b = w.back(); w.pop_back(); if (!seen.insert(b).second || tested(b)) continue; if (isa<ReturnInst>(b->getTerminator())) hit = b; if (auto *iv = dyn_cast<InvokeInst>(b->getTerminator())) w.push_back(iv->getNormalDest()); else for (auto *q : successors(b)) w.push_back(q); }
        if (hit) R.add(r, &I, enclosingName(&G), "parse error", "the result of parsing is used although nothing rejects a text that is not JSON"); continue; }
      if (!StringRef(demangled(H)).contains("basic_ifstream<")) continue; auto n = lastName(demangled(H)); if (n != "basic_ifstream" || !cb->arg_size()) continue; auto *obj = cb->getArgOperand(0); R.item(r, "streams", locStr(&I));
      for (auto *u : obj->users()) { std::vector<const CallBase *> uses; if (auto *c = dyn_cast<CallBase>(u)) uses.push_back(c); 
        for (auto *c : uses) { auto *g = c->getCalledFunction(); if (!g) continue; auto m = lastName(demangled(g)); if (m != "getline" && m != "rdbuf" && m != "read" && m != "get") continue; bool fine = false;
          for (auto &QB : G) { auto *br = dyn_cast<BranchInst>(QB.getTerminator()); if (!br || !br->isConditional() || !DT.dominates(&QB, c->getParent()) || &QB == c->getParent()) continue; if (J.returns(br->getSuccessor(0)) == J.returns(br->getSuccessor(1))) continue; std::set<const Value *> s; if (J.dependsOn(br->getCondition(), obj, s)) fine = true; }
          if (!fine) R.add(r, c, enclosingName(&G), "unopened file", "a file is read although nothing rejected a file that could not be opened"); } } } }
}
void ruleJson(Prog &P, Report &R) {
  const char *r = "JSON-KIND"; Json J;
  for (auto &G : *P.M) { if (G.isDeclaration() || !isGbs(&G) || isDrv(&G)) continue; DominatorTree DT(G);
    for (auto &B : G) for (auto &I : B) { auto *cb = dyn_cast<CallBase>(&I); if (!cb) continue; auto *H = cb->getCalledFunction(); if (!H || !rapid(H)) continue;
      // accessors reached through the JSON library itself
      std::set<const Function *> seen; std::vector<const Function *> w{H}; const Function *bad = nullptr; bool any = false;
      while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; if (Json::isAcc(x)) { any = true; if (!J.checks(x)) bad = x; continue; } if (x->isDeclaration() || member(x) == "AddMember" || member(x) == "PushBack" || !demangled(x).find("rapidjson::GenericDocument") ) continue;
        if (x == H && member(x) == "" && demangled(x).find("GenericArray") == std::string::npos && demangled(x).find("GenericObject") == std::string::npos) continue;
        for (auto &XB : *x) for (auto &XI : XB) if (auto *c2 = dyn_cast<CallBase>(&XI)) if (auto *g = c2->getCalledFunction(); g && rapid(g)) w.push_back(g); }
      if (!any) continue; R.item(r, "functions", shortName(&G)); R.count(r, "accesses"); R.item(r, "accesses", locStr(&I) + " " + (Json::isAcc(H) ? member(H) : shortName(H)));
      if (!bad) continue;
      // a test made by the caller before: a rejecting branch on the same value that dominates the access
      bool fine = false; const Value *obj = cb->arg_size() ? cb->getArgOperand(H->getArg(0)->hasStructRetAttr() && cb->arg_size() > 1 ? 1 : 0) : nullptr;
      if (obj) for (auto &QB : G) { auto *br = dyn_cast<BranchInst>(QB.getTerminator()); if (!br || !br->isConditional() || !DT.dominates(&QB, &B) || &QB == &B) continue; if (J.returns(br->getSuccessor(0)) == J.returns(br->getSuccessor(1))) continue;
        std::set<const Value *> s; if (J.dependsOn(br->getCondition(), obj, s)) fine = true; }
      if (!fine) R.add(r, &I, enclosingName(&G), "unchecked " + member(bad), "a JSON value is read with " + member(bad) + " and nothing on the way rejects a value of another kind or size"); } }
  fixedFit(P, R, J); readerResult(P, R); readerFiles(P, R, J);
}
