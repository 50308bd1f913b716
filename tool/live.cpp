// Argument liveness: which parameters of a library function can influence what the function returns, writes or throws.
#include "live.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/InstIterator.h"
#include <deque>
namespace {
bool releases(StringRef n) { // ends the life of an object, gives nothing to anybody
  return n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvmSt11align_val_t" || n == "free" || n == "__cxa_free_exception" || n == "__cxa_end_catch" || n == "__cxa_begin_catch" || n.contains("_M_release") || n.contains("D0Ev") || n.contains("D1Ev") || n.contains("D2Ev") || n.contains("_M_clear") || n.contains("_M_add_ref_copy"); }
struct Live {
  Prog &P; std::map<const Function *, std::vector<char>> live; std::map<const Function *, std::map<const BasicBlock *, std::vector<const Instruction *>>> cdep;
  std::map<const Instruction *, std::vector<Function *>> vt;
  static bool unusedCapture(const StoreInst *s) { return s->getMetadata("gbs.unused") != nullptr; } // see markCaptures
  const std::map<const BasicBlock *, std::vector<const Instruction *>> &control(const Function *F) {
    auto it = cdep.find(F); if (it != cdep.end()) return it->second; auto &m = cdep[F]; PostDominatorTree PD(const_cast<Function &>(*F));
    for (auto &B : *F) { auto *t = B.getTerminator(); if (t->getNumSuccessors() < 2) continue;
      for (auto *s : successors(&B)) { auto *n = PD.getNode(s); auto *stop = PD.getNode(&B) ? PD.getNode(&B)->getIDom() : nullptr; while (n && n != stop && n->getBlock()) { m[n->getBlock()].push_back(t); n = n->getIDom(); } } }
    return m; }
  std::vector<const Function *> callees(const CallBase *cb) {
    std::vector<const Function *> r; if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { r.push_back(f); return r; }
    auto it = vt.find(cb); if (it == vt.end()) { bool isV; it = vt.emplace(cb, P.virtualTargets(cb, isV)).first; } for (auto *f : it->second) r.push_back(f); return r; }
  bool liveArg(const CallBase *cb, unsigned i) { auto cs = callees(cb); if (cs.empty()) return true; for (auto *c : cs) { if (c->isDeclaration()) { if (!releases(c->getName()) && !c->getName().contains("llvm.lifetime") && !c->getName().contains("llvm.assume") && !c->getName().contains("type.test")) return true; continue; } if (i >= c->arg_size() || live[c][i]) return true; } return false; }
  bool run(Function &F) { // returns whether more arguments became live
    auto &L = live[&F]; std::set<const Value *> mark; std::deque<const Value *> wl; std::map<const Value *, std::vector<const Instruction *>> into; // writes into a local object
    auto push = [&](const Value *v) { if (!isa<Constant>(v) && !isa<BasicBlock>(v) && mark.insert(v).second) wl.push_back(v); };
    auto local = [&](const Value *p) -> const Value * { auto *u = getUnderlyingObject(p, 0); if (isa<AllocaInst>(u)) return u; if (auto *cb = dyn_cast<CallBase>(u)) if (auto *f = cb->getCalledFunction()) if (f->getName() == "_Znwm") return u; return nullptr; };
    for (auto &I : instructions(F)) {
      if (auto *s = dyn_cast<StoreInst>(&I)) { if (auto *o = local(s->getPointerOperand()); o && !s->isAtomic()) { if (!unusedCapture(s)) into[o].push_back(s); } else push(s); continue; }
      if (auto *m = dyn_cast<MemIntrinsic>(&I)) { if (auto *o = local(m->getRawDest())) into[o].push_back(m); else push(m); continue; }
      if (isa<ReturnInst>(I)) { if (I.getNumOperands()) push(&I); continue; }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { push(&I); continue; }
      if (auto *cb = dyn_cast<CallBase>(&I)) { auto cs = callees(cb); bool dead = !cs.empty(); for (auto *c : cs) if (!(c->isIntrinsic() && !c->getName().contains("mem")) && !releases(c->getName()) && c->getName() != "_Znwm") dead = false; if (!dead && !(cs.size() == 1 && cs[0]->isDeclaration() && cs[0]->doesNotAccessMemory())) {
          // a call whose only effect is on local objects waits for them
          push(&I); } }
    }
    while (!wl.empty()) { auto *v = wl.front(); wl.pop_front();
      if (isa<AllocaInst>(v) || (isa<CallBase>(v) && into.count(v))) for (auto *w : into[v]) push(w);
      if (auto *a = dyn_cast<Argument>(v)) { L[a->getArgNo()] |= 2; continue; }
      auto *I = dyn_cast<Instruction>(v); if (!I) continue;
      for (auto *t : [&]() -> const std::vector<const Instruction *> & { static const std::vector<const Instruction *> none; auto &m = control(&F); auto it = m.find(I->getParent()); return it == m.end() ? none : it->second; }()) { push(t); }
      if (I->isTerminator() && !isa<CallBase>(I)) { if (auto *br = dyn_cast<BranchInst>(I)) { if (br->isConditional()) push(br->getCondition()); } else for (auto &o : I->operands()) push(o); continue; }
      if (auto *cb = dyn_cast<CallBase>(I)) { push(cb->getCalledOperand()); for (unsigned i = 0; i < cb->arg_size(); i++) if (liveArg(cb, i)) push(cb->getArgOperand(i)); continue; }
      if (auto *ph = dyn_cast<PHINode>(I)) for (auto *b : ph->blocks()) push(b->getTerminator());
      for (auto &o : I->operands()) push(o); }
    bool ch = false; for (auto &l : L) if (l == 2) { l = 1; ch = true; } else if (l == 3) l = 1; return ch; }
};
}
void ruleLive(Prog &P, Report &R) {
  const char *r = "ARG-USED"; Live L{P}; std::vector<Function *> fs; for (auto &F : *P.M) if (!F.isDeclaration()) { fs.push_back(&F); L.live[&F].assign(F.arg_size(), 0); }
  for (bool ch = true; ch;) { ch = false; for (auto *F : fs) if (L.run(*F)) ch = true; }
  json::Array out;
  for (auto *F : fs) { if (!isGbs(F) || isDrv(F)) continue; json::Array dead; for (unsigned i = 0; i < F->arg_size(); i++) if (!L.live[F][i]) dead.push_back((int64_t)i);
    out.push_back(json::Object{{"name", shortName(F)}, {"dem", demangled(F)}, {"loc", fnLoc(F)}, {"nargs", (int64_t)F->arg_size()}, {"sret", F->arg_size() && F->getArg(0)->hasStructRetAttr()}, {"dead", std::move(dead)}}); }
  R.extra["live"] = std::move(out);
}
