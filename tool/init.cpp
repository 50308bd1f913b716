// Definite-assignment analysis: local objects and results of library functions that are read although, on some path from
// where they come into being, nothing can have written them.
#include "init.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
namespace {
struct Init {
  Prog &P; Report &R; std::map<const Function *, std::vector<char>> W, RU, RET; std::map<const CallBase *, std::vector<Function *>> vt;
  Init(Prog &p, Report &r) : P(p), R(r) {}
  using Objs = SmallVector<const Value *, 4>;
  struct Fn { DenseMap<const Value *, std::set<const Value *>> der; std::vector<const Value *> objs; };
  std::map<const Function *, Fn> fns;
  static bool leaf(Type *t, bool top, int depth = 0) { if (t->isFloatingPointTy()) return true; if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth() >= 16 || (top && i->getBitWidth() == 8); // i1: the compiler's own flags if (depth > 6) return false;
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() && leaf(a->getElementType(), false, depth + 1); if (auto *v = dyn_cast<FixedVectorType>(t)) return leaf(v->getElementType(), false, depth + 1);
    if (auto *s = dyn_cast<StructType>(t)) { if (s->isOpaque()) return false; for (auto *e : s->elements()) if (leaf(e, false, depth + 1)) return true; } return false; }
  std::vector<Function *> callees(const CallBase *cb) { if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) return {f}; auto it = vt.find(cb); if (it == vt.end()) { bool v; it = vt.emplace(cb, P.virtualTargets(cb, v)).first; } return it->second; }
  static bool harmless(const Function *f) { auto n = f->getName(); return startsWith(n, "llvm.lifetime") || startsWith(n, "llvm.dbg") || startsWith(n, "llvm.assume") || startsWith(n, "llvm.experimental.noalias"); }
  bool retDerived(const CallBase *cb, unsigned i) { for (auto *f : callees(cb)) { if (f->isDeclaration()) { auto n = f->getName(); if (startsWith(n, "llvm.launder") || startsWith(n, "llvm.strip.invariant") || startsWith(n, "llvm.ptr.annotation")) return true; continue; } auto it = RET.find(f); if (it != RET.end() && i < it->second.size() && it->second[i]) return true; } return false; }
  bool argWritten(const CallBase *cb, unsigned i) { if (cb->isByValArgument(i)) return false; auto cs = callees(cb); if (cs.empty()) return true;
    for (auto *f : cs) { if (harmless(f)) continue; if (f->isDeclaration() || i >= f->arg_size()) { if (cb->onlyReadsMemory(i) || startsWith(f->getName(), "llvm.launder")) continue; return true; } if (W[f][i]) return true; } return false; }
  bool argRead(const CallBase *cb, unsigned i) { if (cb->isByValArgument(i)) return true; for (auto *f : callees(cb)) { if (f->isDeclaration() || i >= f->arg_size()) continue; if (RU[f][i]) return true; } return false; }
  bool derive(const Function &F) { auto &fn = fns[&F]; bool any = false; auto add = [&](const Value *v, const Value *from) { auto it = fn.der.find(from); if (it == fn.der.end()) return; auto s = it->second; auto &d = fn.der[v]; size_t n = d.size(); d.insert(s.begin(), s.end()); any |= d.size() != n; };
    bool ch = true; while (ch) { any = false; for (auto &I : instructions(F)) { if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I) || isa<AddrSpaceCastInst>(I) || isa<FreezeInst>(I)) add(&I, I.getOperand(0)); else if (isa<PHINode>(I) || isa<SelectInst>(I)) { if (I.getType()->isPointerTy()) for (auto &o : I.operands()) add(&I, o); } else if (auto *cb = dyn_cast<CallBase>(&I); cb && I.getType()->isPointerTy()) for (unsigned i = 0; i < cb->arg_size(); i++) if (fn.der.count(cb->getArgOperand(i)) && retDerived(cb, i)) add(&I, cb->getArgOperand(i)); } ch = any; }
    return false; }
  // 1 = may read, 2 = may write (or escapes), per object
  template <class Fn2> void effects(const Function &F, const Instruction &I, Fn2 f) { auto &fn = fns[&F]; auto objs = [&](const Value *v) -> const std::set<const Value *> * { auto it = fn.der.find(v); return it == fn.der.end() ? nullptr : &it->second; };
    auto all = [&](const Value *v, int k) { if (auto *o = objs(v)) for (auto *x : *o) f(x, k); };
    if (auto *l = dyn_cast<LoadInst>(&I)) { all(l->getPointerOperand(), 1); return; }
    if (auto *s = dyn_cast<StoreInst>(&I)) { all(s->getValueOperand(), 2); all(s->getPointerOperand(), 2); return; }
    if (auto *m = dyn_cast<MemTransferInst>(&I)) { all(m->getRawSource(), 1); all(m->getRawDest(), 2); return; }
    if (auto *m = dyn_cast<MemIntrinsic>(&I)) { all(m->getRawDest(), 2); return; }
    if (auto *cb = dyn_cast<CallBase>(&I)) { if (auto *f2 = cb->getCalledFunction(); f2 && harmless(f2)) return; for (unsigned i = 0; i < cb->arg_size(); i++) { auto *o = objs(cb->getArgOperand(i)); if (!o) continue; bool r = argRead(cb, i), w = argWritten(cb, i); for (auto *x : *o) { if (r) f(x, 1); if (w) f(x, 2); } } return; }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { for (auto &o : I.operands()) all(o, 2); return; }
    if (isa<InsertValueInst>(I) || isa<PtrToIntInst>(I) || isa<InsertElementInst>(I)) { for (auto &o : I.operands()) all(o, 2); return; } }
  void seed(Function &F) { auto &fn = fns[&F]; fn.der.clear(); fn.objs.clear(); for (auto &a : F.args()) if (a.getType()->isPointerTy()) { fn.der[&a].insert(&a); fn.objs.push_back(&a); } for (auto &I : instructions(F)) if (auto *a = dyn_cast<AllocaInst>(&I)) if (leaf(a->getAllocatedType(), true)) { fn.der[a].insert(a); fn.objs.push_back(a); } }
  // text of a condition over values that do not change in the function; empty when it may change
  static std::string text(const Value *v, int depth = 0) { if (depth > 8) return ""; if (auto *c = dyn_cast<ConstantInt>(v)) return std::to_string(c->getSExtValue()); if (isa<Argument>(v)) return "a" + std::to_string(cast<Argument>(v)->getArgNo());
    if (auto *l = dyn_cast<LoadInst>(v)) { auto *a = dyn_cast<AllocaInst>(l->getPointerOperand()); if (!a || l->isVolatile()) return ""; const StoreInst *st = nullptr; for (auto *u : a->users()) { if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getValueOperand() == a || st) return ""; st = s; } else if (isa<LoadInst>(u)) ; else if (auto *cb = dyn_cast<CallBase>(u); cb && cb->getCalledFunction() && harmless(cb->getCalledFunction())) ; else return ""; }
      if (!st) return ""; return "v" + std::to_string((uintptr_t)a); }
    auto *I = dyn_cast<Instruction>(v); if (!I) return ""; if (isa<CastInst>(I)) return text(I->getOperand(0), depth + 1);
    if (isa<CmpInst>(I) || isa<BinaryOperator>(I)) { auto a = text(I->getOperand(0), depth + 1), b = text(I->getOperand(1), depth + 1); if (a.empty() || b.empty()) return ""; unsigned pr = 0; if (auto *c = dyn_cast<CmpInst>(I)) pr = c->getPredicate(); return "(" + a + " " + I->getOpcodeName() + std::to_string(pr) + " " + b + ")"; }
    return ""; }
  using Known = std::map<std::string, bool>;
  static Known knownAt(Function &F, const BasicBlock *B) { Known k; DominatorTree DT(F); for (auto &X : F) { auto *br = dyn_cast<BranchInst>(X.getTerminator()); if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) continue; for (int i = 0; i < 2; i++) if (DT.dominates(BasicBlockEdge(&X, br->getSuccessor(i)), B)) { auto t = text(br->getCondition()); if (t.size()) k[t] = i == 0; } } return k; }
  struct Use { const Instruction *I; const Value *obj; };
  std::vector<Use> flow(Function &F, const Known *kn = nullptr) { // reads of objects that may not have been written
    auto &fn = fns[&F]; std::vector<Use> out; if (fn.objs.empty()) return out; std::map<const Value *, unsigned> id; for (auto *o : fn.objs) id.emplace(o, id.size()); size_t n = id.size();
    struct Ev { unsigned o; int k; const Instruction *I; }; std::map<const BasicBlock *, std::vector<Ev>> ev; // 1 read, 2 kill, 3 gen
    for (auto &B : F) for (auto &I : B) { std::vector<Ev> e; effects(F, I, [&](const Value *o, int k) { auto it = id.find(o); if (it != id.end()) e.push_back({it->second, k, &I}); }); std::stable_sort(e.begin(), e.end(), [](auto &a, auto &b) { return a.k < b.k; });
        if (auto *II = dyn_cast<IntrinsicInst>(&I); II && II->getIntrinsicID() == Intrinsic::lifetime_start) { auto it = id.find(II->getArgOperand(1)->stripPointerCasts()); if (it != id.end()) e.push_back({it->second, 3, &I}); }
        if (auto *r = dyn_cast<ReturnInst>(&I)) for (auto &a : F.args()) if (a.hasStructRetAttr() && leaf(a.getParamStructRetType(), true)) e.push_back({id[&a], 1, r});
        auto &b = ev[&B]; b.insert(b.end(), e.begin(), e.end()); }
    DominatorTree DT(F); LoopInfo LI(DT); std::map<const Loop *, BitVector> lk; for (auto *L : LI.getLoopsInPreorder()) { BitVector v(n); for (auto *B : L->blocks()) for (auto &e : ev[B]) if (e.k == 2) v.set(e.o); lk[L] = v; }
    // an array that a loop fills element by element may be read in that loop: earlier elements; updates in place do not fill
    std::map<const Loop *, BitVector> hk; for (auto *L : LI.getLoopsInPreorder()) { BitVector v(n); for (auto *B : L->blocks()) for (auto &e : ev[B]) if (e.k == 2 && !v.test(e.o)) { auto *al = dyn_cast<AllocaInst>(fn.objs[e.o]); if (al && !al->getAllocatedType()->isArrayTy() && !al->getAllocatedType()->isStructTy()) continue; bool upd = false; for (auto &x : ev[B]) upd |= x.I == e.I && x.o == e.o && x.k == 1; if (auto *st = dyn_cast<StoreInst>(e.I)) for (auto *u : st->getPointerOperand()->users()) upd |= isa<LoadInst>(u); if (!upd) v.set(e.o); } hk[L] = v; }
    std::map<const BasicBlock *, BitVector> in; for (auto &B : F) in[&B] = BitVector(n); in[&F.getEntryBlock()].set(); std::deque<const BasicBlock *> wl{&F.getEntryBlock()}; std::set<const BasicBlock *> seen;
    while (!wl.empty()) { auto *B = wl.front(); wl.pop_front(); seen.insert(B); auto s = in[B]; for (auto &e : ev[B]) { if (e.k == 2) s.reset(e.o); else if (e.k == 3) s.set(e.o); }
      bool kd = false, kv = false; if (kn) if (auto *br = dyn_cast<BranchInst>(B->getTerminator()); br && br->isConditional()) { auto tx = text(br->getCondition()); auto it = tx.empty() ? kn->end() : kn->find(tx); if (it != kn->end()) { kd = true; kv = it->second; } }
      for (auto *S : successors(B)) { if (kd && S != cast<BranchInst>(B->getTerminator())->getSuccessor(kv ? 0 : 1)) continue; auto t = s; for (auto *L = LI.getLoopFor(B); L && !L->contains(S); L = L->getParentLoop()) t.reset(lk[L]); for (auto *L = LI.getLoopFor(S); L && !L->contains(B); L = L->getParentLoop()) t.reset(hk[L]); auto &d = in[S]; auto old = d; d |= t; if (d != old || !seen.count(S)) wl.push_back(S); } }
    for (auto &B : F) { if (!seen.count(&B)) continue; auto s = in[&B]; for (auto &e : ev[&B]) { if (e.k == 2) s.reset(e.o); else if (e.k == 3) s.set(e.o); else if (s.test(e.o)) out.push_back({e.I, fn.objs[e.o]}); } }
    return out; }
  void run() {
    std::vector<Function *> fs; for (auto &F : *P.M) if (!F.isDeclaration()) { fs.push_back(&F); DominatorTree DT(F); std::vector<AllocaInst *> as; for (auto &I : F.getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&I); a && a->getAllocatedType()->isPointerTy() && isAllocaPromotable(a)) as.push_back(a); if (!as.empty()) PromoteMemToReg(as, DT); W[&F].assign(F.arg_size(), 0); RU[&F] = RET[&F] = W[&F]; seed(F); }
    for (bool ch = true; ch;) { ch = false; for (auto *F : fs) { derive(*F); auto &fn = fns[F]; auto &w = W[F], &r = RET[F];
        for (auto &I : instructions(*F)) { effects(*F, I, [&](const Value *o, int k) { if (k == 2) if (auto *a = dyn_cast<Argument>(o); a && !w[a->getArgNo()]) { w[a->getArgNo()] = 1; ch = true; } });
          if (auto *rt = dyn_cast<ReturnInst>(&I); rt && rt->getReturnValue()) { auto it = fn.der.find(rt->getReturnValue()); if (it != fn.der.end()) for (auto *o : it->second) if (auto *a = dyn_cast<Argument>(o); a && !r[a->getArgNo()]) { r[a->getArgNo()] = 1; ch = true; } } } } }
    std::map<const Function *, std::vector<Use>> res;
    for (bool ch = true; ch;) { ch = false; for (auto *F : fs) { auto &u = res[F] = flow(*F); auto &ru = RU[F];
        for (size_t i = 0; i < u.size();) { auto k = knownAt(*F, u[i].I->getParent()); bool keep = true; if (k.size()) { keep = false; for (auto &x : flow(*F, &k)) if (x.I == u[i].I && x.obj == u[i].obj) keep = true; } if (keep) i++; else u.erase(u.begin() + i); } for (auto &x : u) if (auto *a = dyn_cast<Argument>(x.obj); a && !a->hasStructRetAttr() && !ru[a->getArgNo()]) { ru[a->getArgNo()] = 1; ch = true; } } }
    for (auto *F : fs) { if (!isGbs(F)) continue; R.item("UNSET", "functions", enclosingName(F)); for (auto *o : fns[F].objs) if (isa<AllocaInst>(o)) R.count("UNSET", "local objects"); else if (cast<Argument>(o)->hasStructRetAttr()) R.count("UNSET", "results");
      for (auto &x : res[F]) { auto *a = dyn_cast<Argument>(x.obj); if (a && !a->hasStructRetAttr()) continue; Loc l = repoLoc(x.I); if (l.file.empty() || l.file[0] == '/') continue;
        if (getenv("GBSA_V")) { x.I->print(errs()); errs() << " obj "; x.obj->print(errs()); errs() << "\n"; }
        R.add("UNSET", x.I, enclosingName(F), a ? "result" : "local", a ? "on some path the result is returned without having been set" : "a local object is read that nothing has set on some path to here"); } } } };
}
void ruleInit(Prog &P, Report &R) { Init(P, R).run(); }
