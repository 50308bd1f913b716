// Termination: every loop of the library has an exit test that is evaluated in every iteration and whose operands move towards it by a fixed step.
#include "term.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
namespace {
struct Cnt {
  Loop &L; DominatorTree &DT; LoopInfo &LI; const DataLayout &DL; std::string why;
  bool inv(const Value *v) const { return L.isLoopInvariant(v); }
  // loads whose address does not change; a store to it in the loop makes it vary
  bool invDeep(const Value *v, int d = 0) {
    if (inv(v)) return true; auto *I = dyn_cast<Instruction>(v); if (!I || d > 6) return false;
    if (auto *l = dyn_cast<LoadInst>(I)) { if (!invDeep(l->getPointerOperand(), d + 1)) return false; return !written(l->getPointerOperand()); }
    if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<CmpInst>(I) || isa<SelectInst>(I)) { for (auto &o : I->operands()) if (!invDeep(o, d + 1)) return false; return true; }
    if (auto *c = dyn_cast<CallBase>(I)) { auto *g = c->getCalledFunction(); // a question asked of the same object: size, end, ...
      if (!I->getType()->isIntegerTy() && !I->getType()->isPointerTy()) return false; if (g && isAllocationLike(g)) return false;
      for (auto &a : c->args()) { if (!invDeep(a, d + 1)) return false; if (a->getType()->isPointerTy() && grown(a)) return false; } return true; }
    return false; }
  static bool isAllocationLike(const Function *g) { auto n = g->getName(); return n.starts_with("_Znw") || n.starts_with("_Zna"); }
  static const Value *base(const Value *p) { for (int i = 0; i < 20; i++) { if (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand(); else if (auto *b = dyn_cast<BitCastOperator>(p)) p = b->getOperand(0); else break; } return p; }
  static bool sameAddr(const Value *a, const Value *b) { if (a == b) return true;
    auto *ga = dyn_cast<GEPOperator>(a), *gb = dyn_cast<GEPOperator>(b); if (ga && gb && ga->getNumOperands() == gb->getNumOperands()) { for (unsigned i = 0; i < ga->getNumOperands(); i++) { auto *x = ga->getOperand(i), *y = gb->getOperand(i); if (x == y || sameAddr(x, y)) continue; return false; } return true; }
    auto *la = dyn_cast<LoadInst>(a), *lb = dyn_cast<LoadInst>(b); return la && lb && sameAddr(la->getPointerOperand(), lb->getPointerOperand()); }
  static bool grower(const Function *g) { auto n = g->getName(); for (auto *s : {"push_back", "emplace", "6insert", "6resize", "_M_realloc", "_M_range_insert", "_M_fill_insert", "push_front", "_M_insert", "9_M_append", "_M_default_append"}) if (n.contains(s)) return true; return false; }
  bool grown(const Value *obj) { for (auto *B : L.blocks()) for (auto &I : *B) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = c->getCalledFunction(); g && grower(g) && c->arg_size() && base(c->getArgOperand(0)) == base(obj) && sameAddr(c->getArgOperand(0), obj) && !visitedOnly(c)) return true; return false; }
  bool written(const Value *p) {
    for (auto *B : L.blocks()) for (auto &I : *B) {
      if (auto *s = dyn_cast<StoreInst>(&I)) { if (sameAddr(s->getPointerOperand(), p)) return true; }
      else if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = c->getCalledFunction(); if (!g || !c->arg_size() || !c->getArgOperand(0)->getType()->isPointerTy()) continue;
        if (grower(g) && base(c->getArgOperand(0)) == base(p) && !visitedOnly(c)) { // the container whose end is read
          auto *a = c->getArgOperand(0); auto *q = p; for (int i = 0; i < 4; i++) { if (sameAddr(a, q)) return true; if (auto *ge = dyn_cast<GEPOperator>(q)) q = ge->getPointerOperand(); else break; } } } }
    return false; }
  // change of v over one iteration with respect to the header phi: set of constants; nullopt when unknown
  using Step = std::optional<std::pair<int64_t, int64_t>>; // min, max
  // a step given by the caller, after a test that it is not zero
  bool nonZero(const Value *n) { if (!inv(n)) return false; if (auto *c = dyn_cast<CastInst>(n)) return nonZero(c->getOperand(0));
    for (auto &B : *L.getHeader()->getParent()) if (auto *br = dyn_cast<BranchInst>(B.getTerminator()); br && br->isConditional()) if (auto *c = dyn_cast<ICmpInst>(br->getCondition()); c && c->getOperand(0) == n) if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1))) { auto p = c->getPredicate(); int nz = -1; if (k->isZero()) nz = p == CmpInst::ICMP_EQ ? 1 : p == CmpInst::ICMP_NE || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT ? 0 : -1; else if (k->isOne()) nz = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT ? 1 : p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE ? 0 : -1; if (nz >= 0 && DT.dominates(br->getSuccessor(nz), L.getHeader())) return true; }
    return false; }
  Step step(const Value *v, const PHINode *ph, std::set<const Value *> &seen, int d = 0) {
    if (v == ph) return std::make_pair<int64_t, int64_t>(0, 0); if (d > 40) return {};
    auto *I = dyn_cast<Instruction>(v); if (!I || !L.contains(I)) return {};
    auto add = [](Step a, int64_t c) { if (a) { a->first += c; a->second += c; } return a; };
    if (auto *b = dyn_cast<BinaryOperator>(I)) { for (int i = 0; i < 2; i++) if (auto *c = dyn_cast<ConstantInt>(b->getOperand(1 - i))) {
        if (b->getOpcode() == Instruction::Add) return add(step(b->getOperand(i), ph, seen, d + 1), c->getSExtValue());
        if (b->getOpcode() == Instruction::Sub && i == 0) return add(step(b->getOperand(0), ph, seen, d + 1), -c->getSExtValue());
        if ((b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::SDiv || b->getOpcode() == Instruction::UDiv || b->getOpcode() == Instruction::AShr) && i == 0) { auto s = step(b->getOperand(0), ph, seen, d + 1); if (s && s->first == 0 && s->second == 0) return std::make_pair<int64_t, int64_t>(-1, -1); return {}; } }
      if (b->getOpcode() == Instruction::Add) for (int i = 0; i < 2; i++) if (nonZero(b->getOperand(1 - i))) return add(step(b->getOperand(i), ph, seen, d + 1), 1);
      return {}; }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) { APInt o(64, 0); if (g->accumulateConstantOffset(DL, o)) return add(step(g->getPointerOperand(), ph, seen, d + 1), o.getSExtValue()); return {}; }
    if (auto *l = dyn_cast<LoadInst>(I)) { bool kept = false; for (auto *B : L.blocks()) for (auto &J : *B) if (auto *s = dyn_cast<StoreInst>(&J); s && sameAddr(s->getPointerOperand(), l->getPointerOperand())) { if (s->getValueOperand() != ph || B != L.getHeader()) return {}; kept = true; } if (kept) return std::make_pair<int64_t, int64_t>(0, 0); return {}; }
    if (auto *c = dyn_cast<CastInst>(I)) return step(c->getOperand(0), ph, seen, d + 1);
    auto merge = [](Step a, Step b) -> Step { if (!a || !b) return {}; return std::make_pair(std::min(a->first, b->first), std::max(a->second, b->second)); };
    if (auto *s = dyn_cast<SelectInst>(I)) return merge(step(s->getTrueValue(), ph, seen, d + 1), step(s->getFalseValue(), ph, seen, d + 1));
    if (auto *p = dyn_cast<PHINode>(I)) { // inner loop: the value may be advanced any number of times there
      if (!seen.insert(p).second) return std::make_pair<int64_t, int64_t>(0, 0); // relative to itself
      Step r; bool first = true; auto *IL = LI.getLoopFor(p->getParent()); bool hdr = IL && IL->getHeader() == p->getParent() && IL != &L;
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (hdr && IL->contains(p->getIncomingBlock(i))) continue; auto s = step(p->getIncomingValue(i), ph, seen, d + 1); if (!s) return {}; r = first ? s : merge(r, s); first = false; }
      if (hdr) for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (IL->contains(p->getIncomingBlock(i))) { std::set<const Value *> s2; auto s = stepIn(p->getIncomingValue(i), p, s2, IL); if (!s) return {}; if (s->first < 0) r->first = INT_MIN; if (s->second > 0) r->second = INT_MAX; }
      return r; }
    return {}; }
  Step stepIn(const Value *v, const PHINode *ph, std::set<const Value *> &seen, Loop *IL) { Cnt c{*IL, DT, LI, DL}; return c.step(v, ph, seen); }
  // direction in which v moves over one iteration: +1, -1, 0 unchanged; nullopt unknown
  std::optional<int> dir(const Value *v, int d = 0) {
    if (invDeep(v)) return 0; if (d > 8) return {};
    auto *I = dyn_cast<Instruction>(v); if (!I) return {};
    if (auto *p = dyn_cast<PHINode>(I)) { if (p->getParent() == L.getHeader()) { int64_t mn = INT64_MAX, mx = INT64_MIN;
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (L.contains(p->getIncomingBlock(i))) { std::set<const Value *> s; auto st = step(p->getIncomingValue(i), p, s); if (!st) return listWalk(p) ? std::optional<int>(1) : std::nullopt; mn = std::min(mn, st->first); mx = std::max(mx, st->second); }
        if (mn > 0) return 1; if (mx < 0) return -1; return {}; }
      return viaPhi(I); }
    if (auto *l = dyn_cast<LoadInst>(I)) { if (auto *p = dyn_cast<PHINode>(base(l->getPointerOperand())); p && p->getParent() == L.getHeader() && inStd(I) && listWalk(p)) return 1; if (inStd(I)) for (auto &q : L.getHeader()->phis()) if (q.getType()->isPointerTy() && listWalk(&q) && adv(l, &q, 0)) return 1; return memCounter(l->getPointerOperand()); }
    if (auto *c = dyn_cast<CastInst>(I)) return dir(c->getOperand(0), d + 1);
    if (auto *b = dyn_cast<BinaryOperator>(I)) { auto x = dir(b->getOperand(0), d + 1), y = dir(b->getOperand(1), d + 1); if (!x || !y) return viaPhi(I);
      if (b->getOpcode() == Instruction::Add) { if (!*x) return y; if (!*y) return x; if (*x == *y) return x; return {}; }
      if (b->getOpcode() == Instruction::Sub) { if (!*y) return x; if (!*x) return -*y; if (*x == -*y) return x; return {}; }
      if (isa<ConstantInt>(b->getOperand(1)) && (b->getOpcode() == Instruction::SDiv || b->getOpcode() == Instruction::UDiv || b->getOpcode() == Instruction::AShr || b->getOpcode() == Instruction::Mul || b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::Shl)) return x;
      return {}; }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) { auto x = dir(g->getPointerOperand(), d + 1); if (!x) return {}; for (auto &o : g->indices()) { auto y = dir(o.get(), d + 1); if (!y) return {}; if (*y) { if (*x && *x != *y) return {}; x = y; } } return x; }
    return viaPhi(I); }
  template <class P> bool everyIteration(P pred) { // no way from the header back to it avoids an instruction that satisfies pred
    std::set<BasicBlock *> seen; std::vector<BasicBlock *> w{L.getHeader()};
    auto has = [&](BasicBlock *B) { for (auto &I : *B) if (pred(&I)) return true; return false; };
    if (has(L.getHeader())) return true; seen.insert(L.getHeader());
    while (!w.empty()) { auto *B = w.back(); w.pop_back(); for (auto *S : successors(B)) { if (!L.contains(S)) continue; if (S == L.getHeader()) return false; if (!seen.insert(S).second || has(S)) continue; w.push_back(S); } }
    return true; }
  // a counter kept in memory (captured by reference): every store adds a constant of one sign, one store in every iteration
  std::optional<int> memCounter(const Value *p) { if (!inv(p)) return {}; int sg = 0;
    for (auto *B : L.blocks()) for (auto &I : *B) if (auto *s = dyn_cast<StoreInst>(&I); s && sameAddr(s->getPointerOperand(), p)) { const Value *v = s->getValueOperand(); int64_t t = 0;
      for (int i = 0; i < 6; i++) { if (auto *b = dyn_cast<BinaryOperator>(v); b && b->getOpcode() == Instruction::Add && isa<ConstantInt>(b->getOperand(1))) { t += cast<ConstantInt>(b->getOperand(1))->getSExtValue(); v = b->getOperand(0); } else if (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); else break; }
      auto *l = dyn_cast<LoadInst>(v); bool self = l && sameAddr(l->getPointerOperand(), p); if (!self) { auto *ph = dyn_cast<PHINode>(v); if (ph && ph->getParent() == L.getHeader()) { self = true; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) if (L.contains(ph->getIncomingBlock(i))) { auto *q = ph->getIncomingValue(i); auto *ql = dyn_cast<LoadInst>(q); self &= q == s->getValueOperand() || (ql && sameAddr(ql->getPointerOperand(), p)); } } }
      if (!self || !t || (sg && (t > 0) != (sg > 0))) return {}; sg = t > 0 ? 1 : -1; }
    if (!sg || !everyIteration([&](Instruction *I) { auto *s = dyn_cast<StoreInst>(I); return s && sameAddr(s->getPointerOperand(), p); })) return {}; return sg; }
  // a value that advances on a header phi by a fixed step (the test may come after the increment)
  std::optional<int> viaPhi(const Instruction *I) { for (auto &ph : L.getHeader()->phis()) { std::set<const Value *> s; if (step(I, &ph, s)) return dir(&ph); } return {}; }
  // node = node->next inside a standard container's iterator
  bool listWalk(const PHINode *p) { bool any = false; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (L.contains(p->getIncomingBlock(i))) { if (!adv(p->getIncomingValue(i), p, 0)) return false; any = true; } return any; }
  static bool inStd(const Instruction *I) { if (auto *l = dyn_cast<LoadInst>(I); l && isa<PHINode>(l->getPointerOperand())) return true; auto l = locOf(I->getDebugLoc().get()); return !l.file.empty() && l.file[0] == '/'; }
  static bool erases(const Function *g, int d = 0) { if (g->getName().contains("5erase")) return true; if (d > 1 || g->isDeclaration()) return false; for (auto &I : instructions(const_cast<Function &>(*g))) if (auto *c = dyn_cast<CallBase>(&I); c && c->getCalledFunction() && erases(c->getCalledFunction(), d + 1)) return true; return false; }
  bool adv(const Value *v, const PHINode *p, int d) { if (d > 8) return false; if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return d > 0; auto *I = dyn_cast<Instruction>(v); if (!I) return false;
    if (auto *l = dyn_cast<LoadInst>(I); l && inStd(I)) { auto *b = base(l->getPointerOperand()); return b == p || (isa<Instruction>(b) && adv(b, p, d + 1)); }
    if (auto *c = dyn_cast<CallBase>(I)) { auto *g = c->getCalledFunction(); return g && (g->getName().contains("_increment") || g->getName().contains("_decrement") || erases(g)) && c->arg_size(); }
    if (auto *q = dyn_cast<PHINode>(I); q && q != p) if (auto *IL = LI.getLoopFor(q->getParent()); IL && IL != &L && L.contains(IL) && IL->getHeader() == q->getParent()) { // std::next: a counted inner walk of at least one step
      bool once = false, moves = true; for (auto &k : q->getParent()->phis()) if (k.getType()->isIntegerTy()) for (unsigned i = 0; i < k.getNumIncomingValues(); i++) if (!IL->contains(k.getIncomingBlock(i))) if (auto *c = dyn_cast<ConstantInt>(k.getIncomingValue(i)); c && c->getSExtValue() > 0) once = true;
      for (unsigned i = 0; i < q->getNumIncomingValues(); i++) if (IL->contains(q->getIncomingBlock(i))) moves &= adv(q->getIncomingValue(i), q, d + 1); else { auto *o = q->getIncomingValue(i); bool same = o == p; if (auto *oi = dyn_cast<Instruction>(o); !same && oi) same = adv(o, p, d + 1); moves &= same; } if (once && moves) return true; }
    if (auto *q = dyn_cast<PHINode>(I)) { for (auto &o : q->incoming_values()) if (!adv(o, p, d + 1)) return false; return true; }
    if (auto *s = dyn_cast<SelectInst>(I)) return adv(s->getTrueValue(), p, d + 1) && adv(s->getFalseValue(), p, d + 1);
    return false; }
  bool conj(const Value *c, bool stayIf) { // does the stay condition contain a bounded counter test
    if (auto *b = dyn_cast<BinaryOperator>(c)) { if (b->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1)); k && k->isOne()) return conj(b->getOperand(0), !stayIf);
      if (b->getOpcode() == (stayIf ? Instruction::And : Instruction::Or)) return conj(b->getOperand(0), stayIf) || conj(b->getOperand(1), stayIf); return false; }
    if (auto *s = dyn_cast<SelectInst>(c)) { if (stayIf) { if (auto *k = dyn_cast<ConstantInt>(s->getFalseValue()); k && k->isZero()) return conj(s->getCondition(), true) || conj(s->getTrueValue(), true); }
      else if (auto *k = dyn_cast<ConstantInt>(s->getTrueValue()); k && k->isOne()) return conj(s->getCondition(), false) || conj(s->getFalseValue(), false); return false; }
    if (auto *p = dyn_cast<PHINode>(c); p && p->getParent() == L.getHeader()) { // a flag set for the next iteration
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (L.contains(p->getIncomingBlock(i))) { auto *k = dyn_cast<ConstantInt>(p->getIncomingValue(i)); if (k ? k->isOne() == stayIf : (isa<PHINode>(p->getIncomingValue(i)) || !conj(p->getIncomingValue(i), stayIf))) return false; } return true; }
    if (auto *p = dyn_cast<PHINode>(c)) { // short-circuit: one incoming constant that leaves
      const Value *o = nullptr; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { auto *k = dyn_cast<ConstantInt>(p->getIncomingValue(i)); if (k && k->isOne() == stayIf) return false; if (k) { // the block that decided
            continue; } if (o) return false; o = p->getIncomingValue(i); }
      if (o && conj(o, stayIf)) return true;
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (isa<ConstantInt>(p->getIncomingValue(i))) if (auto *br = dyn_cast<BranchInst>(p->getIncomingBlock(i)->getTerminator()); br && br->isConditional()) { bool toPhiOnTrue = br->getSuccessor(0) == p->getParent(); if (DT.dominates(p->getIncomingBlock(i), p->getParent()) && conj(br->getCondition(), !toPhiOnTrue)) return true; }
      return false; }
    auto *cm = dyn_cast<ICmpInst>(c); if (!cm) return false; if (bisection(c, stayIf)) return true;
    auto pr = stayIf ? cm->getPredicate() : cm->getInversePredicate(); auto a = dir(cm->getOperand(0)), b = dir(cm->getOperand(1)); if (!a || !b) return false; int net = *a - *b; // a moves relative to b
    if (!net || (*a && *b && *a == *b)) return false;
    switch (pr) { case CmpInst::ICMP_NE: return true; case CmpInst::ICMP_EQ: return true;
      case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return net > 0;
      default: return net < 0; } }
  // ---- walks, worklists and streams
  void objects(const Value *v, std::set<const Value *> &o, int d = 0) { if (d > 6) return; if (v->getType()->isPointerTy()) { auto *b = base(v); if (isa<AllocaInst>(b) || isa<Argument>(b)) o.insert(b); if (b != v) objects(b, o, d + 1); }
    if (auto *I = dyn_cast<Instruction>(v)) { if (auto *l = dyn_cast<LoadInst>(I)) objects(l->getPointerOperand(), o, d + 1); else if (isa<CmpInst>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<SelectInst>(I)) for (auto &x : I->operands()) objects(x, o, d + 1);
      else if (auto *p = dyn_cast<PHINode>(I)) { for (auto &x : p->incoming_values()) objects(x, o, d + 2); } else if (auto *c = dyn_cast<CallBase>(I)) for (auto &x : c->args()) objects(x, o, d + 1); } }
  void sources(const Value *v, std::set<const Value *> &s, int d = 0) { if (d > 8 || !s.insert(v).second) return; if (auto *I = dyn_cast<Instruction>(v)) for (auto &x : I->operands()) if (!isa<BasicBlock>(x.get())) sources(x, s, d + 1); }
  static bool named(const Function *g, std::initializer_list<const char *> l) { if (!g) return false; for (auto *s : l) if (g->getName().contains(s)) return true; return false; }
  bool shrinks(const Instruction *I, const Value *o) { auto *c = dyn_cast<CallBase>(I); return c && c->arg_size() && named(c->getCalledFunction(), {"pop_", "5erase", "_M_erase", "eraseFace", "remove", "extract"}) && (base(c->getArgOperand(0)) == o || (c->arg_size() > 1 && c->getArgOperand(1)->getType()->isPointerTy() && base(c->getArgOperand(1)) == o)); }
  bool visitedOnly(const CallBase *push) { // the element was not seen before: a set is asked and extended
    std::set<const Value *> asked, put; bool ok = false;
    for (auto *B : L.blocks()) for (auto &I : *B) if (auto *c = dyn_cast<CallBase>(&I); c && c->arg_size()) { auto *g = c->getCalledFunction(); if (!g) continue; auto n = g->getName(); if (!n.contains("_set") && !n.contains("_Hashtable") && !n.contains("_Rb_tree") && !n.contains("_map")) continue;
      bool ins = n.contains("insert") || n.contains("emplace") || n.contains("_M_insert"), ask = ins || n.contains("count") || n.contains("find") || n.contains("contains"); if (!ask) continue;
      auto *o = c->getArgOperand(0); const Value *ob = base(g->hasStructRetAttr() || c->getArgOperand(0) == nullptr ? c->getArgOperand(1) : o);
      bool dom = DT.dominates(c->getParent(), push->getParent()); if (!dom) { for (auto *S : successors(c->getParent())) dom |= DT.dominates(S, push->getParent()); }
      if (ins && (dom || DT.dominates(push->getParent(), c->getParent()))) put.insert(ob); if (dom) for (auto *B2 : L.blocks()) if (auto *br = dyn_cast<BranchInst>(B2->getTerminator()); br && br->isConditional() && DT.dominates(B2, push->getParent()) && B2 != push->getParent()) { std::set<const Value *> s; sources(br->getCondition(), s); if (s.count(c)) asked.insert(ob); } }
    for (auto *o : asked) ok |= put.count(o) > 0; return ok; }
  // the tested cursor is set to the value that ends the loop
  bool setsEnd(Instruction *I, const Value *cond) { auto *c = dyn_cast<ICmpInst>(cond); auto *s = dyn_cast<StoreInst>(I); if (!c || !s) return false; auto *pb = I->getParent()->getSinglePredecessor(); auto *br = pb ? dyn_cast<BranchInst>(pb->getTerminator()) : nullptr; auto *t = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr; if (!t || !t->isEquality()) return false;
    if ((br->getSuccessor(0) == I->getParent()) != (t->getPredicate() == CmpInst::ICMP_EQ)) return false;
    for (int k = 0; k < 2; k++) { auto *l = dyn_cast<LoadInst>(c->getOperand(k)); if (!l || !sameAddr(l->getPointerOperand(), s->getPointerOperand())) continue; for (int m = 0; m < 2; m++) if (t->getOperand(m) == s->getValueOperand() && (t->getOperand(1 - m) == c->getOperand(1 - k) || sameAddr(t->getOperand(1 - m), c->getOperand(1 - k)))) return true; }
    return false; }
  bool consuming(const Value *cond) { std::set<const Value *> os; objects(cond, os);
    for (auto *o : os) {
      if (everyIteration([&](Instruction *I) { return shrinks(I, o) || setsEnd(I, cond); })) { bool bad = false; for (auto *B : L.blocks()) for (auto &I : *B) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = c->getCalledFunction(); g && grower(g) && c->arg_size() && base(c->getArgOperand(0)) == o && !visitedOnly(c)) bad = true; if (!bad) return true; }
      // the cursor of a walk along links: replaced in every iteration by a link of what it holds
      if (isa<AllocaInst>(o) && everyIteration([&](Instruction *I) { auto *s = dyn_cast<StoreInst>(I); if (!s || base(s->getPointerOperand()) != o || !s->getValueOperand()->getType()->isPointerTy()) return false; auto *l = dyn_cast<LoadInst>(s->getValueOperand()); if (isa<ConstantPointerNull>(s->getValueOperand())) return true; if (auto *e = dyn_cast<CallBase>(s->getValueOperand()); e && e->getCalledFunction() && erases(e->getCalledFunction())) return true; if (!l) return false; std::set<const Value *> src; sources(l->getPointerOperand(), src); for (auto *x : src) if (auto *y = dyn_cast<LoadInst>(x); y && y != l && base(y->getPointerOperand()) == o) return true; for (auto *x : src) if (isa<PHINode>(x) && cast<PHINode>(x)->getParent() == L.getHeader()) return true; return false; })) return true;
      // a member function of the object that the test asks runs in every iteration (degree raised up to another degree)
      if (isa<ICmpInst>(cond) && cast<ICmpInst>(cond)->getOperand(0)->getType()->isIntegerTy() && everyIteration([&](Instruction *I) { auto *c = dyn_cast<CallBase>(I); auto *g = c ? c->getCalledFunction() : nullptr; return g && isGbs(g) && g->getName().starts_with("_ZN3gbs") && c->arg_size() && base(c->getArgOperand(0)) == o; })) return true; }
    std::set<const Value *> src; sources(cond, src);
    for (auto *x : src) if (auto *c = dyn_cast<CallBase>(x); c && L.contains(c)) { auto *g = c->getCalledFunction(); if (named(g, {"St7getline"})) return true; // a stream that is read on
      if (g && g->getName().contains("basic_string") && g->getName().contains("find") && c->arg_size() > 2) for (auto &a : c->args()) if (a->getType()->isIntegerTy() && !inv(a) && !isa<ConstantInt>(a)) return true; }
    for (auto *x : src) if (auto *p = dyn_cast<PHINode>(x); p && p->getParent() == L.getHeader()) for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (L.contains(p->getIncomingBlock(i))) if (auto *c = dyn_cast<CallBase>(p->getIncomingValue(i)); c && c->getCalledFunction() && c->getCalledFunction()->getName().contains("basic_string") && c->getCalledFunction()->getName().contains("find")) for (auto &a : c->args()) if (a->getType()->isIntegerTy() && !inv(a) && !isa<ConstantInt>(a)) return true;
    return false; }
  // bisection: the new middle of (low, high) equals the old one, low and high move to the middle
  bool bisection(const Value *cond, bool stay) { auto *c = dyn_cast<ICmpInst>(cond); if (!c || c->getPredicate() != (stay ? CmpInst::ICMP_NE : CmpInst::ICMP_EQ)) return false;
    auto halves = [](const Value *v) { auto *n = dyn_cast<BinaryOperator>(v); return n && (n->getOpcode() == Instruction::LShr || n->getOpcode() == Instruction::UDiv || n->getOpcode() == Instruction::SDiv || n->getOpcode() == Instruction::AShr) && isa<ConstantInt>(n->getOperand(1)) ? dyn_cast<BinaryOperator>(n->getOperand(0)) : nullptr; };
    for (int k = 0; k < 2; k++) { auto *p = dyn_cast<PHINode>(c->getOperand(k)); auto *n = dyn_cast<BinaryOperator>(c->getOperand(1 - k)); if (!p || !n || p->getParent() != L.getHeader()) continue;
      const Value *lo = nullptr, *hi = nullptr; // (lo + hi) / 2 or lo + (hi - lo) / 2
      if (auto *s = halves(n); s && s->getOpcode() == Instruction::Add) { lo = s->getOperand(0); hi = s->getOperand(1); }
      else if (n->getOpcode() == Instruction::Add) for (int m = 0; m < 2; m++) if (auto *s = halves(n->getOperand(m)); s && s->getOpcode() == Instruction::Sub && s->getOperand(1) == n->getOperand(1 - m)) { lo = s->getOperand(1); hi = s->getOperand(0); }
      if (!lo) continue; bool carried = true; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (L.contains(p->getIncomingBlock(i))) carried &= p->getIncomingValue(i) == n; if (!carried) continue;
      bool mid = false; for (auto *o : {lo, hi}) { std::set<const Value *> src; sources(o, src, 5); mid |= src.count(p) > 0; } if (mid) return true; }
    return false; }
  // several counters, each bounded, none of which ever goes back: together they move
  bool several(std::vector<std::pair<const Value *, bool>> &tests) { std::set<const PHINode *> moving;
    std::function<void(const Value *, bool)> go = [&](const Value *c, bool stay) { if (auto *s = dyn_cast<SelectInst>(c)) { go(s->getCondition(), stay); go(stay ? s->getTrueValue() : s->getFalseValue(), stay); return; } if (auto *b = dyn_cast<BinaryOperator>(c)) { go(b->getOperand(0), stay); go(b->getOperand(1), stay); return; }
      auto *i = dyn_cast<ICmpInst>(c); if (!i) return; auto pr = stay ? i->getPredicate() : i->getInversePredicate(); bool lt = pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLE || pr == CmpInst::ICMP_ULE; auto *p = dyn_cast<PHINode>(i->getOperand(0)); if (!lt || !p || p->getParent() != L.getHeader() || !invDeep(i->getOperand(1))) return;
      bool ok = true; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) if (L.contains(p->getIncomingBlock(k))) { std::set<const Value *> s; auto st = step(p->getIncomingValue(k), p, s); ok &= st && st->first >= 0 && st->second > 0; } if (ok) moving.insert(p); };
    for (auto &[c, stay] : tests) go(c, stay); if (moving.size() < 2) return false;
    // no path leaves them all as they were: each latch value merges at the same place and some counter moves from every side
    for (auto *a : moving) for (auto *b : moving) if (a < b) for (unsigned k = 0; k < a->getNumIncomingValues(); k++) if (L.contains(a->getIncomingBlock(k))) { auto *x = dyn_cast<PHINode>(a->getIncomingValue(k)), *y = dyn_cast<PHINode>(b->getIncomingValueForBlock(a->getIncomingBlock(k)));
      if (!x || !y || x->getParent() != y->getParent()) continue; bool all = true; for (unsigned m = 0; m < x->getNumIncomingValues(); m++) all &= x->getIncomingValue(m) != a || y->getIncomingValueForBlock(x->getIncomingBlock(m)) != b; if (!all) return false; }
    return true; }
  bool countable() { std::vector<std::pair<const Value *, bool>> tests;
    SmallVector<BasicBlock *, 4> lat; L.getLoopLatches(lat); SmallVector<BasicBlock *, 8> ex; L.getExitingBlocks(ex);
    for (auto *E : ex) { bool every = true; for (auto *l : lat) every &= DT.dominates(E, l); if (!every) continue;
      auto *br = dyn_cast<BranchInst>(E->getTerminator()); if (!br || !br->isConditional()) continue;
      bool stay = L.contains(br->getSuccessor(0)); if (conj(br->getCondition(), stay) || consuming(br->getCondition()) || bisection(br->getCondition(), stay)) return true; tests.push_back({br->getCondition(), stay}); }
    return several(tests); }
};
}
void ruleTerm(Prog &P, Report &R) {
  const char *r = "PROGRESS"; auto &DL = P.M->getDataLayout();
  for (auto &F : *P.M) { if (F.isDeclaration() || !isGbs(&F)) continue;
    DominatorTree DT(F); LoopInfo LI(DT); R.item(r, "functions", shortName(&F));
    for (auto *L : LI.getLoopsInPreorder()) {
      // loops written in the library; those of inlined standard and third-party code are not its own
      auto *H = L->getHeader(); Loc hl; const Instruction *at = nullptr; bool own = true;
      auto dl = L->getStartLoc(); if (dl) hl = locOf(dl.get()); own = !hl.file.empty() && hl.file[0] != '/' && hl.line && dl->getScope()->getSubprogram() == F.getSubprogram(); at = H->getTerminator();
      if (auto *id = L->getLoopID()) for (unsigned i = 1; i < id->getNumOperands(); i++) if (auto *d = dyn_cast<DILocation>(id->getOperand(i))) { hl = locOf(d); own = !hl.file.empty() && hl.file[0] != '/'; own &= d->getScope()->getSubprogram() == F.getSubprogram(); break; }
      if (!own) continue;
      Cnt c{*L, DT, LI, DL}; bool ok = c.countable(); R.item(r, "loops", hl.file + ":" + std::to_string(hl.line)); 
      if (!ok) { Finding f; f.rule = r; f.file = hl.file; f.line = hl.line; f.func = enclosingName(&F); f.msg = "no exit test of this loop is reached in every iteration with a counter or iterator that moves towards it"; f.key = f.file + "|" + f.func + "|loop"; R.add(f); } } }
  // recursion through direct calls: an argument gets smaller, or an interval that is split keeps a least width, or a part of the argument is passed
  for (auto &F : *P.M) { if (F.isDeclaration() || !isGbs(&F)) continue; DominatorTree DT(F);
    for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I); c && c->getCalledFunction() == &F) { R.item(r, "recursions", locStr(&I)); bool ok = false, cond = false;
      std::vector<BranchInst *> guards; for (auto &B : F) if (auto *br = dyn_cast<BranchInst>(B.getTerminator()); br && br->isConditional() && &B != c->getParent() && DT.dominates(&B, c->getParent())) guards.push_back(br); cond = !guards.empty();
      for (unsigned k = 0; k < c->arg_size() && k < F.arg_size(); k++) { const Value *a = c->getArgOperand(k); while (auto *x = dyn_cast<CastInst>(a)) a = x->getOperand(0); auto own = [&](const Value *v) { while (auto *x = dyn_cast<CastInst>(v)) v = x->getOperand(0); return v == F.getArg(k); };
        if (auto *b = dyn_cast<BinaryOperator>(a)) { if (b->getOpcode() == Instruction::Add) for (int m = 0; m < 2; m++) if (auto *n = dyn_cast<ConstantInt>(b->getOperand(m)); n && n->isNegative() && own(b->getOperand(1 - m))) ok = true;
          if (b->getOpcode() == Instruction::Sub && own(b->getOperand(0))) { const Value *n = b->getOperand(1); while (auto *x = dyn_cast<CastInst>(n)) n = x->getOperand(0); if (auto *kc = dyn_cast<ConstantInt>(n); kc && kc->getSExtValue() > 0) ok = true; if (auto *p = dyn_cast<PHINode>(n)) { bool pos = true; for (auto &o : p->incoming_values()) { if (auto *kc = dyn_cast<ConstantInt>(o)) pos &= kc->getSExtValue() > 0; else { auto *ad = dyn_cast<BinaryOperator>(o); pos &= ad && ad->getOpcode() == Instruction::Add; } } ok |= pos; } } }
        if (auto *q = dyn_cast<CallBase>(c->getArgOperand(k)); q && q->getType()->isPointerTy()) for (auto &o : q->args()) if (o.get() == F.getArg(k)) ok = true;
        if (auto *g = dyn_cast<GetElementPtrInst>(c->getArgOperand(k))) { std::set<const Value *> s; std::function<void(const Value *, int)> src = [&](const Value *v, int d) { if (d > 10 || !s.insert(v).second) return; if (auto *J = dyn_cast<Instruction>(v)) for (auto &o : J->operands()) if (!isa<BasicBlock>(o.get())) src(o, d + 1); }; src(g, 0); if (s.count(F.getArg(k)) && locOf(I.getDebugLoc().get()).file.find("gbs-io") == 0) ok = true; } }
      for (auto *br : guards) { auto *f = dyn_cast<FCmpInst>(br->getCondition()); if (!f) continue; for (int m = 0; m < 2; m++) if (auto *k = dyn_cast<ConstantFP>(f->getOperand(m)); k && !k->isZero() && !k->isNegative()) if (auto *w = dyn_cast<CallBase>(f->getOperand(1 - m)); w && w->getCalledFunction() && w->getCalledFunction()->getName().contains("fabs")) { auto *sb = dyn_cast<BinaryOperator>(w->getArgOperand(0)); if (!sb || sb->getOpcode() != Instruction::FSub) continue;
          auto pr = f->getPredicate(); bool gt = pr == CmpInst::FCMP_OGT || pr == CmpInst::FCMP_UGT || pr == CmpInst::FCMP_OGE || pr == CmpInst::FCMP_UGE, lt = pr == CmpInst::FCMP_OLT || pr == CmpInst::FCMP_ULT || pr == CmpInst::FCMP_OLE || pr == CmpInst::FCMP_ULE; if (m == 0) std::swap(gt, lt); auto *T = br->getSuccessor(gt ? 0 : 1); if ((gt || lt) && DT.dominates(T, c->getParent())) ok = true; } }
      if (!ok || !cond) R.add(r, &I, enclosingName(&F), "recursion", "no argument of this recursive call gets smaller towards a base case"); } }
}
