// Numeric conversions: no real value of the library passes through an integer, a shorter real type or an integer division.
#include "num.h"
#include "llvm/IR/InstIterator.h"
namespace {
// value known to be a whole number: made from integers, rounded explicitly, or a whole constant
struct Whole {
  std::set<const Value *> seen;
  bool is(const Value *v) {
    if (!seen.insert(v).second) return true;
    if (auto *c = dyn_cast<ConstantFP>(v)) return c->getValueAPF().isInteger();
    if (isa<SIToFPInst>(v) || isa<UIToFPInst>(v)) return true;
    if (isa<UndefValue>(v)) return true;
    if (auto *x = dyn_cast<FPExtInst>(v)) return is(x->getOperand(0));
    if (auto *x = dyn_cast<FPTruncInst>(v)) return is(x->getOperand(0));
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) if (!is(o)) return false; return true; }
    if (auto *s = dyn_cast<SelectInst>(v)) return is(s->getTrueValue()) && is(s->getFalseValue());
    if (auto *u = dyn_cast<UnaryOperator>(v)) return is(u->getOperand(0));
    if (auto *b = dyn_cast<BinaryOperator>(v)) { // x + 0.5: rounding by hand
      if (b->getOpcode() == Instruction::FAdd) for (int i = 0; i < 2; i++) if (auto *c = dyn_cast<ConstantFP>(b->getOperand(i)); c && c->isExactlyValue(0.5)) return true;
      if (b->getOpcode() == Instruction::FDiv || b->getOpcode() == Instruction::FRem) return false;
      return is(b->getOperand(0)) && is(b->getOperand(1)); }
    if (auto *c = dyn_cast<CallBase>(v)) { auto *g = c->getCalledFunction(); if (!g) return false; auto n = demangle(g->getName().str());
      auto base = StringRef(n).split('(').first; base = base.split('<').first; if (base.contains("::")) base = base.rsplit("::").second; if (base.contains(' ')) base = base.rsplit(' ').second; if (base.starts_with("llvm.")) base = base.drop_front(5).split('.').first;
      for (auto *s : {"round", "floor", "ceil", "trunc", "rint", "nearbyint", "roundeven"}) if (base == s || base == std::string(s) + "f" || base == std::string(s) + "l") return true;
      for (auto *s : {"max", "min", "fmax", "fmin", "clamp", "abs", "fabs", "maxnum", "minnum"}) if (base == s) { bool any = false; for (auto &a : c->args()) { const Value *o = a.get(); if (o->getType()->isPointerTy()) o = stored(o); if (!o) return false; if (o->getType()->isFloatingPointTy()) { any = true; if (!is(o)) return false; } } return any; }
      return false; }
    if (auto *l = dyn_cast<LoadInst>(v)) { auto *p = l->getPointerOperand();
      if (auto *c = dyn_cast<CallBase>(p)) return viaRef(c);
      if (auto *o = stored(p)) return is(o); }
    return false; }
  bool viaRef(const CallBase *c) { auto *g = c->getCalledFunction(); if (!g) return false; auto n = g->getName(); if (!n.starts_with("_ZSt3max") && !n.starts_with("_ZSt3min") && !n.starts_with("_ZSt5clamp")) return false;
    for (auto &a : c->args()) { auto *o = stored(a.get()); if (!o || !is(o)) return false; } return true; }
  static const Value *stored(const Value *p) { auto *a = dyn_cast<AllocaInst>(p); if (!a) return nullptr; const Value *r = nullptr; for (auto *u : a->users()) if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() != a || r) return nullptr; r = s->getValueOperand(); } return r; }
};
bool sizeOf(const Value *v) { // number of elements of a container
  if (auto *c = dyn_cast<CallBase>(v)) { auto *g = c->getCalledFunction(); return g && (g->getName().ends_with("4sizeEv") || g->getName().contains("8distance") || g->getName().contains("St4size")); }
  if (auto *b = dyn_cast<BinaryOperator>(v)) { if (b->getOpcode() == Instruction::SDiv || b->getOpcode() == Instruction::AShr || b->getOpcode() == Instruction::LShr) return sizeOf(b->getOperand(0)); return b->getOpcode() == Instruction::Sub && isa<PtrToIntInst>(b->getOperand(0)); }
  return false; }
bool intDivided(const Value *v, int d, std::set<const Value *> &seen) { // an integer division feeds it through integer arithmetic
  if (d > 8 || !seen.insert(v).second) return false; auto *I = dyn_cast<Instruction>(v); if (!I) return false;
  if (I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::UDiv) return !sizeOf(I->getOperand(0)); // size / stride: a count
  if (isa<CastInst>(I) || isa<SelectInst>(I) || isa<PHINode>(I) || I->getOpcode() == Instruction::Add || I->getOpcode() == Instruction::Sub || I->getOpcode() == Instruction::Mul) { for (auto &o : I->operands()) if (o->getType()->isIntegerTy() && intDivided(o, d + 1, seen)) return true; }
  return false; }
}
void ruleNum(Prog &P, Report &R) {
  const char *r = "PRECISION";
  for (auto &F : *P.M) { if (F.isDeclaration() || isDrv(&F)) continue; bool lib = isGbs(&F); auto dem = demangled(&F);
    if (!lib) { auto n = F.getName(); if (!(n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.contains("6__pstl") || n.contains("9__gnu_cxx")) || dem.find("gbs::") == std::string::npos && dem.find("double") == std::string::npos) continue; }
    // instantiations for single precision are allowed to use single precision
    bool single = dem.find("<float") != std::string::npos || dem.find(", float") != std::string::npos || dem.find("float>") != std::string::npos;
    if (lib) R.item(r, "functions", shortName(&F));
    for (auto &I : instructions(F)) {
      if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) { Whole w; R.item(r, "conversions", locStr(&I)); if (!w.is(I.getOperand(0))) R.add(r, &I, shortName(&F), "real cut to integer", "a real value is cut to an integer without being rounded"); }
      else if (isa<FPTruncInst>(I) && !single) { R.item(r, "conversions", locStr(&I)); R.add(r, &I, shortName(&F), "precision lost", "a value in double precision is cut to single precision"); }
      else if (isa<FPExtInst>(I) && !single) { if (isa<CallBase>(I.getOperand(0)) || isa<LoadInst>(I.getOperand(0)) || isa<Argument>(I.getOperand(0)) || isa<BinaryOperator>(I.getOperand(0))) R.item(r, "widenings", locStr(&I)); R.add(r, &I, shortName(&F), "precision lost", "a value of a double precision computation passes through single precision"); }
      else if (isa<SIToFPInst>(I) || isa<UIToFPInst>(I)) { std::set<const Value *> s; R.item(r, "conversions", locStr(&I)); if (intDivided(I.getOperand(0), 0, s)) R.add(r, &I, shortName(&F), "integer division used as real", "a quotient of integers is used as a real value after its fraction is dropped"); } } }
}
