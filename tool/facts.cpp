#include "facts.h"
#include "report.h"
#include "llvm/Support/Regex.h"
#include "llvm/Analysis/LoopInfo.h"
static std::string num(double v) { char b[40]; if (v == std::floor(v) && std::abs(v) < 1e15) snprintf(b, 40, "%.0f", v); else snprintf(b, 40, "%.10g", v); return b; }
std::string Lin::str() const {
  std::string s; for (auto &[k, v] : t) { if (v == 1) s += (s.empty() ? "" : "+") + k; else if (v == -1) s += "-" + k; else s += (s.empty() || v < 0 ? "" : "+") + num(v) + "*" + k; }
  if (c != 0 || s.empty()) s += (c > 0 && !s.empty() ? "+" : "") + num(c); return s;
}
FactFn::FactFn(Ctx *c, const Function *f) : C(c), F(f), DL(c->DL), DT(*const_cast<Function *>(f)) {}
static std::string callName(Ctx *C, const CallBase *CB) {
  if (auto *f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) return f->isIntrinsic() ? f->getName().str() : shortName(f);
  bool isV; auto ts = C->P.virtualTargets(CB, isV);
  if (isV && !ts.empty()) { std::string s = shortName(ts[0]); return "virtual " + s.substr(s.rfind("::") + 2); }
  return "";
}
Lin FactFn::resolve(const AllocaInst *al, int64_t off, const Instruction *at, int d, bool &ok) {
  struct Def { const Instruction *I; int kind; int64_t base; const Value *v; }; std::vector<Def> defs; ok = false;
  std::vector<std::pair<const Value *, int64_t>> st{{al, 0}}; bool esc = false;
  while (!st.empty()) {
    auto [p, o] = st.back(); st.pop_back();
    for (auto *u : p->users()) {
      if (auto *g = dyn_cast<GetElementPtrInst>(u)) { APInt a(64, 0); if (g->accumulateConstantOffset(DL, a)) st.push_back({g, o + a.getSExtValue()}); else { bool w = false; for (auto *u2 : g->users()) if (!isa<LoadInst>(u2)) w = true; if (w) esc = true; } }
      else if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() == p) { int64_t sz = DL.getTypeStoreSize(s->getValueOperand()->getType()); if (off >= o && off < o + sz) defs.push_back({s, 0, o, s->getValueOperand()}); } else esc = true; }
      else if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawDest() == p) { auto *len = dyn_cast<ConstantInt>(mt->getLength()); if (!len || (off >= o && off < o + (int64_t)len->getZExtValue())) defs.push_back({mt, 1, o, mt->getRawSource()}); } }
      else if (auto *ms = dyn_cast<MemSetInst>(u)) { auto *len = dyn_cast<ConstantInt>(ms->getLength()); if (!len || (off >= o && off < o + (int64_t)len->getZExtValue())) defs.push_back({ms, 3, o, nullptr}); }
      else if (auto *cb = dyn_cast<CallBase>(u)) {
        if (cb->isLifetimeStartOrEnd()) continue;
        for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i) == p) {
          if (cb->paramHasAttr(i, Attribute::StructRet)) defs.push_back({cb, 2, o, cb});
          else if (!cb->onlyReadsMemory(i) ) { // reference argument of a library function: assume read unless it is the object of a non-const member
            auto *f = cb->getCalledFunction(); std::string n = f ? f->getName().str() : ""; if (i == 0 && !startsWith(n, "_ZNK") && startsWith(n, "_ZN")) defs.push_back({cb, 4, o, cb}); }
        }
      } else if (isa<LoadInst>(u) || isa<ICmpInst>(u)) {} else if (auto *ph = dyn_cast<PHINode>(u)) { (void)ph; } 
    }
  }
  if (esc) return {};
  const Def *best = nullptr;
  for (auto &x : defs) if (DT.dominates(x.I, at)) { if (!best || DT.dominates(best->I, x.I)) best = &x; }
  if (!best) return {};
  for (auto &x : defs) if (&x != best && !DT.dominates(x.I, best->I)) { // another definition that may come later
    if (!DT.dominates(at, x.I)) return {};
  }
  ok = true;
  switch (best->kind) {
  case 0: if (best->base == off) return lin(best->v, d + 1); if (auto *iv = best->v) { ok = false; } return {};
  case 1: { Lin a = lin(best->v, d + 1); a.c += off - best->base; return loadAt(best->v, a, best->I, d + 1); }
  case 2: { auto *cb = cast<CallBase>(best->I); std::string n = callName(C, cb); if (n.empty()) { ok = false; return {}; } std::string s = n + "("; bool first = true; for (unsigned i = 0; i < cb->arg_size(); i++) if (!cb->paramHasAttr(i, Attribute::StructRet)) { s += (first ? "" : ",") + lin(cb->getArgOperand(i), d + 1).str(); first = false; } return Lin::atom(s + ")@" + num(off - best->base)); }
  case 3: return Lin::cst(0);
  default: ok = false; return {};
  }
}
Lin FactFn::loadAt(const Value *ptr, Lin addr, const Instruction *at, int d) {
  const Value *base = ptr; APInt o(64, 0);
  base = ptr->stripAndAccumulateConstantOffsets(DL, o, true);
  if (auto *al = dyn_cast<AllocaInst>(base)) { bool ok; int64_t off = o.getSExtValue(); Lin b = lin(base, d + 1); off += (int64_t)(addr - (lin(ptr, d + 1))).c; Lin r = resolve(al, off, at, d, ok); if (ok) return r; return Lin::atom("%" + F->getName().str() + "." + std::to_string(opq++)); }
  return Lin::atom("L[" + addr.str() + "]");
}
Lin FactFn::lin(const Value *v, int d) {
  auto it = memo.find(v); if (it != memo.end()) return it->second;
  auto opaque = [&]() { return Lin::atom("%" + std::to_string((uint64_t)std::hash<std::string>()(F->getName().str()) % 10000) + "." + std::to_string(opq++)); };
  Lin r; if (d > 40) return opaque();
  memo[v] = opaque(); // cycles
  if (auto *c = dyn_cast<ConstantInt>(v)) r = c->getBitWidth() == 1 ? Lin::cst(c->isOne()) : c->getBitWidth() <= 64 ? Lin::cst((double)c->getSExtValue()) : opaque();
  else if (auto *c = dyn_cast<ConstantFP>(v)) r = Lin::cst(c->getValueAPF().isNaN() ? 0 : c->getType()->isDoubleTy() ? c->getValueAPF().convertToDouble() : c->getType()->isFloatTy() ? c->getValueAPF().convertToFloat() : 0);
  else if (isa<ConstantPointerNull>(v)) r = Lin::cst(0);
  else if (auto *a = dyn_cast<Argument>(v)) r = Lin::atom("a" + std::to_string(a->getArgNo()));
  else if (auto *g = dyn_cast<GlobalValue>(v)) r = Lin::atom("@" + g->getName().str());
  else if (auto *al = dyn_cast<AllocaInst>(v)) { int n = 0; for (auto &I : instructions(*F)) { if (&I == al) break; if (isa<AllocaInst>(I)) n++; } r = Lin::atom("&" + std::to_string((uint64_t)std::hash<std::string>()(F->getName().str()) % 10000) + "." + std::to_string(n)); }
  else if (auto *g = dyn_cast<GEPOperator>(v)) {
    r = lin(g->getPointerOperand(), d + 1);
    for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
      if (auto *st = gi.getStructTypeOrNull()) r.c += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
      else r = r + lin(gi.getOperand(), d + 1) * (double)DL.getTypeAllocSize(gi.getIndexedType());
    }
  } else if (auto *o = dyn_cast<Operator>(v)) {
    auto B = [&](unsigned i) { return lin(o->getOperand(i), d + 1); };
    switch (o->getOpcode()) {
    case Instruction::Add: case Instruction::FAdd: r = B(0) + B(1); if (auto *k = dyn_cast<ConstantInt>(o->getOperand(1)); k && k->isNegative()) r.w = true; break;
    case Instruction::Sub: case Instruction::FSub: r = B(0) - B(1); if (o->getOpcode() == Instruction::Sub && !isa<PtrToIntInst>(o->getOperand(0)) && !r.isConst()) r.w = true; break;
    case Instruction::FNeg: r = B(0) * -1.0; break;
    case Instruction::Or: if (auto *ci = dyn_cast<ConstantInt>(o->getOperand(1))) { r = B(0) + Lin::cst(ci->getZExtValue()); } else r = opaque(); if (v->getType()->isIntegerTy(1)) r = opaque(); break;
    case Instruction::Xor: if (auto *ci = dyn_cast<ConstantInt>(o->getOperand(1)); ci && ci->isMinusOne() && !v->getType()->isIntegerTy(1)) { r = B(0) * -1.0 - Lin::cst(1); r.w = true; } else r = opaque(); break;
    case Instruction::Mul: case Instruction::FMul: { Lin a = B(0), b = B(1); if (a.isConst()) r = b * a.c; else if (b.isConst()) r = a * b.c; else { std::string x = a.str(), y = b.str(); if (y < x) std::swap(x, y); r = Lin::atom("mul(" + x + "," + y + ")"); } break; }
    case Instruction::Shl: if (auto *ci = dyn_cast<ConstantInt>(o->getOperand(1))) r = B(0) * std::pow(2.0, (double)ci->getZExtValue()); else r = opaque(); break;
    case Instruction::SDiv: case Instruction::UDiv: case Instruction::AShr: case Instruction::LShr: {
      auto *ci = dyn_cast<ConstantInt>(o->getOperand(1)); if (!ci) { r = Lin::atom("div(" + B(0).str() + "," + B(1).str() + ")"); break; }
      double dv = (o->getOpcode() == Instruction::SDiv || o->getOpcode() == Instruction::UDiv) ? (double)ci->getSExtValue() : std::pow(2.0, (double)ci->getZExtValue());
      if (cast<PossiblyExactOperator>(o)->isExact()) r = B(0) * (1.0 / dv); else r = Lin::atom("div(" + B(0).str() + "," + num(dv) + ")"); break; }
    case Instruction::FDiv: { Lin b = B(1); if (b.isConst() && b.c != 0) r = B(0) * (1.0 / b.c); else r = Lin::atom("fdiv(" + B(0).str() + "," + b.str() + ")"); break; }
    case Instruction::URem: case Instruction::SRem: r = Lin::atom("rem(" + B(0).str() + "," + B(1).str() + ")"); break;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::Freeze:
      r = B(0); break;
    case Instruction::Load: { auto *l = cast<LoadInst>(v); r = loadAt(l->getPointerOperand(), B(0), l, d + 1); break; }
    case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(v); Lin a = lin(e->getAggregateOperand(), d + 1); if (a.t.size() == 1 && a.c == 0) { std::string s = a.t.begin()->first; unsigned k = e->getIndices()[0]; double off = k; if (auto *st = dyn_cast<StructType>(e->getAggregateOperand()->getType())) off = DL.getStructLayout(st)->getElementOffset(k); r = Lin::atom(s + "@" + num(off)); } else r = opaque(); break; }
    case Instruction::Select: { auto *s = cast<SelectInst>(v); if (auto *cmp = dyn_cast<CmpInst>(s->getCondition())) { Lin a = lin(s->getTrueValue(), d + 1), b = lin(s->getFalseValue(), d + 1); Lin x = lin(cmp->getOperand(0), d + 1), y = lin(cmp->getOperand(1), d + 1); auto p = cmp->getPredicate(); bool lt = p == CmpInst::FCMP_OLT || p == CmpInst::FCMP_OLE || p == CmpInst::FCMP_ULT || p == CmpInst::FCMP_ULE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE; bool gt = p == CmpInst::FCMP_OGT || p == CmpInst::FCMP_OGE || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT;
        std::string nm; if (x == a && y == b) nm = lt ? "min" : gt ? "max" : ""; else if (x == b && y == a) nm = lt ? "max" : gt ? "min" : ""; if (nm.size()) { std::string p1 = a.str(), q1 = b.str(); if (q1 < p1) std::swap(p1, q1); r = Lin::atom(nm + "(" + p1 + "," + q1 + ")"); break; } } r = opaque(); break; }
    case Instruction::PHI: { auto *ph = cast<PHINode>(v); Lin f; bool same = true, first = true; for (auto &in : ph->incoming_values()) { if (in == ph) continue; Lin x = lin(in, d + 1); if (first) { f = x; first = false; } else if (!(x == f)) same = false; } if (same && !first) r = f; else r = opaque(); break; }
    case Instruction::Call: case Instruction::Invoke: {
      auto *cb = cast<CallBase>(v); std::string n = callName(C, cb);
      if (n.starts_with("llvm.fmuladd.") || n.starts_with("llvm.fma.")) { Lin x = B(0), y = B(1), z = B(2); if (x.isConst()) r = y * x.c + z; else if (y.isConst()) r = x * y.c + z; else { std::string p = x.str(), q = y.str(); if (q < p) std::swap(p, q); r = Lin::atom("mul(" + p + "," + q + ")") + z; } break; }
      if (n == "llvm.fabs.f64" || n == "llvm.fabs.f32") { r = Lin::atom("abs(" + B(0).str() + ")"); break; }
      if (n.empty() || cb->getType()->isVoidTy() || n == "operator new") { r = opaque(); break; }
      std::string s = n + "("; for (unsigned i = 0; i < cb->arg_size(); i++) s += (i ? "," : "") + lin(cb->getArgOperand(i), d + 1).str(); r = Lin::atom(s + ")"); break; }
    default: r = opaque();
    }
  } else r = opaque();
  // (finish - start) of a vector object: its byte size
  { std::vector<std::string> add; for (auto &[k, c] : r.t) if (startsWith(k, "L[") && k.back() == ']') { std::string in = k.substr(2, k.size() - 3); for (auto &[k2, c2] : r.t) if (c2 == -c && c2 != 0 && startsWith(k2, "L[") && k2 != k) { std::string in2 = k2.substr(2, k2.size() - 3);
        auto split = [](const std::string &s) { size_t p = s.rfind('+'); long off = 0; std::string b = s; if (p != std::string::npos && s.find_first_not_of("0123456789", p + 1) == std::string::npos) { off = atol(s.c_str() + p + 1); b = s.substr(0, p); } return std::pair(b, off); };
        auto [b1, o1] = split(in); auto [b2, o2] = split(in2); if (b1 == b2 && o1 == o2 + 8) { std::string nm = "bytes(" + in2 + ")"; Lin q = r; q.t.erase(k); q.t.erase(k2); q.t[nm] += c; r = q; goto done; } } }
  done:; }
  memo[v] = r; return r;
}
void FactFn::condFacts(const Value *c, bool T, Facts &out, int d) {
  if (d > 12) return;
  if (auto *ci = dyn_cast<ConstantInt>(c)) return;
  using namespace llvm; 
  if (auto *b = dyn_cast<BinaryOperator>(c)) {
    if (b->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) if (k->isOne()) return condFacts(b->getOperand(0), !T, out, d + 1);
    if ((b->getOpcode() == Instruction::And && T) || (b->getOpcode() == Instruction::Or && !T)) { condFacts(b->getOperand(0), T, out, d + 1); condFacts(b->getOperand(1), T, out, d + 1); return; }
    return;
  }
  if (auto *s = dyn_cast<SelectInst>(c)) {
    auto *tc = dyn_cast<ConstantInt>(s->getTrueValue()), *fc = dyn_cast<ConstantInt>(s->getFalseValue());
    if (fc && fc->isZero() && T) { condFacts(s->getCondition(), true, out, d + 1); condFacts(s->getTrueValue(), true, out, d + 1); return; }
    if (tc && tc->isOne() && !T) { condFacts(s->getCondition(), false, out, d + 1); condFacts(s->getFalseValue(), false, out, d + 1); return; }
    if (fc && fc->isOne() && !T) { condFacts(s->getCondition(), true, out, d + 1); condFacts(s->getTrueValue(), false, out, d + 1); return; }
    if (tc && tc->isZero() && T) { condFacts(s->getCondition(), false, out, d + 1); condFacts(s->getFalseValue(), true, out, d + 1); return; }
    return;
  }
  if (auto *ph = dyn_cast<PHINode>(c)) {
    std::optional<Facts> acc;
    for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
      auto *v = ph->getIncomingValue(i); if (auto *k = dyn_cast<ConstantInt>(v)) if (k->isOne() != T) continue;
      auto *pb = ph->getIncomingBlock(i); auto pi = in.find(pb); if (pi == in.end() || !pi->second) continue;
      Facts f = *pi->second; for (auto &x : edge(pb, ph->getParent())) f.insert(x);
      condFacts(v, T, f, d + 1);
      if (!acc) acc = f; else { Facts r; std::set_intersection(acc->begin(), acc->end(), f.begin(), f.end(), std::inserter(r, r.begin())); acc = r; }
    }
    if (acc) out.insert(acc->begin(), acc->end()); return;
  }
  if (auto *cmp = dyn_cast<CmpInst>(c)) {
    Lin a = lin(cmp->getOperand(0)), b = lin(cmp->getOperand(1)); auto p = T ? cmp->getPredicate() : cmp->getInversePredicate(); bool fp = isa<FCmpInst>(cmp); double one = fp ? 1e-290 : 1; // a strict comparison of reals keeps its strictness as an infinitesimal
    if (!fp && cmp->getOperand(0)->getType()->isIntegerTy(1)) { if (auto *k = dyn_cast<ConstantInt>(cmp->getOperand(1))) { bool eq = p == CmpInst::ICMP_EQ; condFacts(cmp->getOperand(0), eq == k->isOne(), out, d + 1); } return; }
    auto norm = [&](Fact::K k, Lin l) { double s = 1; for (auto &[n, v] : l.t) { s = std::abs(v); if (k != Fact::GE0 && v < 0) s = -s; break; } Fact f{k, l * (1.0 / s), fp}; out.insert(f); };
    // |x| <= y: -y <= x <= y
    if (fp) for (int side = 0; side < 2; side++) if (auto *cb = dyn_cast<CallBase>(cmp->getOperand(side))) if (auto *g = cb->getCalledFunction(); g && (g->getName() == "llvm.fabs.f64" || g->getName() == "llvm.fabs.f32")) {
      auto q = side ? CmpInst::getSwappedPredicate(p) : p; Lin x = lin(cb->getArgOperand(0)), y = side ? a : b; double o = -1;
      if (q == CmpInst::FCMP_OLT || q == CmpInst::FCMP_ULT) o = one; else if (q == CmpInst::FCMP_OLE || q == CmpInst::FCMP_ULE) o = 0;
      if (o >= 0) { norm(Fact::GE0, y - x - Lin::cst(o)); norm(Fact::GE0, y + x - Lin::cst(o)); } }
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::ICMP_EQ: norm(Fact::EQ0, a - b); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: case CmpInst::ICMP_NE: norm(Fact::NE0, a - b); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: norm(Fact::GE0, a - b - Lin::cst(one)); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: norm(Fact::GE0, a - b); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: norm(Fact::GE0, b - a - Lin::cst(one)); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: norm(Fact::GE0, b - a); break;
    default: break;
    }
    return;
  }
  if (auto *cb = dyn_cast<CallBase>(c)) { if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (!f->isDeclaration()) for (auto &x : C->translate(*this, cb, C->retFactsIf(f, T))) out.insert(x); }
  out.insert({T ? Fact::TRUE_ : Fact::FALSE_, lin(c)});
}
Facts FactFn::edge(const BasicBlock *p, const BasicBlock *s) {
  Facts f; auto *t = p->getTerminator();
  if (auto *br = dyn_cast<BranchInst>(t)) { if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) condFacts(br->getCondition(), br->getSuccessor(0) == s, f); }
  else if (auto *sw = dyn_cast<SwitchInst>(t)) { const ConstantInt *k = nullptr; int n = 0; for (auto &c : sw->cases()) if (c.getCaseSuccessor() == s) { n++; k = c.getCaseValue(); } if (n == 1 && sw->getDefaultDest() != s) { Lin l = lin(sw->getCondition()) - Lin::cst(k->getSExtValue()); f.insert({Fact::EQ0, l}); } if (sw->getDefaultDest() == s) for (auto &c : sw->cases()) f.insert({Fact::NE0, lin(sw->getCondition()) - Lin::cst(c.getCaseValue()->getSExtValue())}); }
  else if (auto *iv = dyn_cast<InvokeInst>(t)) { if (iv->getNormalDest() == s) if (auto *c = dyn_cast<Function>(iv->getCalledOperand()->stripPointerCasts())) if (!c->isDeclaration()) for (auto &x : C->translate(*this, iv, C->retFacts(c))) f.insert(x); }
  return f;
}
void FactFn::solve() {
  if (!in.empty()) return;
  ReversePostOrderTraversal<const Function *> RPO(F); std::vector<const BasicBlock *> ord(RPO.begin(), RPO.end());
  for (auto *b : ord) in[b] = std::nullopt;
  in[ord[0]] = Facts{};
  auto blockOut = [&](const BasicBlock *b) { Facts f = *in[b]; for (auto &I : *b) if (auto *cb = dyn_cast<CallInst>(&I)) if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (!c->isDeclaration() && !c->isIntrinsic()) for (auto &x : C->translate(*this, cb, C->retFacts(c))) f.insert(x); return f; };
  for (int it = 0; it < 6; it++) {
    bool ch = false; std::map<const BasicBlock *, Facts> outs;
    for (auto *b : ord) {
      if (b != ord[0]) {
        std::optional<Facts> acc;
        for (auto *p : predecessors(b)) { auto i = in.find(p); if (i == in.end() || !i->second) continue; auto oi = outs.find(p); Facts f = oi != outs.end() ? oi->second : blockOut(p); for (auto &x : edge(p, b)) f.insert(x); if (!acc) acc = f; else { Facts r; std::set_intersection(acc->begin(), acc->end(), f.begin(), f.end(), std::inserter(r, r.begin())); acc = r; } }
        if (acc && (!in[b] || *in[b] != *acc)) { if (in[b]) { Facts r; std::set_intersection(acc->begin(), acc->end(), in[b]->begin(), in[b]->end(), std::inserter(r, r.begin())); if (r.size() != in[b]->size()) ch = true; in[b] = r; } else { in[b] = acc; ch = true; } }
      }
      if (in[b]) outs[b] = blockOut(b);
    }
    if (!ch) break;
  }
}
Facts FactFn::atReturn(std::optional<bool> want) {
  solve(); std::optional<Facts> acc;
  for (auto &[b, f] : in) if (auto *r = dyn_cast<ReturnInst>(b->getTerminator())) {
    if (!f) continue; Facts x = *f;
    for (auto &I : *b) if (auto *cb = dyn_cast<CallInst>(&I)) if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (!c->isDeclaration() && !c->isIntrinsic()) for (auto &y : C->translate(*this, cb, C->retFacts(c))) x.insert(y);
    if (want) { auto *v = r->getReturnValue(); if (!v) continue; if (auto *k = dyn_cast<ConstantInt>(v)) { if (k->isOne() != *want) continue; } else condFacts(v, *want, x); }
    if (!acc) acc = x; else { Facts q; std::set_intersection(acc->begin(), acc->end(), x.begin(), x.end(), std::inserter(q, q.begin())); acc = q; }
  }
  return acc ? *acc : Facts{};
}
FactFn &Ctx::fn(const Function *F) { auto &p = fns[F]; if (!p) p = std::make_unique<FactFn>(this, F); return *p; }
static const Facts EMPTY;
const Facts &Ctx::retFacts(const Function *F) {
  auto it = rets.find(F); if (it != rets.end()) return it->second.second;
  if (busy.count(F) || busy.size() > 25) return EMPTY; busy.insert(F); Facts f = fn(F).atReturn(); busy.erase(F); return (rets[F] = {true, f}).second;
}
const Facts &Ctx::retFactsIf(const Function *F, bool b) {
  if (!F->getReturnType()->isIntegerTy(1)) return EMPTY;
  auto it = retTrue[b].find(F); if (it != retTrue[b].end()) return it->second;
  if (busy.count(F)) return EMPTY; busy.insert(F); Facts f = fn(F).atReturn(b); busy.erase(F); return retTrue[b][F] = f;
}
std::string substArgs(const std::string &s, const std::function<std::string(int)> &f) {
  std::string o; for (size_t i = 0; i < s.size();) { bool start = i == 0 || !(isalnum(s[i - 1]) || s[i - 1] == '_' || s[i - 1] == ':' || s[i - 1] == '@'); if (start && s[i] == 'a' && i + 1 < s.size() && isdigit(s[i + 1])) { size_t j = i + 1; while (j < s.size() && isdigit(s[j])) j++; if (j == s.size() || !(isalnum(s[j]) || s[j] == '_')) { o += f(atoi(s.c_str() + i + 1)); i = j; continue; } } o += s[i++]; }
  return o;
}
Facts Ctx::translate(FactFn &cl, const CallBase *CB, const Facts &f) {
  Facts r;
  for (auto &x : f) {
    Lin n; n.c = x.l.c; n.w = x.l.w; bool ok = true;
    for (auto &[k, v] : x.l.t) {
      if (k[0] == 'a' && k.size() > 1 && isdigit(k[1])) { int i = atoi(k.c_str() + 1); if ((unsigned)i >= CB->arg_size()) { ok = false; break; } n = n + cl.lin(CB->getArgOperand(i)) * v; continue; }
      // memory behind a reference argument: re-read it in the caller
      auto rd = [&](const std::string &in) -> std::optional<Lin> { size_t p = in.find('+'); std::string b = p == std::string::npos ? in : in.substr(0, p); if (b.size() < 2 || b[0] != 'a' || b.find_first_not_of("0123456789", 1) != std::string::npos) return {}; if (p != std::string::npos && in.find_first_not_of("0123456789", p + 1) != std::string::npos) return {}; int i = atoi(b.c_str() + 1); long off = p == std::string::npos ? 0 : atol(in.c_str() + p + 1); if ((unsigned)i >= CB->arg_size()) return {}; auto *A = CB->getArgOperand(i); Lin a = cl.lin(A); a.c += off; return cl.loadAt(A, a, CB, 0); };
      if (startsWith(k, "L[") && k.back() == ']') if (auto q = rd(k.substr(2, k.size() - 3))) { n = n + *q * v; continue; }
      bool bad = false; std::string s = substArgs(k, [&](int i) { if ((unsigned)i >= CB->arg_size()) { bad = true; return std::string("?"); } std::string z = cl.lin(CB->getArgOperand(i)).str(); return z; });
      if (bad) { ok = false; break; }
      n = n + Lin::atom(s) * v;
    }
    if (ok) r.insert({x.k, n, x.fp});
  }
  return r;
}

bool opaqueStr(const std::string &s) { for (size_t i = 0; i + 1 < s.size(); i++) if ((s[i] == '%' || s[i] == '&') && (isdigit(s[i + 1]) || s[i + 1] == '_')) return true; return false; }
static bool isOpaque(const Facts &f) { // no fact expresses the condition over named values
  for (auto &x : f) { if (x.k >= Fact::TRUE_) { if (f.size() > 1) continue; return true; } bool o = false; for (auto &[k, v] : x.l.t) if (opaqueStr(k)) o = true; if (!o) return false; }
  return true; }
// ---- rejecting guards: branches one side of which can no longer reach an accepting return
const std::set<Dep> &Ctx::slice(const Function *F, const Value *v0) {
  auto mi = sliceMemo.find({F, v0}); if (mi != sliceMemo.end()) return mi->second; std::set<Dep> out; std::set<std::pair<const Value *, std::pair<int, long>>> seen; // (value, (derefs so far, first offset))
  struct It { const Value *v; int depth; long off; }; std::vector<It> st{{v0, 0, 0}};
  while (!st.empty()) {
    It x = st.back(); st.pop_back(); if (!seen.insert({x.v, {x.depth, x.off}}).second || seen.size() > 4000) continue;
    if (auto *a = dyn_cast<Argument>(x.v)) { out.insert({(int)a->getArgNo(), x.off, x.depth}); continue; }
    if (auto *al = dyn_cast<AllocaInst>(x.v)) { // whatever was put into the local object
      std::vector<const Value *> w{al}; std::set<const Value *> ws; int dd = std::max(0, x.depth - 1);
      while (!w.empty()) { auto *p = w.back(); w.pop_back(); if (!ws.insert(p).second) continue;
        for (auto *u : p->users()) { if (isa<GetElementPtrInst>(u)) w.push_back(u); else if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() == p) st.push_back({s->getValueOperand(), dd, 0}); } else if (auto *m = dyn_cast<MemTransferInst>(u)) { if (m->getRawDest() == p) st.push_back({m->getRawSource(), x.depth, 0}); }
          else if (auto *cb = dyn_cast<CallBase>(u)) { if (cb->isLifetimeStartOrEnd()) continue; for (auto &a : cb->args()) if (a != p) { st.push_back({a, 0, 0}); if (a->getType()->isPointerTy()) { st.push_back({a, 1, 0}); st.push_back({a, 2, 0}); } } } } }
      continue; }
    if (auto *l = dyn_cast<LoadInst>(x.v)) { st.push_back({l->getPointerOperand(), x.depth + 1, 0}); continue; }
    if (auto *g = dyn_cast<GEPOperator>(x.v)) { APInt o(64, 0); long off = x.off; if (g->accumulateConstantOffset(DL, o)) off += o.getSExtValue(); st.push_back({g->getPointerOperand(), x.depth, off}); continue; }
    if (auto *cb = dyn_cast<CallBase>(x.v)) { for (auto &a : cb->args()) { st.push_back({a, 0, 0}); if (a->getType()->isPointerTy()) { st.push_back({a, 1, 0}); st.push_back({a, 2, 0}); } } continue; }
    if (auto *ph = dyn_cast<PHINode>(x.v)) { for (auto &i : ph->incoming_values()) st.push_back({i, x.depth, x.off}); continue; }
    if (auto *u = dyn_cast<User>(x.v)) if (isa<Instruction>(u) || isa<ConstantExpr>(u)) for (auto &o : u->operands()) st.push_back({o, x.depth, x.off});
  }
  return sliceMemo[{F, v0}] = out;
}
// FP comparisons inside a loop that decide v, by data or by control
static std::vector<const FCmpInst *> loopCompares(const Function *F, const Value *v0, const BasicBlock *at, LoopInfo &LI) {
  std::vector<const FCmpInst *> r; std::set<const Value *> seen; std::vector<const Value *> st{v0};
  while (!st.empty() && seen.size() < 3000) { auto *v = st.back(); st.pop_back(); auto *I = dyn_cast<Instruction>(v); if (!I || !seen.insert(v).second) continue;
    if (auto *fc = dyn_cast<FCmpInst>(I)) { if (LI.getLoopFor(fc->getParent())) r.push_back(fc); continue; }
    if (auto *L = LI.getLoopFor(I->getParent()); L && !L->contains(at)) { SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex); for (auto *b : ex) if (auto *br = dyn_cast<BranchInst>(b->getTerminator()); br && br->isConditional()) st.push_back(br->getCondition()); }
    if (isa<LoadInst>(I) || isa<CallBase>(I) || isa<GetElementPtrInst>(I)) continue;
    if (auto *ph = dyn_cast<PHINode>(I)) for (auto *b : ph->blocks()) { std::set<const BasicBlock *> bs; const BasicBlock *q = b; for (int k = 0; k < 6 && q && bs.insert(q).second; k++) { if (auto *br = dyn_cast<BranchInst>(q->getTerminator()); br && br->isConditional()) { st.push_back(br->getCondition()); if (k) break; } q = q->getSinglePredecessor(); } }
    for (auto &o : I->operands()) st.push_back(o); }
  return r;
}
// the loop around fc certainly leaves out elements: it starts after the second one or stops before the last one
static bool partial(const FCmpInst *fc, LoopInfo &LI, const DataLayout &DL) {
  auto *L = LI.getLoopFor(fc->getParent()); struct E { const Value *base = nullptr; int64_t off = 0, extra = 0; bool var = false; };
  auto end = [&](const Value *v) { E e; for (int k = 0; k < 6; k++) { if (auto *g = dyn_cast<GEPOperator>(v)) { APInt o(64, 0); if (g->accumulateConstantOffset(DL, o)) e.extra += o.getSExtValue(); else e.var = true; v = g->getPointerOperand(); } else break; } if (auto *l = dyn_cast<LoadInst>(v)) { APInt o(64, 0); e.base = l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true); e.off = o.getSExtValue(); } return e; };
  for (auto &ph : L->getHeader()->phis()) { for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) if (!L->contains(ph.getIncomingBlock(i))) { auto *v = ph.getIncomingValue(i);
      if (auto *k = dyn_cast<ConstantInt>(v); k && k->getBitWidth() >= 32 && k->getSExtValue() > 1) return true;
      if (!ph.getType()->isPointerTy()) continue; E s = end(v); if (!s.base) continue; if (s.var || s.extra > 8 || s.extra < 0) return true;
      SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex); for (auto *b : ex) if (auto *br = dyn_cast<BranchInst>(b->getTerminator()); br && br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) for (unsigned o = 0; o < 2; o++) { auto *w = ic->getOperand(o); if (auto *wi = dyn_cast<Instruction>(w); wi && L->contains(wi)) continue; E t = end(w); if (!t.base) continue; if (t.base == s.base && (t.var || t.off == s.off || t.extra < -8)) return true; } } }
  return false;
}
const std::vector<Guard> &Ctx::guards(const Function *F, int want) {
  auto key = std::tuple(F, want); auto it = guardMemo.find(key); if (it != guardMemo.end()) return it->second;
  guardMemo[key] = {}; std::vector<Guard> res; std::set<std::tuple<const Instruction *, std::set<Dep>, bool>> have;
  // walk back from the returns that give the wanted result; a state is (block, value still to be found equal to the wanted one)
  std::set<const BasicBlock *> acc; std::set<std::pair<const BasicBlock *, const BasicBlock *>> accEdge; using S = std::pair<const BasicBlock *, const Value *>; std::set<S> seenS; std::vector<S> q; std::set<const Value *> tested;
  auto add = [&](const BasicBlock *b, const Value *v) { if (v) if (auto *k = dyn_cast<ConstantInt>(v)) { if ((int)k->isOne() != want) return false; v = nullptr; } acc.insert(b); if (seenS.insert({b, v}).second) q.push_back({b, v}); return true; };
  for (auto &B : *F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) { if (want == 2) add(&B, nullptr); else if (auto *v = r->getReturnValue()) add(&B, v); }
  while (!q.empty()) { auto [b, v] = q.back(); q.pop_back();
    auto *vi = v ? dyn_cast<Instruction>(v) : nullptr; auto *ph = vi && vi->getParent() == b ? dyn_cast<PHINode>(vi) : nullptr;
    if (v && !ph && (!vi || vi->getParent() == b)) { if (tested.insert(v).second) { Guard g; g.I = vi ? vi : b->getTerminator(); g.val = v; g.deps = slice(F, v); { Facts ff; FactFn &fx = fn(F); fx.solve(); fx.condFacts(v, want, ff); g.opaque = isOpaque(ff); } g.fp = isa<FCmpInst>(v); res.push_back(g); } v = nullptr; }
    for (auto *p : predecessors(b)) { const Value *n = ph ? ph->getIncomingValueForBlock(p) : v; if (add(p, n)) accEdge.insert({p, b}); } }
  auto &FF = fn(F); LoopInfo LI(FF.DT);
  auto mapIn = [&](const CallBase *cb, const std::vector<Guard> &gs, bool loop) { for (auto &g : gs) { Guard n; n.I = g.I; n.fp = g.fp; n.opaque = g.opaque; n.cmps = g.cmps; n.part = g.part; n.loop = g.loop || loop; for (auto &d : g.deps) { if ((unsigned)d.arg >= cb->arg_size()) continue; auto *A = cb->getArgOperand(d.arg); if (d.depth == 0) { for (auto &e : slice(F, A)) n.deps.insert(e); continue; }
        for (auto &e : slice(F, A)) n.deps.insert({e.arg, e.off + (e.depth == 0 ? d.off : 0), e.depth + d.depth}); } if (!have.insert({n.I, n.deps, n.loop}).second) continue; res.push_back(n); } };
  for (auto &B : *F) {
    if (!acc.count(&B)) continue;
    bool loop = LI.getLoopFor(&B) != nullptr;
    for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (!c->isDeclaration() && !c->isIntrinsic() && c != F) mapIn(cb, guards(c, 2), loop);
    auto *br = dyn_cast<BranchInst>(B.getTerminator()); if (!br || !br->isConditional()) continue;
    auto ok = [&](const BasicBlock *s) { return accEdge.count({&B, s}) > 0; };
    bool o0 = ok(br->getSuccessor(0)), o1 = ok(br->getSuccessor(1)); if (o0 == o1) continue;
    { // a branch that only passes on a failure recorded earlier is not a test of the arguments
      std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> st{br->getSuccessor(o0 ? 1 : 0)}; bool re = false, th = false;
      while (!st.empty() && seen.size() < 200) { auto *b = st.back(); st.pop_back(); if (!seen.insert(b).second) continue; for (auto &J : *b) if (auto *c = dyn_cast<CallBase>(&J)) if (auto *f = c->getCalledFunction()) { if (f->getName() == "__cxa_throw") th = true; else if (f->getName().contains("rethrow_exception")) re = true; } for (auto *s : successors(b)) st.push_back(s); }
      if (re && !th) continue; }
    Guard g; g.I = br; g.loop = loop; g.deps = slice(F, br->getCondition()); { Facts ff; FF.solve(); FF.condFacts(br->getCondition(), o0, ff); g.opaque = isOpaque(ff); } if (isa<FCmpInst>(br->getCondition())) g.fp = true; { auto cs = loopCompares(F, br->getCondition(), &B, LI); g.cmps = cs.size(); g.part = !cs.empty(); for (auto *fc : cs) if (!partial(fc, LI, DL)) g.part = false; } res.push_back(g);
    // boolean helper
    const Value *c = br->getCondition(); bool pol = o0; while (auto *x = dyn_cast<BinaryOperator>(c)) { if (x->getOpcode() == Instruction::Xor && isa<ConstantInt>(x->getOperand(1))) { c = x->getOperand(0); pol = !pol; } else break; }
    if (auto *cb = dyn_cast<CallBase>(c)) if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (!f->isDeclaration() && f->getReturnType()->isIntegerTy(1) && f != F) mapIn(cb, guards(f, pol), loop);
  }
  return guardMemo[key] = res;
}

std::map<long, Lin> returnForm(Ctx &C, const Function *F) {
  std::map<long, Lin> r; FactFn &X = C.fn(F); const ReturnInst *R = nullptr; for (auto &B : *F) if (auto *q = dyn_cast<ReturnInst>(B.getTerminator())) { if (R) return {}; R = q; }
  if (!R) return {};
  if (auto *v = R->getReturnValue()) {
    if (auto *st = dyn_cast<StructType>(v->getType())) { const Value *w = v; std::set<unsigned> done; while (auto *iv = dyn_cast<InsertValueInst>(w)) { unsigned k = iv->getIndices()[0]; if (done.insert(k).second) r[C.DL.getStructLayout(st)->getElementOffset(k)] = X.lin(iv->getInsertedValueOperand()); w = iv->getAggregateOperand(); } return r; }
    r[0] = X.lin(v); return r; }
  if (!F->arg_size() || !F->getArg(0)->hasStructRetAttr()) return {};
  std::vector<std::pair<const Value *, int64_t>> st{{F->getArg(0), 0}};
  while (!st.empty()) { auto [p, o] = st.back(); st.pop_back();
    for (auto *u : p->users()) {
      if (auto *g = dyn_cast<GetElementPtrInst>(u)) { APInt a(64, 0); if (g->accumulateConstantOffset(C.DL, a)) st.push_back({g, o + a.getSExtValue()}); }
      else if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() == p) r[o] = X.lin(s->getValueOperand()); }
      else if (auto *m = dyn_cast<MemTransferInst>(u)) { if (m->getRawDest() == p) if (auto *n = dyn_cast<ConstantInt>(m->getLength())) for (uint64_t k = 0; k < n->getZExtValue() && k < 128; k += 8) { Lin a = X.lin(m->getRawSource()); a.c += k; r[o + k] = X.loadAt(m->getRawSource(), a, m, 0); } } } }
  return r;
}
// floating-point values stored behind the arguments of F, by itself or by the library functions it passes them to
struct ArgStore { unsigned arg; int64_t off; Lin l; std::string loc; };
static std::vector<ArgStore> storesOf(Ctx &C, const Function *F, int d) {
  std::vector<ArgStore> r; FactFn &X = C.fn(F);
  for (auto &I : instructions(*F)) {
    if (auto *st = dyn_cast<StoreInst>(&I)) { if (!st->getValueOperand()->getType()->isFloatingPointTy()) continue; APInt off(64, 0); auto *b = st->getPointerOperand()->stripAndAccumulateConstantOffsets(C.DL, off, true); if (auto *A = dyn_cast<Argument>(b)) r.push_back({A->getArgNo(), off.getSExtValue(), X.lin(st->getValueOperand()), locStr(st)}); }
    else if (auto *mt = dyn_cast<MemTransferInst>(&I)) { APInt off(64, 0); auto *A = dyn_cast<Argument>(mt->getRawDest()->stripAndAccumulateConstantOffsets(C.DL, off, true)); auto *n = dyn_cast<ConstantInt>(mt->getLength()); if (!A || !n || n->getZExtValue() > 256) continue;
      for (uint64_t k = 0; k < n->getZExtValue(); k += 8) { Lin a = X.lin(mt->getRawSource()); a.c += k; r.push_back({A->getArgNo(), off.getSExtValue() + (int64_t)k, X.loadAt(mt->getRawSource(), a, mt, 0), locStr(mt)}); } }
    else if (auto *CB = dyn_cast<CallBase>(&I); CB && d < 4) { auto *G = CB->getCalledFunction(); if (!G || G == F || isa<DbgInfoIntrinsic>(CB) || isa<MemSetInst>(CB) || CB->isLifetimeStartOrEnd()) continue;
      if (G->isDeclaration() || !isGbs(G)) { for (auto &a : CB->args()) if (a->getType()->isPointerTy()) { APInt off(64, 0); if (auto *A = dyn_cast<Argument>(a->stripAndAccumulateConstantOffsets(C.DL, off, true)); A && !CB->onlyReadsMemory(a.getOperandNo())) for (int k = 0, n = std::max<int>(8, std::min<int>(64, CB->getParamDereferenceableBytes(a.getOperandNo()))); k < n; k += 8) r.push_back({A->getArgNo(), off.getSExtValue() + k, Lin::atom("?"), locStr(CB)}); } continue; }
      bool any = false; for (auto &a : CB->args()) if (a->getType()->isPointerTy() && isa<Argument>(a->stripInBoundsConstantOffsets())) any = true; if (!any) continue;
      for (auto &s : storesOf(C, G, d + 1)) { if (s.arg >= CB->arg_size()) continue; APInt off(64, 0); auto *b = CB->getArgOperand(s.arg)->stripAndAccumulateConstantOffsets(C.DL, off, true); auto *A = dyn_cast<Argument>(b); if (!A) continue;
        auto t = C.translate(X, CB, Facts{{Fact::EQ0, s.l}}); r.push_back({A->getArgNo(), s.off + off.getSExtValue(), t.empty() ? Lin::atom("?") : t.begin()->l, s.loc}); } } }
  return r;
}
static json::Object linJson(const Lin &l) { json::Object t; for (auto &[k, v] : l.t) t[json::fixUTF8(k)] = v; return json::Object{{"t", std::move(t)}, {"c", l.c}}; }
void factsJson(Ctx &C, const std::string &re, json::Object &root) {
  Regex R(re); json::Array out;
  for (auto &F : *C.P.M) {
    if (F.isDeclaration() || !isGbs(&F)) continue; std::string n = shortName(&F); if (!R.match(n)) continue;
    json::Object o{{"name", n}, {"dem", demangled(&F)}, {"loc", fnLoc(&F)}, {"sret", F.arg_size() && F.getArg(0)->hasStructRetAttr()}, {"nargs", (int64_t)F.arg_size()}};
    json::Array fs; static const char *kn[] = {"GE0", "EQ0", "NE0", "TRUE", "FALSE"};
    for (auto &f : C.retFacts(&F)) { bool op = false; for (auto &[k, v] : f.l.t) if (opaqueStr(k)) op = true; if (op) continue; auto j = linJson(f.l); j["k"] = kn[f.k]; if (f.l.w) j["w"] = true; fs.push_back(std::move(j)); }
    o["facts"] = std::move(fs); json::Array gs; std::set<std::string> seen;
    for (auto &g : C.guards(&F, 2)) { json::Array ds; std::string key = locStr(g.I) + (g.fp ? "f" : "") + (g.opaque ? "o" : ""); for (auto &d : g.deps) { ds.push_back(json::Array{d.arg, (int64_t)d.off, d.depth}); key += "," + std::to_string(d.arg) + "+" + std::to_string(d.off) + "^" + std::to_string(d.depth); } if (!seen.insert(key).second || locStr(g.I)[0] == '/') continue; gs.push_back(json::Object{{"loc", locStr(g.I)}, {"fp", g.fp}, {"loop", g.loop}, {"cmps", g.cmps}, {"part", g.part}, {"opaque", g.opaque}, {"own", g.I->getDebugLoc() && locOf(g.I->getDebugLoc().get()).file[0] != '/'}, {"deps", std::move(ds)}}); }
    o["guards"] = std::move(gs); json::Object rf; for (auto &[k, l] : returnForm(C, &F)) rf[std::to_string(k)] = linJson(l); o["ret"] = std::move(rf);
    { json::Array ss; for (auto &st : storesOf(C, &F, 0)) { auto l = linJson(st.l); l["arg"] = (int64_t)st.arg; l["off"] = st.off; l["loc"] = st.loc; ss.push_back(std::move(l)); } o["stores"] = std::move(ss); }
    out.push_back(std::move(o));
  }
  root["fns"] = std::move(out);
}
