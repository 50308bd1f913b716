#include "effects.h"
#include "llvm/ADT/PostOrderIterator.h"
static const int MAXDEPTH = 4;
bool Summary::operator==(const Summary &o) const {
  auto ks = [](auto &m) { return m.size(); };
  return ks(writes) == ks(o.writes) && ks(reads) == ks(o.reads) && stores == o.stores && fresh == o.fresh && ret == o.ret;
}
int Effects::mk(OK k, int parent, int64_t off, bool any, const Value *v, const Value *org, uint64_t mask) {
  if (k == OK::Deref) {
    auto &p = objs[parent];
    if (p.k == OK::Unknown) return parent;
    if (p.k == OK::Deref && p.org == (const Value *)1) return parent; // already collapsed
    if (p.depth >= MAXDEPTH) { // everything deeper below one root is a single object
      int root = parent; while (objs[root].k == OK::Deref) root = objs[root].parent;
      auto key = std::tuple((int)OK::Deref, root, (int64_t)-1, true, (const Value *)nullptr, (const Value *)1, (uint64_t)0);
      auto it = intern.find(key); if (it != intern.end()) return it->second;
      Obj o{OK::Deref, root, -1, true, objs[root].v}; o.org = (const Value *)1; o.rootK = objs[root].rootK; o.root = objs[root].root; o.depth = MAXDEPTH + 1;
      int id = objs.size(); objs.push_back(o); intern[key] = id; return id;
    }
    if (off < 0 || off > 4096) { any = true; }
    if (any) off = 0;
  }
  auto key = std::tuple((int)k, parent, off, any, v, org, mask);
  auto it = intern.find(key); if (it != intern.end()) return it->second;
  Obj o{k, parent, off, any, v}; o.org = org; o.mask = mask; o.rootK = k;
  if (k == OK::Arg) o.root = parent;
  if (k == OK::Deref) { o.depth = objs[parent].depth + 1; o.root = objs[parent].root; o.rootK = objs[parent].rootK; o.v = objs[parent].v; }
  int id = objs.size(); objs.push_back(o); intern[key] = id; return id;
}
std::string Effects::offStr(const Off &o) const {
  auto sy = [](int s) { return (s < 32 ? "arg" : "*arg") + std::to_string(s & 31); };
  switch (o.k) {
  case Off::C: return o.c ? "+" + std::to_string(o.c) : "";
  case Off::Aff: return "[" + sy(o.sym) + "*" + std::to_string(o.coef) + "+" + std::to_string(o.c) + "]";
  case Off::Var: { std::string s = "[f("; for (int i = 0; i < 64; i++) if (o.mask >> i & 1) s += sy(i) + " "; return s + ")]"; }
  default: return "[*]";
  }
}
std::string Effects::objStr(int i) const {
  auto &o = objs[i];
  switch (o.k) {
  case OK::Arg: return "arg" + std::to_string(o.parent);
  case OK::Deref: if (o.org) return "deep(" + objStr(o.parent) + ")"; return "*(" + objStr(o.parent) + (o.offAny ? offStr(derefOff(o)) : o.off ? "+" + std::to_string(o.off) : "") + ")";
  case OK::Global: return "global " + llvm::demangle(o.v->getName());
  case OK::Local: return "local"; case OK::Fresh: return "fresh"; case OK::SumFresh: return "sumfresh"; default: return "unknown";
  }
}
bool Effects::addPE(PT &d, PE e) {
  auto it = std::lower_bound(d.begin(), d.end(), e);
  if (it != d.end() && *it == e) return false;
  int same = 0; bool hasAny = false; // entries of one object are contiguous
  for (auto j = it; j != d.end() && j->first == e.first; ++j) { same++; if (j->second.k == Off::Any) hasAny = true; }
  for (auto j = it; j != d.begin() && std::prev(j)->first == e.first; --j) { same++; if (std::prev(j)->second.k == Off::Any) hasAny = true; }
  if (hasAny && e.second.k != Off::Any && same >= 6) return false;
  if (same >= 10 && e.second.k != Off::Any) return addPE(d, {e.first, Off::any()});
  if (d.size() >= 80) return false;
  d.insert(it, e); return true;
}
bool Effects::addPT(PT &d, const PT &s) {
  if (s.empty()) return false;
  if (d.empty()) { d = s; return true; }
  if (std::includes(d.begin(), d.end(), s.begin(), s.end())) return false;
  bool c = false; for (auto &e : s) c |= addPE(d, e); return c;
}
Off Effects::addOff(const Off &a, const Off &b) {
  if (a.k == Off::C && b.k == Off::C) return Off::cst(a.c + b.c);
  if (a.k == Off::C && b.k == Off::Aff) { Off o = b; o.c += a.c; return o; }
  if (b.k == Off::C && a.k == Off::Aff) { Off o = a; o.c += b.c; return o; }
  if (a.k == Off::Any && b.k == Off::Any) return Off::any();
  uint64_t m = 0;
  for (auto *x : {&a, &b}) { if (x->k == Off::Aff) m |= 1ull << x->sym; if (x->k == Off::Var) m |= x->mask; }
  if (!m) return Off::any();
  Off o; o.k = Off::Var; o.mask = m; return o;
}
PT Effects::shift(const PT &p, const Off &o) {
  if (o.k == Off::C && o.c == 0) return p;
  PT r; for (auto &e : p) addPE(r, {e.first, addOff(e.second, o)}); return r;
}
Effects::Dep Effects::dep(FnState &S, const Value *v, int d) {
  Dep r; if (d > 12) return r;
  if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() <= 64) { r.known = r.cst = true; r.c = c->getSExtValue(); } return r; }
  if (auto *a = dyn_cast<Argument>(v)) { if (a->getArgNo() < 32 && a->getType()->isIntegerTy()) { r.known = true; r.coef = 1; r.sym = a->getArgNo(); r.mask = 1ull << r.sym; } return r; }
  if (auto *l = dyn_cast<LoadInst>(v)) {
    if (!l->getType()->isIntegerTy()) return r;
    PT p = get(S, l->getPointerOperand());
    if (p.size() == 1 && objs[p[0].first].k == OK::Arg && p[0].second.k == Off::C && objs[p[0].first].parent < 32) {
      int sy = 32 + objs[p[0].first].parent; r.mask = 1ull << sy;
      if (p[0].second.c == 0) { r.known = true; r.coef = 1; r.sym = sy; }
    } else if (!p.empty()) { // an index looked up with an element-dependent address
      uint64_t m = ~0ull; for (auto &[o, off] : p) m &= pathMask(o, off); r.mask = m;
    }
    return r;
  }
  if (auto *pi = dyn_cast<PtrToIntOperator>(v)) { // &element - &first
    if (auto *a = dyn_cast<Argument>(pi->getPointerOperand())) if (a->getArgNo() < 32) r.mask = 1ull << a->getArgNo();
    return r;
  }
  if (auto *ph = dyn_cast<PHINode>(v)) { // loop over an element-dependent range
    if (d < 6) for (auto &in : ph->incoming_values()) if (!isa<PHINode>(in)) { auto *bi = dyn_cast<BinaryOperator>(in); if (bi && (bi->getOperand(0) == ph || bi->getOperand(1) == ph)) continue; r.mask |= dep(S, in, d + 3).mask; }
    return r;
  }
  if (auto *c = dyn_cast<CastInst>(v)) { if (c->getType()->isIntegerTy() && c->getOperand(0)->getType()->isIntegerTy()) return dep(S, c->getOperand(0), d + 1); return r; }
  if (auto *f = dyn_cast<FreezeInst>(v)) return dep(S, f->getOperand(0), d + 1);
  if (auto *b = dyn_cast<BinaryOperator>(v)) {
    Dep x = dep(S, b->getOperand(0), d + 1), y = dep(S, b->getOperand(1), d + 1);
    switch (b->getOpcode()) {
    case Instruction::Add: case Instruction::Or: case Instruction::Sub:
      if (b->getOpcode() == Instruction::Sub) { y.c = -y.c; y.coef = -y.coef; }
      if (x.known && y.known && x.cst && y.cst) { r.known = r.cst = true; r.c = x.c + y.c; return r; }
      if (x.known && y.known && x.sym >= 0 && y.cst) { r = x; r.c += y.c; return r; }
      if (x.known && y.known && y.sym >= 0 && x.cst) { r = y; r.c += x.c; return r; }
      // i + <unknown> overlaps between elements, i*<stride> + <unknown> does not
      if (x.mask && !x.known && !y.mask) { r.mask = x.mask; return r; }
      if (y.mask && !y.known && !x.mask) { r.mask = y.mask; return r; }
      if (x.known && x.sym >= 0 && (x.coef > 1 || x.coef < -1) && !y.mask) { r.mask = x.mask; return r; }
      if (y.known && y.sym >= 0 && (y.coef > 1 || y.coef < -1) && !x.mask) { r.mask = y.mask; return r; }
      return r;
    case Instruction::Mul:
      if (x.known && x.cst && y.known) { r = y; r.c *= x.c; r.coef *= x.c; return r; }
      if (y.known && y.cst && x.known) { r = x; r.c *= y.c; r.coef *= y.c; return r; }
      r.mask = x.mask | y.mask; return r;
    case Instruction::Shl:
      if (y.known && y.cst && x.known && y.c < 32) { r = x; r.c <<= y.c; r.coef <<= y.c; }
      return r;
    case Instruction::SDiv: case Instruction::AShr: case Instruction::LShr: case Instruction::UDiv:
      if (cast<PossiblyExactOperator>(b)->isExact()) r.mask = x.mask;
      return r;
    default: return r;
    }
  }
  return r;
}
Off Effects::toOff(const Dep &d, int64_t s) {
  if (d.known && d.cst) return Off::cst(d.c * s);
  if (d.known && d.sym >= 0) { Off o; o.k = Off::Aff; o.sym = d.sym; o.coef = d.coef * s; o.c = d.c * s; return o; }
  if (d.mask) { Off o; o.k = Off::Var; o.mask = d.mask; return o; }
  return Off::any();
}
Off Effects::mapOff(FnState &S, const CallBase *CB, const Off &o) {
  auto mapSym = [&](int s) -> Dep {
    unsigned i = s & 31; if (i >= CB->arg_size()) return {};
    const Value *a = CB->getArgOperand(i);
    if (s < 32) return dep(S, a);
    a = a->stripPointerCasts();
    if (auto *al = dyn_cast<AllocaInst>(a)) {
      const Value *st = nullptr; int n = 0;
      for (auto *u : al->users()) if (auto *si = dyn_cast<StoreInst>(u)) if (si->getPointerOperand() == al) { st = si->getValueOperand(); n++; }
      if (n == 1 && st->getType()->isIntegerTy()) return dep(S, st);
      return {};
    }
    PT p = get(S, a);
    if (p.size() == 1 && objs[p[0].first].k == OK::Arg && p[0].second == Off::cst(0) && objs[p[0].first].parent < 32) { Dep r; r.known = true; r.coef = 1; r.sym = 32 + objs[p[0].first].parent; r.mask = 1ull << r.sym; return r; }
    return {};
  };
  if (o.k == Off::Aff) { Dep d = mapSym(o.sym); Off r = toOff(d, o.coef); return addOff(r, Off::cst(o.c)); }
  if (o.k == Off::Var) { uint64_t m = 0; for (int i = 0; i < 64; i++) if (o.mask >> i & 1) m |= mapSym(i).mask; if (!m) return Off::any(); Off r; r.k = Off::Var; r.mask = m; return r; }
  return o;
}
PT Effects::get(FnState &S, const Value *v) {
  auto it = S.vals.find(v); if (it != S.vals.end()) return it->second;
  PT r;
  if (auto *a = dyn_cast<Argument>(v)) { if (a->getType()->isPointerTy()) r.push_back({argObj(a->getArgNo()), Off{}}); }
  else if (auto *f = dyn_cast<Function>(v)) r.push_back({mk(OK::Global, -1, 0, false, f), Off{}});
  else if (auto *g = dyn_cast<GlobalVariable>(v)) r.push_back({mk(OK::Global, -1, 0, false, g), Off{}});
  else if (auto *ga = dyn_cast<GlobalAlias>(v)) return get(S, ga->getAliasee());
  else if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { APInt o(64, 0); Off f = Off::any(); if (g->accumulateConstantOffset(DL, o)) f = Off::cst(o.getSExtValue()); r = shift(get(S, g->getPointerOperand()), f); }
    else if (ce->isCast()) r = get(S, ce->getOperand(0));
  }
  return r;
}
PT Effects::load(FnState &S, const PT &ptrs) {
  PT r;
  for (auto &[o, off] : ptrs) {
    auto &ob = objs[o];
    if (ob.k == OK::Unknown) { addPE(r, {o, Off{}}); continue; }
    auto it = S.mem.find(o);
    if (it != S.mem.end()) for (auto &[k, pt] : it->second) if (off.k != Off::C || k.k != Off::C || k.c == off.c) addPT(r, pt);
    if (ob.k == OK::Arg || ob.k == OK::Deref || ob.k == OK::Global) {
      if (ob.k == OK::Global) { if (!isa<GlobalVariable>(ob.v) || cast<GlobalVariable>(ob.v)->isConstant()) continue; }
      addPE(r, {deref(o, off), Off{}});
    }
  }
  return r;
}
static Off memKey(const Off &o) { return o.k == Off::C ? o : Off::any(); }
void Effects::store(FnState &S, const Function *F, const PT &ptrs, const PT &val) {
  if (val.empty()) return;
  for (auto &[o, off] : ptrs) {
    if (objs[o].k == OK::Unknown) continue;
    auto &mo = S.mem[o]; Off k = memKey(off);
    if (k.k == Off::C && (k.c < 0 || k.c > 4096 || (mo.size() >= 16 && !mo.count(k)))) k = Off::any();
    S.changed |= addPT(mo[k], val);
  }
}
bool Effects::underLock(const Instruction *I) {
  const Function *F = I->getFunction();
  auto it = locks.find(F);
  if (it == locks.end()) {
    std::vector<const Instruction *> l;
    for (auto &J : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&J)) if (auto *c = cb->getCalledFunction()) {
      StringRef n = c->getName();
      if (n == "pthread_mutex_lock" || n.contains("mutex4lockEv") || n.contains("mutex_lock")) l.push_back(&J);
    }
    it = locks.emplace(F, l).first;
  }
  for (auto *l : it->second) if (dt(F).dominates(l, I)) return true;
  return false;
}
bool Effects::exemptGlobal(const GlobalVariable *g, const Instruction *I) {
  if (g->isThreadLocal()) { // the first-use initialisation is not a change of state
    for (auto &J : instructions(*I->getFunction())) if (auto *l = dyn_cast<LoadInst>(&J)) { const Value *p = l->getPointerOperand()->stripPointerCasts(); if (auto *cb = dyn_cast<CallBase>(p)) if (cb->getIntrinsicID() == Intrinsic::threadlocal_address) p = cb->getArgOperand(0);
      if (auto *gg = dyn_cast<GlobalVariable>(p); gg && startsWith(gg->getName(), "_ZGV")) for (auto *u : J.users()) for (auto *u2 : u->users()) if (auto *br = dyn_cast<BranchInst>(u2)) for (auto *s : br->successors()) if (s->getSinglePredecessor() && s != &I->getFunction()->getEntryBlock() && dt(I->getFunction()).dominates(s, I->getParent())) return true; }
  }
  StringRef n = g->getName();
  if (startsWith(n, "_ZGV")) return true;                       // guard variables
  if (startsWith(n, "_ZSt") || startsWith(n, "_ZTI") || n == "__dso_handle") return true; // iostreams, rtti
  // one-time initialisation under a static guard (executed once, serialised by the runtime)
  for (auto &J : instructions(*I->getFunction())) if (auto *cb = dyn_cast<CallBase>(&J)) if (auto *c = cb->getCalledFunction())
    if (c->getName() == "__cxa_guard_acquire")
      for (auto *u : J.users()) for (auto *u2 : u->users()) if (auto *br = dyn_cast<BranchInst>(u2)) for (auto *s : br->successors())
        if (s->getSinglePredecessor() && dt(I->getFunction()).dominates(s, I->getParent())) return true;
  if (startsWith(I->getFunction()->getName(), "__cxx_global_var_init") || startsWith(I->getFunction()->getName(), "_GLOBAL__sub_I")) return true;
  return false;
}
void Effects::effect(const Function *F, const PT &ptrs, const Instruction *I, const Function *cal, const Eff *ce, bool write) {
  for (auto &[o, off] : ptrs) {
    auto &ob = objs[o];
    if (ob.k == OK::Unknown) { if (write) unknownWrites++; continue; }
    if (ob.k == OK::Local || ob.k == OK::Fresh || ob.k == OK::SumFresh) continue;
    if (ob.k == OK::Arg && (unsigned)ob.parent < F->arg_size() && F->getArg(ob.parent)->hasByValAttr()) continue;
    if (ob.rootK == OK::Global) {
      auto *g = dyn_cast_or_null<GlobalVariable>(ob.v); if (!g) continue;
      if (!write && g->isConstant()) continue;
      if (write && (g->isConstant() || exemptGlobal(g, I))) continue;
    }
    if (write && underLock(I)) continue;
    Eff e{o, off};
    if (write && ob.rootK == OK::Arg) argWrites[F][ob.root].insert(I);
    if (off.k == Off::C && (off.c < 0 || off.c > 4096)) e.off = Off::any();
    auto &m = write ? sum[F].writes : sum[F].reads;
    if (e.off.k != Off::Any && !m.count(e)) {
      int same = 0; for (auto it = m.lower_bound(Eff{o, Off{}}); it != m.end() && it->first.obj == o; ++it) same++;
      if (same >= 24) e.off = Off::any();
    }
    if (!write && (ob.depth > MAXDEPTH || m.size() > 400)) continue;
    if (m.size() > 2000) continue;
    Wit w; w.I = I; w.callee = cal; if (ce) w.ce = *ce;
    if (m.emplace(e, w).second) st[F].changed = true;
  }
}
void Effects::copyMem(FnState &S, const Function *F, const PT &d, const PT &s, std::optional<uint64_t> len) {
  std::vector<std::pair<Off, PT>> items;
  for (auto &[so, soff] : s) {
    auto it = S.mem.find(so);
    if (it != S.mem.end()) for (auto &[k, pt] : it->second) {
      if (k.k == Off::C && soff.k == Off::C) { int64_t rel = k.c - soff.c; if (rel < 0 || (len && rel >= (int64_t)*len)) continue; items.push_back({Off::cst(rel), pt}); }
      else items.push_back({Off::any(), pt});
    }
    auto &ob = objs[so];
    if (ob.k == OK::Unknown) { items.push_back({Off::any(), PT{{so, Off{}}}}); continue; }
    if (ob.k == OK::Arg || ob.k == OK::Deref || (ob.k == OK::Global && isa<GlobalVariable>(ob.v) && !cast<GlobalVariable>(ob.v)->isConstant())) {
      if (soff.k == Off::C && len && *len <= 128) for (uint64_t q = 0; q + 8 <= *len; q += 8) items.push_back({Off::cst(q), PT{{mk(OK::Deref, so, soff.c + q, false, nullptr), Off{}}}});
      else items.push_back({Off::any(), PT{{mk(OK::Deref, so, 0, true, nullptr), Off{}}}});
    }
  }
  for (auto &[k, pt] : items) store(S, F, k.k == Off::C ? shift(d, k) : shift(d, Off::any()), pt);
}
// true when type-based alias metadata says the accessed scalar is not a pointer
static bool scalarTbaaNonPtr(const MDNode *tag) {
  if (!tag || tag->getNumOperands() < 2) return false;
  const MDNode *acc = dyn_cast_or_null<MDNode>(tag->getNumOperands() >= 3 ? tag->getOperand(1).get() : nullptr);
  if (!acc || !acc->getNumOperands()) return false;
  auto *s = dyn_cast<MDString>(acc->getOperand(0)); if (!s) return false;
  StringRef n = s->getString();
  return n == "double" || n == "float" || n == "long" || n == "int" || n == "short" || n == "bool" || n == "long double" || n == "long long" || startsWith(n, "_ZTSN3gbs") || startsWith(n, "_ZTSSt");
}
static bool nonPtrCopy(const Instruction *I) {
  if (I->getMetadata("gbs.nonptr")) return true;
  if (auto *t = I->getMetadata(LLVMContext::MD_tbaa_struct)) {
    bool all = t->getNumOperands() > 0;
    for (unsigned i = 2; i < t->getNumOperands(); i += 3) all &= scalarTbaaNonPtr(dyn_cast<MDNode>(t->getOperand(i)));
    return all;
  }
  return false;
}
static bool carries(Type *t) { return t->isPointerTy() || t->isAggregateType() || (t->isIntegerTy() && t->getIntegerBitWidth() >= 64) || (t->isVectorTy() && t->getScalarType()->isPointerTy()); }
bool Effects::model(FnState &S, const Function *F, const CallBase *CB, const Function *C) {
  StringRef n = C->getName();
  auto fresh = [&] { S.changed |= addPE(S.vals[CB], {mk(OK::Fresh, -1, 0, false, CB, CB), Off{}}); };
  if (C->isIntrinsic()) {
    if (auto *mt = dyn_cast<MemTransferInst>(CB)) {
      PT d = get(S, mt->getDest()), s = get(S, mt->getSource()); std::optional<uint64_t> len; if (auto *c = dyn_cast<ConstantInt>(mt->getLength())) len = c->getZExtValue();
      if (len && *len == 0) return true; bool np = nonPtrCopy(CB);
      auto widen = [&](PT p) { if (!len) for (auto &e : p) if (e.second.k == Off::C) e.second = Off::any(); return p; };
      effect(F, widen(d), CB, nullptr, nullptr, true); effect(F, widen(s), CB, nullptr, nullptr, false); if (!np) copyMem(S, F, d, s, len);
    } else if (auto *ms = dyn_cast<MemSetInst>(CB)) effect(F, isa<ConstantInt>(ms->getLength()) ? get(S, ms->getDest()) : shift(get(S, ms->getDest()), Off::any()), CB, nullptr, nullptr, true);
    else if (C->getIntrinsicID() == Intrinsic::threadlocal_address || C->getIntrinsicID() == Intrinsic::launder_invariant_group || C->getIntrinsicID() == Intrinsic::strip_invariant_group) S.changed |= addPT(S.vals[CB], get(S, CB->getArgOperand(0)));
    return true;
  }
  // reference counting, by specification not an observable modification
  if (n.contains("_Sp_counted_base") && (n.contains("_M_release") || n.contains("_M_add_ref") || n.contains("_M_weak"))) return true;
  if (n.contains("__exchange_and_add") || n.contains("__atomic_add")) return true;
  if (!C->isDeclaration()) return false;
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc" || n == "__cxa_allocate_exception" || n == "_ZnwmSt11align_val_t" || n == "aligned_alloc") { fresh(); return true; }
  if (n == "realloc") { fresh(); S.changed |= addPT(S.vals[CB], get(S, CB->getArgOperand(0))); return true; }
  if (n == "nlopt_optimize") { effect(F, get(S, CB->getArgOperand(1)), CB, nullptr, nullptr, true); return true; }
  if (n == "nlopt_set_min_objective" || n == "nlopt_set_max_objective" ) {
    for (auto &[o, off] : get(S, CB->getArgOperand(1))) if (auto *f = dyn_cast_or_null<Function>(objs[o].v)) { callers[f].insert(F); callees[F][CB].insert(f); }
    return true;
  }
  if (n.contains("basic_string") && n.contains("C2") == false && !startsWith(n, "_ZNK")) { if (CB->arg_size()) { effect(F, get(S, CB->getArgOperand(0)), CB, nullptr, nullptr, true); if (CB->getType()->isPointerTy()) S.changed |= addPT(S.vals[CB], get(S, CB->getArgOperand(0))); } return true; }
  if (n.contains("_Rb_tree_insert_and_rebalance") || n.contains("_Rb_tree_rebalance_for_erase")) { for (auto &a : CB->args()) effect(F, get(S, a), CB, nullptr, nullptr, true);
    PT n0 = get(S, CB->getArgOperand(1)); for (unsigned i = 1; i < CB->arg_size(); i++) { PT a = get(S, CB->getArgOperand(i)); store(S, F, shift(a, Off::any()), n0); store(S, F, shift(n0, Off::any()), a); } return true; }
  if (n.contains("_Rb_tree_increment") || n.contains("_Rb_tree_decrement")) { PT a = get(S, CB->getArgOperand(0)); S.changed |= addPT(S.vals[CB], a); S.changed |= addPT(S.vals[CB], load(S, shift(a, Off::any()))); return true; }
  if (n.contains("_List_node_base")) { for (auto &a : CB->args()) effect(F, get(S, a), CB, nullptr, nullptr, true); 
    if (CB->arg_size() >= 2) { PT a = get(S, CB->getArgOperand(0)), b = get(S, CB->getArgOperand(1)); store(S, F, shift(a, Off::any()), b); store(S, F, shift(b, Off::any()), a); } return true; }
  if (n == "__dynamic_cast" || n == "__cxa_begin_catch") { S.changed |= addPT(S.vals[CB], get(S, CB->getArgOperand(0))); return true; }
  if (n == "memcpy" || n == "memmove") { effect(F, get(S, CB->getArgOperand(0)), CB, nullptr, nullptr, true); copyMem(S, F, get(S, CB->getArgOperand(0)), get(S, CB->getArgOperand(1)), {}); return true; }
  if (!C->doesNotAccessMemory()) unmodelled[n.str()]++;
  return true;
}
void Effects::apply(FnState &S, const Function *F, const CallBase *CB, const Function *C) {
  callers[C].insert(F); callees[F][CB].insert(C);
  if (model(S, F, CB, C)) return;
  if (!sum.count(C)) { push(C); return; }
  const Summary sm = C == F ? sum[C] : Summary(); const Summary &s = C == F ? sm : sum[C];
  std::map<int, PT> memo;
  std::function<PT(int)> mapO = [&](int o) -> PT {
    auto it = memo.find(o); if (it != memo.end()) return it->second;
    memo[o] = {}; PT r; Obj ob = objs[o];
    switch (ob.k) {
    case OK::Arg: if ((unsigned)ob.parent < CB->arg_size()) r = get(S, CB->getArgOperand(ob.parent)); break;
    case OK::Deref:
      if (ob.org) { // collapsed: everything reachable below the root
        PT cur = mapO(ob.parent); for (int i = 0; i < MAXDEPTH + 1; i++) { cur = load(S, shift(cur, Off::any())); if (i >= MAXDEPTH - 1) addPT(r, cur); }
        r = shift(r, Off::any()); break;
      }
      r = load(S, shift(mapO(ob.parent), mapOff(S, CB, derefOff(ob)))); break;
    case OK::Global: r = {{o, Off{}}}; break;
    case OK::SumFresh: r = {{mk(OK::Fresh, -1, 0, false, CB, ob.org), Off{}}}; break;
    case OK::Unknown: r = {{o, Off{}}}; break;
    default: break;
    }
    return memo[o] = r;
  };
  auto mapPT = [&](const PT &p) { PT r; for (auto &[o, off] : p) addPT(r, shift(mapO(o), mapOff(S, CB, off))); return r; };
  for (auto &[e, w] : s.writes) effect(F, shift(mapO(e.obj), mapOff(S, CB, e.off)), CB, C, &e, true);
  for (auto &[e, w] : s.reads) effect(F, shift(mapO(e.obj), mapOff(S, CB, e.off)), CB, C, &e, false);
  for (auto &[k, v] : s.stores) store(S, F, shift(mapO(k.first), k.second), mapPT(v));
  for (auto &[k, v] : s.fresh) store(S, F, shift(mapO(k.first), k.second), mapPT(v));
  if (!CB->getType()->isVoidTy()) S.changed |= addPT(S.vals[CB], mapPT(s.ret));
}
void Effects::analyse(const Function *F) {
  auto sumFresh = [&](int o) { return mk(OK::SumFresh, -1, 0, false, nullptr, objs[o].k == OK::Local ? objs[o].v : objs[o].org); };
  FnState &S = st[F]; Summary before = sum[F]; // key/witness copy is fine (small)
  size_t bw = sum[F].writes.size(), br = sum[F].reads.size();
  ReversePostOrderTraversal<const Function *> RPO(F);
  std::vector<const BasicBlock *> order(RPO.begin(), RPO.end());
  for (int iter = 0; iter < 30; iter++) {
    S.changed = false;
    for (auto *BB : order) for (auto &I : *BB) {
      if (auto *al = dyn_cast<AllocaInst>(&I)) { S.changed |= addPE(S.vals[al], {mk(OK::Local, -1, 0, false, al), Off{}}); continue; }
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        PT b = get(S, g->getPointerOperand()); if (b.empty()) continue;
        Off o = Off::cst(0);
        for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
          if (auto *stt = gi.getStructTypeOrNull()) o = addOff(o, Off::cst(DL.getStructLayout(stt)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue())));
          else o = addOff(o, toOff(dep(S, gi.getOperand()), DL.getTypeAllocSize(gi.getIndexedType())));
        }
        S.changed |= addPT(S.vals[g], shift(b, o)); continue;
      }
      if (auto *l = dyn_cast<LoadInst>(&I)) {
        PT p = get(S, l->getPointerOperand());
        effect(F, p, l, nullptr, nullptr, false);
        if (!carries(l->getType()) || scalarTbaaNonPtr(l->getMetadata(LLVMContext::MD_tbaa))) continue;
        uint64_t sz = DL.getTypeStoreSize(l->getType());
        for (uint64_t q = 0; q == 0 || (q < sz && q < 64); q += 8) S.changed |= addPT(S.vals[l], load(S, shift(p, Off::cst(q))));
        continue;
      }
      if (auto *s = dyn_cast<StoreInst>(&I)) {
        PT p = get(S, s->getPointerOperand());
        effect(F, p, s, nullptr, nullptr, true);
        if (carries(s->getValueOperand()->getType()) && !scalarTbaaNonPtr(s->getMetadata(LLVMContext::MD_tbaa))) store(S, F, p, get(S, s->getValueOperand()));
        continue;
      }
      if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<FreezeInst>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I)) {
        if (!carries(I.getType())) continue;
        if (auto *pn = dyn_cast<PHINode>(&I)) { for (auto &v : pn->incoming_values()) S.changed |= addPT(S.vals[&I], get(S, v)); }
        else if (auto *se = dyn_cast<SelectInst>(&I)) { S.changed |= addPT(S.vals[&I], get(S, se->getTrueValue())); S.changed |= addPT(S.vals[&I], get(S, se->getFalseValue())); }
        else for (auto &op : I.operands()) if (carries(op->getType())) S.changed |= addPT(S.vals[&I], get(S, op));
        continue;
      }
      if (auto *b = dyn_cast<BinaryOperator>(&I)) {
        if (b->getType()->isIntegerTy(64)) for (auto &op : b->operands()) if (isa<PtrToIntInst>(op) && b->getOpcode() != Instruction::Sub) S.changed |= addPT(S.vals[b], shift(get(S, op), Off::any()));
        continue;
      }
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (cb->isInlineAsm()) continue;
        if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { apply(S, F, cb, c); continue; }
        bool isV; auto ts = P.virtualTargets(cb, isV);
        if (isV) { for (auto *t : ts) apply(S, F, cb, t); if (ts.empty()) unresolved.insert(&I); continue; }
        bool any = false;
        PT cp = get(S, cb->getCalledOperand());
        for (auto &[o, off] : cp) if (auto *f = dyn_cast_or_null<Function>(objs[o].v)) if (objs[o].k == OK::Global && f->arg_size() == cb->arg_size()) { any = true; apply(S, F, cb, f); }
        if (!any) unresolved.insert(&I); else unresolved.erase(&I);
        continue;
      }
      if (auto *r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue() && carries(r->getReturnValue()->getType())) { PT v = get(S, r->getReturnValue()); PT t; for (auto &[o, off] : v) { auto k = objs[o].k; if (k == OK::Local || k == OK::Fresh) addPE(t, {sumFresh(o), off.k == Off::C ? off : Off::any()}); else addPE(t, {o, off}); } S.changed |= addPT(sum[F].ret, t); } continue; }
    }
    if (!S.changed) break;
  }
  // export pointer stores and the contents of escaping fresh memory
  Summary &sm = sum[F];
  std::set<int> esc; std::vector<int> q;
  auto xl = [&](const PT &v) { PT t; for (auto &[o, off] : v) { auto k = objs[o].k; if (k == OK::Local || k == OK::Fresh) { if (esc.insert(o).second) q.push_back(o); addPE(t, {sumFresh(o), off.k == Off::C ? off : Off::any()}); } else addPE(t, {o, off}); } return t; };
  for (auto &[k, v] : S.vals) (void)k;
  for (auto &BB : *F) if (auto *r = dyn_cast<ReturnInst>(BB.getTerminator())) if (r->getReturnValue() && carries(r->getReturnValue()->getType())) xl(get(S, r->getReturnValue()));
  for (auto &[o, m] : S.mem) { auto k = objs[o].k; if (k == OK::Arg || k == OK::Deref || k == OK::Global) for (auto &[off, pt] : m) addPT(sm.stores[{o, off}], xl(pt)); }
  while (!q.empty()) { int o = q.back(); q.pop_back(); auto it = S.mem.find(o); if (it != S.mem.end()) for (auto &[off, pt] : it->second) { PT t = xl(pt); addPT(sm.fresh[{sumFresh(o), off}], t); } }
  if (bw != sm.writes.size() || br != sm.reads.size() || !(before.stores == sm.stores) || !(before.fresh == sm.fresh) || !(before.ret == sm.ret))
    for (auto *c : callers[F]) push(c);
}
void Effects::run() {
  // bottom-up order over direct calls
  std::set<const Function *> seen; std::vector<const Function *> order;
  std::function<void(const Function *)> dfs = [&](const Function *F) {
    if (F->isDeclaration() || !seen.insert(F).second) return;
    for (auto &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
      if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) dfs(c);
      else { bool v; for (auto *t : P.virtualTargets(cb, v)) dfs(t); }
    }
    order.push_back(F);
  };
  for (auto &F : *P.M) if (!isDrv(&F)) dfs(&F);
  for (size_t i = 0; i < order.size(); i++) rank[order[i]] = i;
  for (auto *F : order) push(F);
  size_t n = 0; bool trace = getenv("GBSA_TRACE"); std::map<const Function *, int> cnt;
  while (!wl.empty()) {
    auto *F = wl.begin()->second; wl.erase(wl.begin());
    if (F->isDeclaration()) continue;
    auto t0 = clock(); analyse(F); double dt = double(clock() - t0) / CLOCKS_PER_SEC;
    if (trace && dt > 0.2) errs() << n << " " << dt << "s #" << ++cnt[F] << " w" << sum[F].writes.size() << " r" << sum[F].reads.size() << " st" << sum[F].stores.size() << " fr" << sum[F].fresh.size() << " left" << wl.size() << " " << demangled(F).substr(0, 140) << "\n";
    if (++n > order.size() * 40) { errs() << "effects: no fixpoint\n"; exit(3); }
  }
}
const Instruction *Effects::origin(const Function *F, Eff e, const Function **in) const {
  const Instruction *last = nullptr; std::set<std::pair<const Function *, int>> seen;
  for (int d = 0; d < 60; d++) {
    auto s = sum.find(F); if (s == sum.end()) break; auto it = s->second.writes.find(e); if (it == s->second.writes.end()) break;
    last = it->second.I; if (in) *in = F; if (!it->second.callee) break; F = it->second.callee; e = it->second.ce;
  }
  return last;
}
std::vector<std::string> Effects::chain(const Function *F, Eff e, bool write) const {
  std::vector<std::string> r;
  for (int d = 0; d < 60; d++) {
    auto s = sum.find(F); if (s == sum.end()) break; auto &m = write ? s->second.writes : s->second.reads; auto it = m.find(e); if (it == m.end()) break;
    std::string dn = demangled(F); if (dn.size() > 160) dn = dn.substr(0, 160) + "...";
    r.push_back(locStr(it->second.I) + " in " + dn); if (!it->second.callee) break; F = it->second.callee; e = it->second.ce;
  }
  return r;
}
