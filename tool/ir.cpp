#include "ir.h"
std::string shortName(const Function *F);
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CGSCCPassManager.h"
// Captures of a lambda that its body never reads: the stores that fill them are marked. Done per module, where a closure has one type.
static void markCaptures(Module &M) {
  auto &DL = M.getDataLayout(); std::set<std::pair<Type *, uint64_t>> read;
  auto closure = [](Type *t) { auto *s = dyn_cast<StructType>(t); return s && s->hasName() && s->getName().starts_with("class.anon"); };
  for (auto &F : M) for (auto &B : F) for (auto &I : B) if (auto *g = dyn_cast<GetElementPtrInst>(&I); g && closure(g->getSourceElementType())) { APInt o(64, 0); bool filled = !g->use_empty(); for (auto *u : g->users()) { auto *s = dyn_cast<StoreInst>(u); filled &= s && s->getPointerOperand() == g; } if (!filled && g->accumulateConstantOffset(DL, o)) { uint64_t n = g->getResultElementType()->isSized() ? DL.getTypeAllocSize(g->getResultElementType()).getFixedValue() : 8; for (uint64_t k = 0; k < std::max<uint64_t>(n, 1); k++) read.insert({g->getSourceElementType(), o.getZExtValue() + k}); } }
  for (auto &F : M) for (auto &B : F) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) { APInt o(64, 0); auto *a = dyn_cast<AllocaInst>(s->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true));
    if (a && closure(a->getAllocatedType()) && !o.isZero() && !read.count({a->getAllocatedType(), o.getZExtValue()})) s->setMetadata("gbs.unused", MDNode::get(M.getContext(), {})); }
}
// Writes to the fields of half-edge entities, noted while the field addresses still carry their type.
static void markEntityWrites(Module &M, Prog &P) {
  auto field = [](const Value *p) { for (int i = 0; i < 3; i++) { if (auto *g = dyn_cast<GetElementPtrInst>(p)) { auto *t = dyn_cast<StructType>(g->getSourceElementType()); if (t && t->hasName() && (t->getName().starts_with("struct.gbs::HalfEdge") || t->getName().starts_with("class.gbs::HalfEdge"))) return true; p = g->getPointerOperand(); } else if (auto *c = dyn_cast<CallBase>(p); c && c->getCalledFunction() && c->arg_size() && c->getCalledFunction()->getName().contains("ixE")) p = c->getArgOperand(0); else break; } return false; };
  for (auto &F : M) for (auto &B : F) for (auto &I : B) { bool w = false;
    if (auto *s = dyn_cast<StoreInst>(&I)) w = field(s->getPointerOperand());
    else if (auto *m = dyn_cast<MemIntrinsic>(&I)) w = field(m->getRawDest());
    else if (auto *c = dyn_cast<CallBase>(&I); c && c->getCalledFunction() && c->arg_size()) { auto n = c->getCalledFunction()->getName(); if (n.contains("aSE") || n.contains("5resetE") || n.contains("4swapE") || n.contains("EaSI")) for (unsigned k = 0; k < c->arg_size() && k < 2; k++) if (c->getArgOperand(k)->getType()->isPointerTy() && (k == 0 || n.contains("4swapE"))) w |= field(c->getArgOperand(k)); }
    if (w && isGbs(&F)) P.entityWrites.push_back({shortName(&F), locOf(I.getDebugLoc().get()), fnLoc(&F), F.getName().str()}); }
}
// Sequences taken from a container that is sorted or hashed by address: its order differs from run to run.
static void markAddressOrder(Module &M, Prog &P) {
  auto key = [](StringRef n, StringRef cls) { size_t p = 0; while ((p = n.find(cls, p)) != StringRef::npos) { StringRef t = n.drop_front(p + cls.size()); if (t.starts_with("St4pairIK")) t = t.drop_front(9); if (t.starts_with("P") || t.starts_with("St10shared_ptrI") || t.starts_with("St8weak_ptrI") || t.starts_with("St10unique_ptrI")) return true; p += cls.size(); } return false; };
  auto iter = [&](StringRef n) { for (auto *c : {"_Rb_tree_iteratorI", "_Rb_tree_const_iteratorI", "_Node_iteratorI", "_Node_const_iteratorI"}) if (key(n, c)) return true; return false; };
  auto seq = [](StringRef n) { return n.contains("St6vectorI") || n.contains("cxx114listI") || n.contains("St5dequeI") || n.contains("St5queueI") || n.contains("St5stackI") || n.contains("cxx1112basic_stringI"); };
  for (auto &F : M) { if (F.isDeclaration() || !isGbs(&F)) continue;
    // addresses compared, hashed or turned into numbers
    for (auto &I : instructions(F)) { const char *w = nullptr;
      if (auto *c = dyn_cast<CallBase>(&I); c && c->getCalledFunction()) { auto n = c->getCalledFunction()->getName();
        if (n.starts_with("_ZStssI") && n.contains("St10shared_ptrI")) w = "compares addresses"; // operator<=>
        else if (n.starts_with("_ZStltI") && n.substr(0, 60).contains("St10shared_ptrI") && !n.starts_with("_ZStltISt10shared_ptrIT")) w = "compares addresses";
        else if ((n.starts_with("_ZNKSt4hashIP") || n.starts_with("_ZNKSt4hashISt10shared_ptrI") || n.starts_with("_ZNKSt4lessIP") || n.starts_with("_ZNKSt4lessISt10shared_ptrI") || n.starts_with("_ZNKSt7greaterI")) && n.contains("clE") && (n.contains("IP") || n.contains("shared_ptr"))) w = "compares addresses";
        else if (n.contains("12owner_beforeI")) w = "compares addresses";
        else if (n.starts_with("_ZNSt7__cxx114listISt10shared_ptrI") && n.ends_with("4sortEv")) w = "sorts by address";
        else if (n.starts_with("_ZSt4sortI") || n.starts_with("_ZSt11stable_sortI") || n.starts_with("_ZSt11max_elementI") || n.starts_with("_ZSt11min_elementI") || n.starts_with("_ZSt11lower_boundI") || n.starts_with("_ZSt9nth_elementI")) { StringRef h = n; if ((h.contains("normal_iteratorIPSt10shared_ptrI") || h.contains("normal_iteratorIPP") || h.contains("_List_iteratorISt10shared_ptrI")) && !h.contains("UlR") && !h.contains("UlT") && !h.contains("St7greater") && c->arg_size() <= 2) w = "sorts by address"; } }
      if (w) P.addrOrder.push_back({shortName(&F), locOf(I.getDebugLoc().get()), w, {}, F.getName().str()}); }
    bool step = false, deref = false; const CallBase *begin = nullptr; std::vector<const CallBase *> walks; std::vector<std::pair<const CallBase *, const char *>> hits; bool algo = false;
    for (auto &I : instructions(F)) { auto *c = dyn_cast<CallBase>(&I); if (!c || !c->getCalledFunction()) continue; auto n = c->getCalledFunction()->getName();
      if (iter(n) && n.ends_with("ppEv")) { step = true; walks.push_back(c); continue; }
      if (iter(n) && (n.ends_with("deEv") || n.ends_with("ptEv"))) { deref = true; continue; }
      if ((n.ends_with("5beginEv") || n.ends_with("6cbeginEv")) && (n.contains("St3mapI") || n.contains("St3setI") || n.contains("multimapI") || n.contains("multisetI") || n.contains("unordered_mapI") || n.contains("unordered_setI"))) { bool k = false; for (auto *t : {"3mapI", "3setI", "8multimapI", "8multisetI", "13unordered_mapI", "13unordered_setI", "18unordered_multimapI", "18unordered_multisetI"}) k |= key(n, t); if (k) begin = c; continue; }
      if (!iter(n)) continue;
      if (n.starts_with("_ZSt")) { StringRef t = n.drop_front(4); unsigned len = 0; if (t.consumeInteger(10, len)) continue; StringRef a = t.substr(0, len); algo = true;
        for (auto *o : {"transform", "copy", "copy_if", "copy_n", "accumulate", "reduce", "transform_reduce", "inner_product", "partial_sum", "back_inserter", "next", "advance"}) if (a == o) hits.push_back({c, "passes them to an algorithm that keeps their order"}); }
      else if (seq(n.substr(0, 20)) && (n.contains("C1I") || n.contains("C2I") || n.contains("6assignI") || n.contains("6insertI"))) hits.push_back({c, "makes a sequence of them"}); else if (!n.contains("C1E") && !n.contains("C2E") && !n.ends_with("eqERKS5_S8_")) algo |= n.contains("St9_") ; }
    P.addrWalks += walks.size() + hits.size();
    for (auto &[c, w] : hits) P.addrOrder.push_back({shortName(&F), locOf(c->getDebugLoc().get()), w, {}, F.getName().str()});
    if (begin && deref && !step && !algo && hits.empty()) P.addrOrder.push_back({shortName(&F), locOf(begin->getDebugLoc().get()), "picks the first of them", {}, F.getName().str()});
    if (walks.empty()) continue;
    DominatorTree DT(F); LoopInfo LI(DT);
    for (auto *w : walks) { auto *L = LI.getLoopFor(w->getParent()); if (!L) continue; std::vector<std::string> calls; const CallBase *app = nullptr;
      for (auto *b : L->blocks()) for (auto &I : *b) if (auto *c = dyn_cast<CallBase>(&I); c && c->getCalledFunction()) { auto n = c->getCalledFunction()->getName();
        if (seq(n.substr(0, 20)) && (n.contains("9push_back") || n.contains("12emplace_back") || n.contains("10push_front") || n.contains("13emplace_front") || n.contains("4pushE") || n.contains("6insert") || n.contains("7emplace"))) app = app ? app : c;
        if (n.starts_with("_ZNSt15back_insert_iterator") || n.starts_with("_ZStlsI") || n.starts_with("_ZNSolsE")) app = app ? app : c;
        if (isGbs(c->getCalledFunction())) calls.push_back(n.str()); }
      if (app) P.addrOrder.push_back({shortName(&F), locOf(app->getDebugLoc().get()), "appends while walking over them", {}, F.getName().str()});
      else if (!calls.empty()) P.addrOrder.push_back({shortName(&F), locOf(w->getDebugLoc().get()), "changes the mesh while walking over them", calls, F.getName().str()}); } } }
void Prog::load(const std::vector<std::string> &files) {
  SMDiagnostic err;
  M = std::make_unique<Module>("gbs", ctx);
  Linker L(*M);
  for (auto &f : files) {
    auto m = parseIRFile(f, err, ctx);
    if (!m) { errs() << "cannot read " << f << ": " << err.getMessage() << "\n"; exit(3); }
    markCaptures(*m); markEntityWrites(*m, *this); markAddressOrder(*m, *this);
    if (M->getDataLayoutStr().empty()) { M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); }
    if (L.linkInModule(std::move(m))) { errs() << "link failed " << f << "\n"; exit(3); }
  }
}
void Prog::runPasses(const std::string &pipeline) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, pipeline)) { errs() << "bad pipeline " << toString(std::move(e)) << "\n"; exit(3); }
  MPM.run(*M, MAM);
}
// Tag block copies of element types that hold no pointers; the element type is the template
// argument of the libstdc++ helper that contains the copy.
static bool nonPtrElem(StringRef t) {
  t = t.trim();
  while (t.consume_front("std::array<")) t = t.trim();
  return t.starts_with("double") || t.starts_with("float") || t.starts_with("int") || t.starts_with("unsigned") || t.starts_with("long") || t.starts_with("bool") || t.starts_with("char");
}
static void tagCopies(Module &M) {
  for (auto &F : M) {
    if (F.isDeclaration()) continue; StringRef n = F.getName();
    // a copied std::array of numbers carries no pointers; its alias description is a single untyped block
    if ((n.contains("St5arrayId") || n.contains("St5arrayIf") || (n.contains("3gbs") && (n.contains("IdLm") || n.contains("IfLm")))) && !n.contains("_Any_data") && !n.contains("8function"))
      for (auto &I : instructions(F)) if (isa<MemTransferInst>(I)) if (auto *t = I.getMetadata(LLVMContext::MD_tbaa_struct); t && t->getNumOperands() == 3)
        if (auto *tag = dyn_cast_or_null<MDNode>(t->getOperand(2))) if (auto *ty = dyn_cast_or_null<MDNode>(tag->getOperand(0))) if (auto *nm = dyn_cast_or_null<MDString>(ty->getOperand(0)); nm && nm->getString() == "omnipotent char") I.setMetadata("gbs.nonptr", MDNode::get(M.getContext(), {}));
    bool helper = n.contains("__copy_m") || n.contains("__relocate_a_1") || n.contains("11char_traitsIcE"); if (!helper) continue;
    std::string d = llvm::demangle(n); bool np = n.contains("11char_traitsIcE");
    if (!np) {
      size_t p = d.find("__copy_m<"); size_t q = p; if (p != std::string::npos) q = p + 9; else { p = d.find("__relocate_a_1<"); if (p == std::string::npos) continue; q = p + 15; }
      // first template argument
      int dep = 0; size_t e = q; for (; e < d.size(); e++) { if (d[e] == '<') dep++; else if (d[e] == '>') { if (!dep) break; dep--; } else if (d[e] == ',' && !dep) break; }
      std::string arg = d.substr(q, e - q);
      np = nonPtrElem(arg) && arg.find('*') == std::string::npos;
    }
    if (np) for (auto &I : instructions(F)) if (isa<MemTransferInst>(I)) I.setMetadata("gbs.nonptr", MDNode::get(M.getContext(), {}));
  }
}
void Prog::prepare(const std::function<bool(Function &)> &keep, const std::string &pipeline) {
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (keep(F)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    // everything that is not a kept function may be dropped once inlined
    if (!keep(F) && !isDrv(&F) && !F.hasLocalLinkage()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); }
  }
  tagCopies(*M);
  runPasses(pipeline);
  indexVTables();
}
static bool containerMutator(StringRef n) {
  if (startsWith(n, "_ZNKSt7__cxx1112basic_string") && n.contains("4find")) return true;
  if (!startsWith(n, "_ZNSt6vector") && !startsWith(n, "_ZNSt4list") && !startsWith(n, "_ZNSt7__cxx114list") && !startsWith(n, "_ZNSt8_Rb_tree") && !startsWith(n, "_ZNSt3map")) return false;
  for (auto *s : {"5beginEv", "3endEv", "ixEm", "5frontEv", "4backEv", "4dataEv", "2atEm", "6rbeginEv", "4rendEv", "17_M_get_Tp_allocatorEv"}) if (n.contains(s)) return false;
  return true;
}
void Prog::prepareB() {
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    if (isParEntry(&F) || F.getName().contains("_Sp_counted_base") || containerMutator(F.getName())) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    if (isGbs(&F) && !F.hasLocalLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); F.setVisibility(GlobalValue::HiddenVisibility); }
    if (!isGbs(&F) && !isDrv(&F) && !F.hasLocalLinkage()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); }
  }
  tagCopies(*M);
  runPasses("function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,jump-threading,correlated-propagation,simplifycfg,early-cse<memssa>),globaldce");
  indexVTables();
}
static void flatten(Constant *C, std::vector<Constant *> &out) {
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C)) { for (auto &op : C->operands()) flatten(cast<Constant>(op), out); return; }
  if (auto *z = dyn_cast<ConstantAggregateZero>(C)) { unsigned n = z->getElementCount().getFixedValue(); for (unsigned i = 0; i < n; i++) flatten(z->getElementValue(i), out); return; }
  out.push_back(C);
}
void Prog::indexVTables() {
  vtab.clear(); vslots.clear();
  for (auto &G : M->globals()) {
    if (!G.hasInitializer()) continue;
    SmallVector<MDNode *, 4> mds; G.getMetadata(LLVMContext::MD_type, mds);
    if (mds.empty()) continue;
    std::vector<Constant *> sl; flatten(G.getInitializer(), sl); vslots[&G] = sl;
    for (auto *md : mds) {
      uint64_t off = cast<ConstantInt>(cast<ConstantAsMetadata>(md->getOperand(0))->getValue())->getZExtValue();
      vtab[md->getOperand(1).get()].push_back({&G, off});
    }
  }
}
std::vector<Function *> Prog::virtualTargets(const CallBase *CB, bool &isV, std::string *cls, uint64_t *slot) {
  isV = false; std::vector<Function *> res;
  const Value *c = CB->getCalledOperand()->stripPointerCasts();
  auto *ld = dyn_cast<LoadInst>(c); if (!ld) return res;
  const Value *p = ld->getPointerOperand(); uint64_t off = 0;
  if (auto *g = dyn_cast<GEPOperator>(p)) {
    APInt o(64, 0); if (!g->accumulateConstantOffset(M->getDataLayout(), o)) return res;
    off = o.getZExtValue(); p = g->getPointerOperand();
  }
  const Metadata *tid = nullptr;
  for (auto *u : p->users()) if (auto *ci = dyn_cast<CallInst>(u)) if (auto *f = ci->getCalledFunction())
    if (f->getIntrinsicID() == Intrinsic::type_test || f->getIntrinsicID() == Intrinsic::public_type_test) tid = cast<MetadataAsValue>(ci->getArgOperand(1))->getMetadata();
  if (!tid) { // look for a type test on another load of the same vtable slot
    return res;
  }
  isV = true;
  if (cls) if (auto *s = dyn_cast<MDString>(tid)) *cls = s->getString().str();
  if (slot) *slot = off;
  auto it = vtab.find(tid); if (it == vtab.end()) return res;
  std::set<Function *> seen;
  for (auto &[g, ap] : it->second) {
    auto &sl = vslots[g]; size_t i = (ap + off) / 8;
    if (i < sl.size()) if (auto *f = dyn_cast<Function>(sl[i]->stripPointerCasts())) if (f->getName() != "__cxa_pure_virtual" && seen.insert(f).second) res.push_back(f);
  }
  return res;
}
