// Engine A: interprocedural, field-sensitive memory-effect summaries.
#pragma once
#include "ir.h"
struct Off {
  enum K : uint8_t { C, Aff, Var, Any } k = C;
  int64_t c = 0;      // constant part (C, Aff)
  int64_t coef = 0;   // Aff
  uint16_t sym = 0;   // Aff: 0..31 value of argument i, 32..63 integer stored in *argument i
  uint64_t mask = 0;  // Var: symbols the offset depends on injectively
  static Off any() { Off o; o.k = Any; return o; }
  static Off cst(int64_t v) { Off o; o.c = v; return o; }
  auto key() const { return std::tuple(k, c, coef, sym, mask); }
  bool operator<(const Off &o) const { if (k != o.k) return k < o.k; if (c != o.c) return c < o.c; if (coef != o.coef) return coef < o.coef; if (sym != o.sym) return sym < o.sym; return mask < o.mask; }
  bool operator==(const Off &o) const { return k == o.k && c == o.c && coef == o.coef && sym == o.sym && mask == o.mask; }
};
enum class OK : uint8_t { Arg, Deref, Global, Local, Fresh, SumFresh, Unknown };
struct Obj { OK k; int parent = -1; int64_t off = 0; bool offAny = false; const Value *v = nullptr; const Value *org = nullptr; int depth = 0; int root = -1; OK rootK; uint64_t mask = 0; };
using PE = std::pair<int, Off>;
using PT = std::vector<PE>; // sorted
struct Eff { int obj; Off off; bool operator<(const Eff &o) const { return std::tie(obj, off) < std::tie(o.obj, o.off); } };
struct Wit { const Instruction *I = nullptr; const Function *callee = nullptr; Eff ce{}; };
struct Summary {
  std::map<Eff, Wit> writes, reads;
  std::map<std::pair<int, Off>, PT> stores;
  std::map<std::pair<int, Off>, PT> fresh;
  PT ret;
  bool operator==(const Summary &o) const;
};
struct FnState {
  DenseMap<const Value *, PT> vals;
  std::map<int, std::map<Off, PT>> mem;
  bool changed = false;
};
struct Effects {
  Prog &P; const DataLayout &DL;
  std::vector<Obj> objs; std::map<std::tuple<int, int, int64_t, bool, const Value *, const Value *, uint64_t>, int> intern;
  std::map<const Function *, Summary> sum; std::map<const Function *, FnState> st;
  std::map<const Function *, std::set<const Function *>> callers;
  std::map<const Function *, std::map<const Instruction *, std::set<const Function *>>> callees; // resolved
  std::set<const Instruction *> unresolved; std::map<std::string, int> unmodelled;
  int unknownWrites = 0;
  std::map<const Function *, std::map<int, std::set<const Instruction *>>> argWrites; // instructions that write memory reached from an argument
  explicit Effects(Prog &p) : P(p), DL(p.M->getDataLayout()) {}
  void run();
  int mk(OK k, int parent, int64_t off, bool any, const Value *v, const Value *org = nullptr, uint64_t mask = 0);
  int deref(int o, const Off &off) { uint64_t m = off.k == Off::Aff ? 1ull << off.sym : off.k == Off::Var ? off.mask : 0; return mk(OK::Deref, o, off.k == Off::C ? off.c : 0, off.k != Off::C, nullptr, nullptr, m); }
  Off derefOff(const Obj &o) const { if (!o.offAny) return Off::cst(o.off); if (!o.mask) return Off::any(); Off r; r.k = Off::Var; r.mask = o.mask; return r; }
  uint64_t pathMask(int o, const Off &off) const { uint64_t m = off.k == Off::Aff ? 1ull << off.sym : off.k == Off::Var ? off.mask : 0; while (objs[o].k == OK::Deref) { m |= objs[o].mask; o = objs[o].parent; } return m; }
  int argObj(int i) { return mk(OK::Arg, i, 0, false, nullptr); }
  std::string objStr(int o) const;
  std::string offStr(const Off &o) const;
  std::vector<std::string> chain(const Function *F, Eff e, bool write = true) const;
  const Instruction *origin(const Function *F, Eff e, const Function **in = nullptr) const;
private:
  std::map<const Function *, size_t> rank; std::set<std::pair<size_t, const Function *>> wl;
  void push(const Function *F) { auto it = rank.find(F); wl.insert({it == rank.end() ? rank.size() : it->second, F}); }
  void analyse(const Function *F);
  bool addPT(PT &d, const PT &s); bool addPE(PT &d, PE e);
  PT get(FnState &S, const Value *v);
  PT shift(const PT &p, const Off &o);
  PT load(FnState &S, const PT &ptrs);
  void store(FnState &S, const Function *F, const PT &ptrs, const PT &val);
  void effect(const Function *F, const PT &ptrs, const Instruction *I, const Function *cal, const Eff *ce, bool write);
  void apply(FnState &S, const Function *F, const CallBase *CB, const Function *C);
  void copyMem(FnState &S, const Function *F, const PT &d, const PT &s, std::optional<uint64_t> len);
  bool model(FnState &S, const Function *F, const CallBase *CB, const Function *C);
public:
  struct Dep { bool known = false; bool cst = false; int64_t c = 0, coef = 0; int sym = -1; uint64_t mask = 0; };
  Dep dep(FnState &S, const Value *v, int depth = 0);
  Off toOff(const Dep &d, int64_t scale);
  static Off addOff(const Off &a, const Off &b);
  Off mapOff(FnState &S, const CallBase *CB, const Off &o);
  static int thisIdx(const Function *F) { return F->arg_size() && F->getArg(0)->hasStructRetAttr() ? 1 : 0; }
  bool exemptGlobal(const GlobalVariable *g, const Instruction *I);
  std::map<const Function *, std::unique_ptr<DominatorTree>> dts;
  DominatorTree &dt(const Function *F) { auto &p = dts[F]; if (!p) p = std::make_unique<DominatorTree>(*const_cast<Function *>(F)); return *p; }
  std::map<const Function *, std::vector<const Instruction *>> locks;
  bool underLock(const Instruction *I);
};
