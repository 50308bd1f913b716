// Engine B: conditions that hold whenever a function returns normally ("return facts").
// A forward must-dataflow over the control-flow graph collects, for every block, the branch
// conditions that hold on all paths reaching it; values are normalised to linear forms over
// arguments, loads and opaque calls, so equivalent ways of writing a guard coincide.
#pragma once
#include "ir.h"
#include <cmath>
#include "llvm/ADT/PostOrderIterator.h"
struct Lin {
  std::map<std::string, double> t; double c = 0; bool w = false; // w: made with an unsigned subtraction that may wrap around
  bool isConst() const { return t.empty(); }
  Lin operator+(const Lin &o) const { Lin r = *this; for (auto &[k, v] : o.t) { if (std::abs(r.t[k] += v) < 1e-12) r.t.erase(k); } r.c += o.c; r.w |= o.w; return r; }
  Lin operator*(double s) const { Lin r; if (s == 0) return r; for (auto &[k, v] : t) r.t[k] = v * s; r.c = c * s; r.w = w; return r; }
  Lin operator-(const Lin &o) const { return *this + o * -1.0; }
  std::string str() const;
  static Lin atom(const std::string &s) { Lin r; r.t[s] = 1; return r; }
  static Lin cst(double v) { Lin r; r.c = v; return r; }
  bool operator<(const Lin &o) const { return std::tie(t, c) < std::tie(o.t, o.c); }
  bool operator==(const Lin &o) const { return t == o.t && c == o.c; }
};
struct Fact { enum K { GE0, EQ0, NE0, TRUE_, FALSE_ } k; Lin l; bool fp = false;
  bool operator<(const Fact &o) const { return std::tie(k, l, l.w) < std::tie(o.k, o.l, o.l.w); }
  bool operator==(const Fact &o) const { return k == o.k && l == o.l && l.w == o.l.w; }
  std::string str() const { static const char *n[] = {" >= 0", " == 0", " != 0", " is true", " is false"}; return l.str() + n[k]; } };
using Facts = std::set<Fact>;
struct FactFn { // analysis of one function
  struct Ctx *C; const Function *F; const DataLayout &DL; DominatorTree DT;
  DenseMap<const Value *, Lin> memo; std::map<const BasicBlock *, std::optional<Facts>> in; int opq = 0;
  FactFn(struct Ctx *c, const Function *f);
  Lin lin(const Value *v, int d = 0);
  Lin loadAt(const Value *ptr, Lin addr, const Instruction *at, int d);
  Lin resolve(const AllocaInst *al, int64_t off, const Instruction *at, int d, bool &ok);
  void condFacts(const Value *c, bool truth, Facts &out, int d = 0);
  Facts edge(const BasicBlock *p, const BasicBlock *s);
  void solve();
  Facts atReturn(std::optional<bool> boolResult = {});
};
struct Dep { int arg; long off; int depth; bool operator<(const Dep &o) const { return std::tie(arg, off, depth) < std::tie(o.arg, o.off, o.depth); } };
struct Guard { const Instruction *I; const Value *val = nullptr; std::set<Dep> deps; bool fp = false, loop = false, opaque = false; int cmps = 0; bool part = false; };
struct Ctx {
  Prog &P; const DataLayout &DL; std::map<const Function *, std::unique_ptr<FactFn>> fns; std::map<const Function *, std::pair<bool, Facts>> rets; std::map<const Function *, Facts> retTrue[2]; std::set<const Function *> busy;
  explicit Ctx(Prog &p) : P(p), DL(p.M->getDataLayout()) {}
  FactFn &fn(const Function *F);
  const Facts &retFacts(const Function *F);              // facts at every normal return
  const Facts &retFactsIf(const Function *F, bool b);    // ... given the boolean result
  std::map<std::tuple<const Function *, int>, std::vector<Guard>> guardMemo;
  const std::vector<Guard> &guards(const Function *F, int want); // want: 0/1 boolean result, 2 any normal return
  std::map<std::pair<const Function *, const Value *>, std::set<Dep>> sliceMemo; const std::set<Dep> &slice(const Function *F, const Value *v);
  Facts translate(FactFn &caller, const CallBase *CB, const Facts &f);
};
std::string substArgs(const std::string &s, const std::function<std::string(int)> &f);
bool opaqueStr(const std::string &s); // mentions a value the analysis has no name for
std::map<long, Lin> returnForm(Ctx &C, const Function *F); // offset in the result -> form, when there is one return
void factsJson(Ctx &C, const std::string &re, json::Object &root);
