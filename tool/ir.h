// Shared IR helpers for the gbs static analyses: module loading, preparation pipeline,
// symbol classification, vtable resolution and source locations.
#pragma once
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <deque>
#include <optional>
using namespace llvm;

inline bool startsWith(StringRef s, StringRef p) { return s.starts_with(p); }

// a function of the library itself (member, free function, or a lambda / local class inside one)
inline bool isGbsName(StringRef n) {
  return startsWith(n, "_ZN3gbs") || startsWith(n, "_ZNK3gbs") || startsWith(n, "_ZZN3gbs") || startsWith(n, "_ZZNK3gbs") ||
         startsWith(n, "_ZThn") || startsWith(n, "_ZZZN3gbs") || startsWith(n, "_ZZZNK3gbs") || startsWith(n, "_ZZZZN") || startsWith(n, "_ZGVZN3gbs");
}
inline bool isGbs(const Function *F) { return isGbsName(F->getName()); }
inline bool isDrv(const Function *F) { return startsWith(F->getName(), "_ZN3drv") || startsWith(F->getName(), "_ZZN3drv"); }
inline bool isParEntry(const Function *F) {
  StringRef n = F->getName(); // std::algorithm<par policy, ...>
  if (!startsWith(n, "_ZSt") || !n.contains("_policy")) return false;
  n = n.drop_front(4); unsigned len = 0; if (n.consumeInteger(10, len) || n.size() < len + 1) return false; n = n.drop_front(len);
  if (!n.consume_front("I")) return false;
  n.consume_front("O"); n.consume_front("R"); n.consume_front("K");
  if (!n.consume_front("N6__pstl9execution2v1")) return false;
  if (n.consumeInteger(10, len)) return false;
  return startsWith(n, "parallel_policyE") || startsWith(n, "parallel_unsequenced_policyE");
}

const std::string &demangled(const Function *F);
inline const std::string &demangled(const Function *F) {
  static std::map<const Function *, std::string> m;
  auto it = m.find(F);
  if (it == m.end()) { // clang writes template-parameter declarations into names that its demangler does not read
    std::string n = F->getName().str(); for (size_t p; (p = n.find("TtTpTyE")) != std::string::npos;) n.erase(p, 7); for (size_t p; (p = n.find("TtTyE")) != std::string::npos;) n.erase(p, 5);
    it = m.emplace(F, llvm::demangle(n)).first; }
  return it->second;
}

struct Loc { std::string file; unsigned line = 0, col = 0; };
inline std::string relFile(std::string f) {
  auto p = f.find("/repo/");
  if (p == 0) return f.substr(6);
  return f;
}
inline std::string dirFile(const DIFile *f) {
  if (!f) return "?";
  std::string s = f->getFilename().str();
  if (!s.empty() && s[0] != '/') s = f->getDirectory().str() + "/" + s;
  SmallString<256> sp(s);
  // normalise a/../
  std::vector<std::string> parts; std::string cur;
  for (char c : s + "/") { if (c == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (cur != "." && !cur.empty()) parts.push_back(cur); cur.clear(); } else cur += c; }
  std::string o; for (auto &q : parts) o += "/" + q;
  return relFile(o);
}
inline Loc locOf(const DILocation *d) {
  Loc l; if (!d) return l;
  l.file = dirFile(d->getScope()->getFile()); l.line = d->getLine(); l.col = d->getColumn();
  return l;
}
// the innermost location that lies in the analysed repository (walks the inlining chain outwards)
inline Loc repoLoc(const Instruction *I) {
  const DILocation *d = I->getDebugLoc().get();
  Loc first = locOf(d);
  while (d) {
    Loc l = locOf(d);
    if (!l.file.empty() && l.file[0] != '/' && l.line) return l;
    d = d->getInlinedAt();
  }
  if (auto *sp = I->getFunction()->getSubprogram()) {
    Loc l; l.file = dirFile(sp->getFile()); l.line = sp->getLine();
    if (first.line == 0 || (l.file.size() && l.file[0] != '/')) return l;
  }
  return first;
}
inline std::string locStr(const Instruction *I) { Loc l = repoLoc(I); return l.file + ":" + std::to_string(l.line); }
inline std::string fnLoc(const Function *F) {
  if (auto *sp = F->getSubprogram()) return dirFile(sp->getFile()) + ":" + std::to_string(sp->getLine());
  return "?";
}

// ---------------------------------------------------------------- module preparation
struct Prog {
  struct EntityWrite { std::string func; Loc at; std::string fn, mangled; };
  struct AddrOrder { std::string fn; Loc at; std::string what; std::vector<std::string> callees; std::string mangled; }; // use of the order of a container sorted or hashed by address
  std::vector<AddrOrder> addrOrder; size_t addrWalks = 0;
  std::vector<EntityWrite> entityWrites;
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  // type id -> list of (vtable global, offset of address point)
  std::map<const Metadata *, std::vector<std::pair<GlobalVariable *, uint64_t>>> vtab;
  DenseMap<GlobalVariable *, std::vector<Constant *>> vslots;
  void load(const std::vector<std::string> &files);
  void runPasses(const std::string &pipeline);
  void prepare(const std::function<bool(Function &)> &keepOutOfLine, const std::string &pipeline);
  void prepareB(); // library functions stay visible and are also inlined into their callers; container mutators stay calls
  void indexVTables();
  // candidates of an indirect call; resolved=false when the callee is not a virtual call
  std::vector<Function *> virtualTargets(const CallBase *CB, bool &isVirtual, std::string *cls = nullptr, uint64_t *slot = nullptr);
};
