// Direction inference over the typed syntax tree: the two parametric directions of a surface are never interchanged.
// Every expression of a function is given the set of directions (U, V) of the values it is made of; the set is followed
// through locals, containers, structured bindings, lambdas and calls. A construct that combines a pure U with a pure V
// where one direction is required is reported. Names seed the inference only at interfaces (parameters and members of the
// library that come in U/V pairs); locals are inferred.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ASTContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace clang;
enum : unsigned { U = 1, V = 2 };
static std::string ROOT;
struct Finding { std::string file, func, msg, what; unsigned line; };
static std::vector<Finding> findings; static std::set<std::string> seen, functions, kernels, calls2; static long nTagged = 0;
static unsigned suffixDir(llvm::StringRef n) { // ...U / ..._u ; needs more than one character
  while (n.size() && (n.back() == '_' || isdigit(n.back()))) n = n.drop_back(); if (n.size() < 2) return 0;
  char c = n.back(), b = n[n.size() - 2];
  if ((c == 'U' || c == 'V') && (islower(b) || b == '_')) return c == 'U' ? U : V;
  if ((c == 'u' || c == 'v') && b == '_') return c == 'u' ? U : V; return 0; }
static unsigned nameDir(llvm::StringRef n) { llvm::StringRef o = n; while (n.size() && (n.back() == '_' || isdigit(n.back()))) n = n.drop_back();
  if (n == "u" || n == "du" || n == "ku" || n == "nu" || n == "U") return U; if (n == "v" || n == "dv" || n == "kv" || n == "nv" || n == "V") return V; return suffixDir(o); }
static bool arith(QualType t) { if (t.isNull()) return false; t = t.getNonReferenceType().getCanonicalType().getUnqualifiedType(); return t->isFloatingType() || (t->isIntegerType() && !t->isBooleanType()); }
static bool numeric(QualType t) { if (t.isNull()) return false; t = t.getNonReferenceType().getCanonicalType().getUnqualifiedType(); if (arith(t)) return true; if (t->isPointerType()) return arith(t->getPointeeType());
  if (auto *s = dyn_cast_or_null<ClassTemplateSpecializationDecl>(t->getAsCXXRecordDecl())) { auto n = s->getName(); if ((n == "vector" || n == "array" || n == "__normal_iterator" || n == "span" || n == "list") && s->getTemplateArgs().size() && s->getTemplateArgs()[0].getKind() == TemplateArgument::Type) { auto e = s->getTemplateArgs()[0].getAsType(); return arith(e) || (e->isPointerType() && arith(e->getPointeeType())); } } return false; }
static bool floating(QualType t) { if (t.isNull()) return false; return t.getNonReferenceType().getCanonicalType()->isFloatingType(); }
static bool array4(QualType t) { if (t.isNull()) return false; t = t.getNonReferenceType().getCanonicalType().getUnqualifiedType(); if (auto *s = dyn_cast_or_null<ClassTemplateSpecializationDecl>(t->getAsCXXRecordDecl())) return s->getName() == "array" && s->getTemplateArgs().size() == 2 && s->getTemplateArgs()[1].getKind() == TemplateArgument::Integral && s->getTemplateArgs()[1].getAsIntegral() == 4 && floating(s->getTemplateArgs()[0].getAsType()); return false; }
static bool inGbs(const Decl *d) { for (auto *c = d->getDeclContext(); c; c = c->getParent()) if (auto *n = dyn_cast<NamespaceDecl>(c); n && n->getName() == "gbs") return true; return false; }
static bool jsonValue(QualType t) { if (t.isNull()) return false; auto *r = t.getNonReferenceType()->getAsCXXRecordDecl(); return r && r->getName() == "GenericValue"; }
static unsigned literalDir(const Expr *e) { e = e->IgnoreParenImpCasts(); while (true) { if (auto *c = dyn_cast<CXXConstructExpr>(e); c && c->getNumArgs() >= 1) e = c->getArg(0)->IgnoreParenImpCasts(); else if (auto *m = dyn_cast<MaterializeTemporaryExpr>(e)) e = m->getSubExpr()->IgnoreParenImpCasts(); else if (auto *m = dyn_cast<CXXBindTemporaryExpr>(e)) e = m->getSubExpr()->IgnoreParenImpCasts(); else if (auto *m = dyn_cast<CXXFunctionalCastExpr>(e)) e = m->getSubExpr()->IgnoreParenImpCasts(); else break; } if (auto *l = dyn_cast<StringLiteral>(e); l && l->getCharByteWidth() == 1) return suffixDir(l->getString()); return 0; }
static const FunctionDecl *pattern(const FunctionDecl *f) { if (auto *c = dyn_cast<CXXConstructorDecl>(f); c && c->isInheritingConstructor()) if (auto *i = c->getInheritedConstructor().getConstructor()) f = i; if (auto *p = f->getTemplateInstantiationPattern()) return p; return f; }
static std::string fname(const NamedDecl *d) { auto *id = d->getIdentifier(); return id ? id->getName().str() : d->getNameAsString(); }
// directions of a function's parameters: for functions with parameters of both directions, or one-direction members ...U / ...V
static std::vector<unsigned> paramDirs(const FunctionDecl *f, bool &two) { two = false; std::vector<unsigned> r(f->getNumParams(), 0); if (!inGbs(f)) return r; auto *p = pattern(f); if (p->getNumParams() != f->getNumParams()) p = f;
  bool hp = false, hq = false; unsigned all = 0;
  for (unsigned i = 0; i < r.size(); i++) { if (!numeric(f->getParamDecl(i)->getType())) continue; auto n = fname(p->getParamDecl(i)); unsigned d = nameDir(n); r[i] = d; all |= d; bool in = f->getParamDecl(i)->getType().getNonReferenceType()->isIntegerType(); hp |= n == "p" && in; hq |= n == "q" && in; }
  if (hp && hq && (all || true)) for (unsigned i = 0; i < r.size(); i++) { auto n = fname(p->getParamDecl(i)); if (n == "p") r[i] = U; if (n == "q") r[i] = V; if (r[i]) all |= r[i]; }
  if (all == (U | V)) { two = true; return r; }
  for (auto &x : r) x = 0; if (auto *m = dyn_cast<CXXMethodDecl>(f); m) if (unsigned d = suffixDir(fname(f)); d && (fname(f).back() == 'U' || fname(f).back() == 'V')) for (unsigned i = 0; i < r.size(); i++) if (floating(f->getParamDecl(i)->getType()) || (!m->isConst() && !m->isStatic() && numeric(f->getParamDecl(i)->getType()))) r[i] = d;
  return r; }
static const std::set<std::string> KERNEL{"find_span", "find_span_range", "basis_function", "eval_value_decasteljau", "eval_ders_decasteljau", "insert_knot", "insert_knots", "remove_knot", "increase_degree", "build_poles_matrix", "fill_poles_matrix", "check_curve", "multiplicity", "flat_knots", "build_simple_mult_flat_knots", "build_mult_flat_knots", "build_simple_mult_flat_knots_params", "interpolate", "trim", "split_knots", "bezier_segments", "change_bounds", "change_degree", "derivatives_basis", "ders_basis_funs", "basis_funs", "eval_rational_value_simple", "greville_abscissae", "knots_and_mults", "approx_bound_fixed", "basis_ders", "fill_basis_row", "make_range"};
// a member that interchanges the directions of its object: it swaps a U member with a V member
struct Swaps : RecursiveASTVisitor<Swaps> { bool found = false; static unsigned md(const Expr *e) { if (auto *m = dyn_cast<MemberExpr>(e->IgnoreParenImpCasts())) return suffixDir(fname(m->getMemberDecl())); return 0; }
  bool VisitCallExpr(CallExpr *c) { if (auto *f = c->getDirectCallee(); f && f->isInStdNamespace() && fname(f) == "swap" && c->getNumArgs() == 2) found |= (md(c->getArg(0)) | md(c->getArg(1))) == (U | V); return true; } };
static bool interchanges(const FunctionDecl *f) { static std::map<const FunctionDecl *, bool> memo; const FunctionDecl *d = nullptr; f->getBody(d); if (!d) return false; auto it = memo.find(d); if (it != memo.end()) return it->second; Swaps s; s.TraverseStmt(d->getBody()); return memo[d] = s.found; }
struct Uses : RecursiveASTVisitor<Uses> { bool found = false; bool VisitCallExpr(CallExpr *c) { if (auto *f = c->getDirectCallee()) found |= interchanges(f); return true; } };
struct Fn { ASTContext &C; bool turned = false; const FunctionDecl *F; std::map<const Decl *, unsigned> tag; std::set<const Decl *> bounds4; std::map<const Decl *, unsigned> loop; bool changed = false;
  Fn(ASTContext &c, const FunctionDecl *f) : C(c), F(f) {}
  static const Expr *strip(const Expr *e) { while (e) { auto *s = e->IgnoreParenImpCasts(); if (auto *m = dyn_cast<MaterializeTemporaryExpr>(s)) s = m->getSubExpr(); else if (auto *m = dyn_cast<CXXBindTemporaryExpr>(s)) s = m->getSubExpr(); else if (auto *m = dyn_cast<ExprWithCleanups>(s)) s = m->getSubExpr(); else if (auto *m = dyn_cast<CXXConstructExpr>(s); m && m->getNumArgs() == 1 && (m->getConstructor()->isCopyOrMoveConstructor())) s = m->getArg(0); if (s == e) return e; e = s; } return e; }
  static std::optional<int64_t> cst(const Expr *e, ASTContext &C) { Expr::EvalResult r; if (e && !e->isValueDependent() && e->EvaluateAsInt(r, C)) return r.Val.getInt().getExtValue(); return {}; }
  bool isBounds4(const Expr *e) { e = strip(e); if (!e || !array4(e->getType())) return false;
    if (auto *d = dyn_cast<DeclRefExpr>(e)) return bounds4.count(d->getDecl()->getCanonicalDecl()) || bounds4.count(d->getDecl());
    if (auto *m = dyn_cast<MemberExpr>(e)) return fname(m->getMemberDecl()) == "m_bounds" || fname(m->getMemberDecl()) == "bounds_";
    if (auto *c = dyn_cast<CallExpr>(e)) if (auto *f = c->getDirectCallee()) return fname(f) == "bounds" && inGbs(f); return false; }
  unsigned t(const Expr *e) { e = strip(e); if (!e) return 0;
    if (auto *d = dyn_cast<DeclRefExpr>(e)) { auto it = tag.find(d->getDecl()); return it == tag.end() ? 0 : it->second; }
    if (auto *m = dyn_cast<MemberExpr>(e)) { if (isa<FieldDecl>(m->getMemberDecl())) { if (numeric(m->getType()) && inGbs(m->getMemberDecl())) if (unsigned d = suffixDir(fname(m->getMemberDecl()))) return d; auto n = fname(m->getMemberDecl()); if (n == "first" || n == "second") return t(m->getBase()); return 0; } return 0; }
    if (auto *o = dyn_cast<CXXOperatorCallExpr>(e)) { auto k = o->getOperator();
      if (k == OO_Subscript && o->getNumArgs() == 2 && jsonValue(o->getArg(0)->getType())) if (unsigned d = literalDir(o->getArg(1))) return d;
      if (k == OO_Subscript && o->getNumArgs() == 2) { if (isBounds4(o->getArg(0))) { if (auto i = cst(o->getArg(1), C)) return *i < 2 ? U : V; return 0; } return t(o->getArg(0)); }
      if (k == OO_Call) return callTag(o); unsigned r = 0; for (auto *a : o->arguments()) r |= t(a); return r; }
    if (auto *c = dyn_cast<CallExpr>(e)) return callTag(c);
    if (auto *a = dyn_cast<ArraySubscriptExpr>(e)) return t(a->getBase());
    if (auto *b = dyn_cast<BinaryOperator>(e)) { if (b->isComparisonOp() || b->isLogicalOp()) return 0; if (b->isAssignmentOp() && !b->isCompoundAssignmentOp()) return t(b->getRHS()); unsigned x = t(b->getLHS()), y = t(b->getRHS()); if (b->getType()->isIntegerType() && (y == U || y == V)) { if (b->getOpcode() == BO_Div && !x) return U + V - y; if (b->getOpcode() == BO_Rem) return y; } return x | y; }
    if (auto *u = dyn_cast<UnaryOperator>(e)) return t(u->getSubExpr());
    if (auto *c = dyn_cast<ConditionalOperator>(e)) return t(c->getTrueExpr()) | t(c->getFalseExpr());
    if (auto *c = dyn_cast<CastExpr>(e)) return t(c->getSubExpr());
    if (auto *c = dyn_cast<CXXDefaultInitExpr>(e)) return 0;
    if (auto *c = dyn_cast<CXXConstructExpr>(e)) { if (!numeric(c->getType()) && !jsonValue(c->getType())) return 0; unsigned r = 0; for (auto *a : c->arguments()) r |= t(a); return r; }
    if (auto *c = dyn_cast<CXXStdInitializerListExpr>(e)) return t(c->getSubExpr());
    if (auto *l = dyn_cast<InitListExpr>(e)) { unsigned r = 0; for (auto *i : l->inits()) r |= t(i); return r; }
    return 0; }
  unsigned callTag(const CallExpr *c) { auto *f = c->getDirectCallee(); if (!f) return 0; auto n = fname(f);
    if (isa<CXXMethodDecl>(f) && inGbs(f) && numeric(f->getReturnType())) if (unsigned d = suffixDir(n); d && isupper(n.back())) return d;
    if (n == "get" && c->getNumArgs() == 1) { if (isBounds4(c->getArg(0))) if (auto *ta = f->getTemplateSpecializationArgs(); ta && ta->size() && ta->get(0).getKind() == TemplateArgument::Integral) return ta->get(0).getAsIntegral().getExtValue() < 2 ? U : V; return t(c->getArg(0)); }
    if (!numeric(f->getReturnType()) && !jsonValue(f->getReturnType()) && !(f->getReturnType()->isRecordType() && !inGbs(f))) { bool pr = false; if (auto *s = dyn_cast_or_null<ClassTemplateSpecializationDecl>(f->getReturnType().getNonReferenceType()->getAsCXXRecordDecl())) pr = s->getName() == "pair" || s->getName() == "tuple"; if (!pr) return 0; }
    if (auto *m = dyn_cast<CXXMemberCallExpr>(c)) { unsigned r = 0; auto *o = m->getImplicitObjectArgument(); if (inGbs(f)) { bool two; paramDirs(f, two); if (two) return 0; for (auto *a : c->arguments()) r |= t(a); return r; } if (isBounds4(o)) return n == "front" ? U : n == "back" ? V : 0; return t(o); }
    if (auto *m = dyn_cast<CXXOperatorCallExpr>(c)) { unsigned r = 0; for (unsigned i = 1; i < c->getNumArgs(); i++) r |= t(c->getArg(i)); return r; }
    unsigned r = 0; for (auto *a : c->arguments()) r |= t(a); return r; }
  std::map<const Decl *, unsigned> force; // locals whose direction cannot be inferred, named in pairs
  void add(const Decl *d, unsigned v) { if (!v || !d) return; if (force.count(d)) return; auto &x = tag[d]; if ((x | v) != x) { x |= v; changed = true; } }
  void addTo(const Expr *e, unsigned v) { e = strip(e); if (auto *d = dyn_cast_or_null<DeclRefExpr>(e)) add(d->getDecl(), v); }
  struct Flow : RecursiveASTVisitor<Flow> { Fn &f; Flow(Fn &f) : f(f) {} bool shouldVisitImplicitCode() const { return true; } bool shouldVisitLambdaBody() const { return true; }
    bool VisitVarDecl(VarDecl *d) { if (isa<ParmVarDecl>(d)) return true; if (auto *dd = dyn_cast<DecompositionDecl>(d)) { bool b4 = d->getInit() && f.isBounds4(d->getInit()); unsigned v = d->getInit() ? f.t(d->getInit()) : 0; int i = 0; std::vector<unsigned> mem;
        if (!b4 && !v) { unsigned all = 0; for (auto *b : dd->bindings()) if (arith(b->getType())) all |= nameDir(fname(b)); if (all == (U | V)) { for (auto *b : dd->bindings()) if (arith(b->getType())) f.add(b, nameDir(fname(b))); return true; } }
        for (auto *b : dd->bindings()) { f.add(b, b4 ? (i < 2 ? U : V) : v); i++; } return true; }
      if (!d->getInit()) return true; if (f.isBounds4(d->getInit())) { if (f.bounds4.insert(d).second) f.changed = true; return true; }
      if (auto *l = dyn_cast<LambdaExpr>(strip(d->getInit()))) return true; f.add(d, f.t(d->getInit())); return true; }
    bool VisitCXXForRangeStmt(CXXForRangeStmt *s) { if (s->getLoopVariable()) f.add(s->getLoopVariable(), f.t(s->getRangeInit())); return true; }
    void seed(const FunctionDecl *op) { bool two; auto d = paramDirs(op, two); if (two) for (unsigned i = 0; i < d.size(); i++) f.add(op->getParamDecl(i), d[i]); }
    bool VisitLambdaExpr(LambdaExpr *l) { if (l->isGenericLambda()) { if (auto *td = l->getDependentCallOperator()) for (auto *s : td->specializations()) seed(s); } else seed(l->getCallOperator()); return true; }
    bool VisitBinaryOperator(BinaryOperator *b) { if (b->isAssignmentOp()) f.addTo(b->getLHS(), f.t(b->getRHS())); return true; }
    bool VisitForStmt(ForStmt *s) { if (auto *b = dyn_cast_or_null<BinaryOperator>(s->getCond() ? strip(s->getCond()) : nullptr); b && b->isComparisonOp()) if (auto *d = dyn_cast<DeclRefExpr>(strip(b->getLHS()))) { auto &x = f.loop[d->getDecl()]; unsigned v = f.t(b->getRHS()); if ((x | v) != x) { x |= v; f.changed = true; } } return true; }
    bool VisitCallExpr(CallExpr *c) { auto *fd = c->getDirectCallee(); if (!fd) return true; auto n = fname(fd);
      if (auto *o = dyn_cast<CXXOperatorCallExpr>(c)) { if (o->isAssignmentOp() && o->getNumArgs() == 2) f.addTo(o->getArg(0), f.t(o->getArg(1)));
        if (o->getOperator() == OO_Call) { auto *obj = strip(o->getArg(0)); if (auto *m = dyn_cast<CXXMethodDecl>(fd); m && m->getParent()->isLambda()) for (unsigned i = 1; i < o->getNumArgs() && i - 1 < fd->getNumParams(); i++) f.add(fd->getParamDecl(i - 1), f.t(o->getArg(i))); (void)obj; } return true; }
      if (auto *m = dyn_cast<CXXMemberCallExpr>(c)) { if (n == "push_back" || n == "emplace_back" || n == "insert" || n == "assign") { unsigned v = 0; for (auto *a : c->arguments()) v |= f.t(a); f.addTo(m->getImplicitObjectArgument(), v); } return true; }
      if (fd->isInStdNamespace() && (n == "swap" || n == "exchange")) { unsigned v = 0; for (auto *a : c->arguments()) v |= f.t(a); for (auto *a : c->arguments()) f.addTo(a, v); return true; }
      // a lambda handed to an algorithm sees the elements of the ranges
      unsigned v = 0; bool lam = false; for (auto *a : c->arguments()) { auto *l = strip(a); if (isa<LambdaExpr>(l)) lam = true; else v |= f.t(a); }
      if (lam && fd->isInStdNamespace()) { for (auto *a : c->arguments()) if (auto *l = dyn_cast<LambdaExpr>(strip(a))) { auto *op = l->getCallOperator(); for (auto *p : op->parameters()) f.add(p, v); if (l->isGenericLambda()) if (auto *td = l->getDependentCallOperator()) for (auto *s : td->specializations()) for (auto *p : s->parameters()) f.add(p, v); } }
      if (fd->isInStdNamespace() && (n == "copy" || n == "transform" || n == "generate" || n == "fill" || n == "move")) { for (auto *a : c->arguments()) { auto *m = dyn_cast<CXXMemberCallExpr>(strip(a)); if (m && fname(m->getMethodDecl()) == "begin") { f.addTo(m->getImplicitObjectArgument(), n == "copy" || n == "transform" || n == "move" ? 0 : 0); } } }
      return true; } };
  std::string loc(SourceLocation l, unsigned &line) { auto &S = C.getSourceManager(); l = S.getFileLoc(l); line = S.getSpellingLineNumber(l); std::string p = S.getFilename(l).str(); llvm::SmallString<256> q; if (auto fe = S.getFileEntryRefForID(S.getFileID(l))) p = fe->getFileEntry().tryGetRealPathName().str(); if (p.rfind(ROOT + "/", 0) == 0) p = p.substr(ROOT.size() + 1); return p; }
  void report(SourceLocation l, const std::string &what, const std::string &msg) { Finding x; x.file = loc(l, x.line); x.func = F->getQualifiedNameAsString(); x.what = what; x.msg = msg; if (seen.insert(x.file + ":" + std::to_string(x.line) + what).second) findings.push_back(x); }
  struct Locals : RecursiveASTVisitor<Locals> { std::vector<VarDecl *> v; std::set<std::string> names; bool shouldVisitLambdaBody() const { return true; } bool VisitVarDecl(VarDecl *d) { if (d->getIdentifier()) { names.insert(d->getName().str()); if (!isa<ParmVarDecl>(d) && d->isLocalVarDecl()) v.push_back(d); } return true; } };
  static std::string sibling(llvm::StringRef n) { std::string s = n.str(); for (auto &c : s) if (c == 'u' || c == 'v' || c == 'U' || c == 'V') { } for (size_t i = s.size(); i-- > 0;) { char &c = s[i]; if (c == 'u') { c = 'v'; return s; } if (c == 'v') { c = 'u'; return s; } if (c == 'U') { c = 'V'; return s; } if (c == 'V') { c = 'U'; return s; } } return ""; }
  static const char *nm(unsigned d) { return d == U ? "U" : "V"; }
  struct HasLoop : RecursiveASTVisitor<HasLoop> { Fn &f; bool found = false; HasLoop(Fn &f) : f(f) {} bool VisitDeclRefExpr(DeclRefExpr *d) { found |= f.loop.count(d->getDecl()) != 0; return true; } };
  struct Check : RecursiveASTVisitor<Check> { Fn &f; Check(Fn &f) : f(f) {} bool shouldVisitLambdaBody() const { return true; }
    void sites(SourceLocation l, const FunctionDecl *fd, llvm::ArrayRef<const Expr *> args) { if (!inGbs(fd)) return; bool two; auto d = paramDirs(fd, two); auto n = fname(fd); bool any = false; for (auto x : d) any |= x != 0;
      if (any) { int same = 0, swapped = 0; std::string w; for (unsigned i = 0; i < args.size() && i < d.size(); i++) { unsigned a = f.t(args[i]); if (!d[i] || (a != U && a != V)) continue; if (a == d[i]) same++; else { swapped++; w += (w.empty() ? "" : ", ") + fname(pattern(fd)->getParamDecl(std::min(i, pattern(fd)->getNumParams() - 1))) + " receives a value of direction " + nm(a); } }
        if (same + swapped) { unsigned ln; calls2.insert(f.loc(l, ln) + ":" + std::to_string(ln) + " " + n); }
        if (swapped && f.turned && !two) ; else if (swapped && (same || !two || swapped == 1)) f.report(l, "call of " + n, "call of " + n + ": " + w); else if (swapped >= 4 && isa<CXXConstructorDecl>(fd)) ; else if (swapped) f.report(l, "swap " + n, "call of " + n + " with the directions interchanged: " + w); }
      else if (KERNEL.count(n) || isa<CXXConstructorDecl>(fd)) { unsigned got = 0, tagged = 0; for (unsigned i = 0; i < args.size() && i < fd->getNumParams(); i++) { if (!numeric(fd->getParamDecl(i)->getType())) continue; unsigned a = f.t(args[i]); if (a == U || a == V) { got |= a; tagged++; } }
        if (tagged > 1) { unsigned ln; kernels.insert(f.loc(l, ln) + ":" + std::to_string(ln) + " " + n); }
        bool curve = KERNEL.count(n) || n.find("BSCurve") == 0 || n == "BSCfunction" || n == "BSCurveGeneral" || n == "CurveTrimmed"; if (curve && got == (U | V)) f.report(l, "kernel " + n, "call of " + n + ", which works in one direction, combines values of directions U and V"); } }
    bool VisitCallExpr(CallExpr *c) { if (auto *m = dyn_cast<CXXMemberCallExpr>(c); m && m->getNumArgs() >= 2 && m->getMethodDecl() && fname(m->getMethodDecl()) == "AddMember") { unsigned d = literalDir(m->getArg(0)), a = f.t(m->getArg(1)); if (d) { unsigned ln; calls2.insert(f.loc(c->getBeginLoc(), ln) + ":" + std::to_string(ln) + " AddMember"); } if (d && (a == U || a == V) && a != d) f.report(c->getBeginLoc(), "member", std::string("a value of direction ") + nm(a) + " is written under the name of direction " + nm(d)); }
      if (auto *fd = c->getDirectCallee()) { std::vector<const Expr *> a; unsigned s = isa<CXXOperatorCallExpr>(c) && isa<CXXMethodDecl>(fd) ? 1 : 0; for (unsigned i = s; i < c->getNumArgs(); i++) a.push_back(c->getArg(i)); sites(c->getBeginLoc(), fd, a); } return true; }
    bool VisitCXXConstructExpr(CXXConstructExpr *c) { std::vector<const Expr *> a(c->arg_begin(), c->arg_end()); sites(c->getBeginLoc(), c->getConstructor(), a); return true; }
    void store(const Expr *lhs, const Expr *rhs, SourceLocation l) { auto *e = strip(lhs); unsigned d = 0; if (auto *m = dyn_cast<MemberExpr>(e); m && isa<FieldDecl>(m->getMemberDecl())) d = f.t(e); else if (auto *o = dyn_cast<CXXOperatorCallExpr>(e); o && o->getOperator() == OO_Subscript && f.isBounds4(o->getArg(0))) d = f.t(e); unsigned a = f.t(rhs); if ((d == U && a == V) || (d == V && a == U)) f.report(l, "store", std::string("a value of direction ") + nm(a) + " is stored in a member of direction " + nm(d)); quad(rhs); }
    void quad(const Expr *e) { }
    bool VisitInitListExpr(InitListExpr *l) { if (!array4(l->getType())) return true; std::vector<const Expr *> v; const InitListExpr *x = l; while (x->getNumInits() == 1) { if (auto *y = dyn_cast<InitListExpr>(x->getInit(0))) x = y; else break; } if (x->getNumInits() != 4) return true; unsigned a[4]; for (int i = 0; i < 4; i++) a[i] = f.t(x->getInit(i)); int same = 0, opp = 0; for (int i = 0; i < 4; i++) { unsigned w = i < 2 ? U : V; if (a[i] == w) same++; else if (a[i] == U || a[i] == V) opp++; } if (opp && same) f.report(l->getBeginLoc(), "bounds", "bounds are put together in another order than {u1, u2, v1, v2}"); return true; }
    // object.degreeU() -> "degreeU", object
    static llvm::StringRef acc(const Expr *e, const Expr *&obj) { e = strip(e); obj = nullptr; if (auto *c = dyn_cast_or_null<CXXMemberCallExpr>(e)) if (auto *m = c->getMethodDecl(); m && c->getNumArgs() == 0 && inGbs(m) && m->getIdentifier() && suffixDir(m->getName())) { obj = c->getImplicitObjectArgument(); return m->getName(); } return ""; }
    bool VisitBinaryOperator(BinaryOperator *b) { if (b->isAssignmentOp()) store(b->getLHS(), b->getRHS(), b->getBeginLoc());
      if (b->isRelationalOp() && floating(b->getLHS()->getType()) && floating(b->getRHS()->getType())) { unsigned x = f.t(b->getLHS()), y = f.t(b->getRHS()); if ((x | y) == (U | V) && x != y && x != (U | V) && y != (U | V)) f.report(b->getBeginLoc(), "comparison", "a parameter of one direction is compared with one of the other"); }
      if (b->isComparisonOp()) { const Expr *o1, *o2; llvm::StringRef n1 = acc(b->getLHS(), o1), n2 = acc(b->getRHS(), o2); if (n1.size() > 1 && n2.size() == n1.size() && n1.drop_back() == n2.drop_back() && n1 != n2) { llvm::FoldingSetNodeID i1, i2; o1->Profile(i1, f.C, true); o2->Profile(i2, f.C, true); if (i1 != i2) f.report(b->getBeginLoc(), "comparison", (n1 + " of one surface is compared with " + n2 + " of the other").str()); } }
      if (b->getOpcode() == BO_Sub && arith(b->getType())) { unsigned x = f.t(b->getLHS()), y = f.t(b->getRHS()); if ((x == U && y == V) || (x == V && y == U)) f.report(b->getBeginLoc(), "difference", std::string("a value of direction ") + nm(y) + " is subtracted from one of direction " + nm(x)); }
      if (b->getOpcode() == BO_Add) stride(b); return true; }
    void element(const Expr *base, const Expr *ix, SourceLocation l) { if (!numeric(base->getType()) || f.isBounds4(base)) return; unsigned c = f.t(base), i = idx(ix); if ((c == U && i == V) || (c == V && i == U)) f.report(l, "element", std::string("an array of direction ") + nm(c) + " is indexed over direction " + nm(i)); }
    bool VisitArraySubscriptExpr(ArraySubscriptExpr *a) { element(a->getBase(), a->getIdx(), a->getBeginLoc()); return true; }
    bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *o) { if (o->getOperator() == OO_Subscript && o->getNumArgs() == 2) element(o->getArg(0), o->getArg(1), o->getBeginLoc()); if (o->getOperator() == OO_Equal && o->getNumArgs() == 2) store(o->getArg(0), o->getArg(1), o->getBeginLoc()); return true; }
    unsigned idx(const Expr *e) { e = strip(e); if (auto *d = dyn_cast<DeclRefExpr>(e)) { auto it = f.loop.find(d->getDecl()); if (it != f.loop.end()) return it->second; return 0; } if (auto *b = dyn_cast<BinaryOperator>(e); b && b->isAdditiveOp() && f.C.getSourceManager().isBeforeInTranslationUnit(b->getBeginLoc(), b->getEndLoc())) { unsigned l = idx(b->getLHS()), r = idx(b->getRHS()); return l | r; } return 0; }
    void stride(BinaryOperator *b) { if (!b->getType()->isIntegerType()) return; auto one = [&](const Expr *mul, const Expr *in) { auto *m = dyn_cast<BinaryOperator>(strip(mul)); if (!m || m->getOpcode() != BO_Mul) return; for (int k = 0; k < 2; k++) { auto *S = k ? m->getLHS() : m->getRHS(); auto *A = k ? m->getRHS() : m->getLHS(); unsigned s = f.t(S), a = idx(A), i = idx(in); { HasLoop h(f); h.TraverseStmt(const_cast<Expr *>(S)); if (h.found) continue; } (void)a; if (s != U && s != V) continue; if ((i == U || i == V) && i != s) f.report(b->getBeginLoc(), "stride", std::string("an array of rows along ") + nm(s) + " is addressed with the indices of the directions interchanged"); } }; one(b->getLHS(), b->getRHS()); one(b->getRHS(), b->getLHS()); }
    bool VisitReturnStmt(ReturnStmt *r) { auto n = fname(f.F); if (!isa<CXXMethodDecl>(f.F) || !r->getRetValue() || !numeric(f.F->getReturnType())) return true; if (auto *m = dyn_cast<CXXMethodDecl>(f.F); m->getParent()->isLambda()) return true; unsigned d = suffixDir(n); if (!d || !isupper(n.back())) return true; unsigned a = f.t(r->getRetValue()); if ((a == U || a == V) && a != d) f.report(r->getBeginLoc(), "accessor", n + " returns a value of direction " + nm(a)); return true; } };
  void run() { bool two; auto d = paramDirs(F, two); for (unsigned i = 0; i < d.size(); i++) add(F->getParamDecl(i), d[i]); for (auto *p : F->parameters()) if (array4(p->getType()) && fname(p) .find("bounds") != std::string::npos) bounds4.insert(p);
    auto *B = F->getBody(); Uses us; us.TraverseStmt(B); turned = us.found; Flow fl(*this); auto flow = [&] { for (int k = 0; k < 8; k++) { changed = false; fl.TraverseStmt(B); if (auto *c = dyn_cast<CXXConstructorDecl>(F)) for (auto *i : c->inits()) if (i->getInit()) fl.TraverseStmt(i->getInit()); if (!changed) break; } };
    auto seed = tag; flow();
    Locals lo; lo.TraverseStmt(B); for (auto *p : F->parameters()) if (p->getIdentifier()) lo.names.insert(p->getName().str());
    for (auto *v : lo.v) { unsigned d = nameDir(v->getName()); if (!d || v->getName().size() > 2 || !numeric(v->getType())) continue; unsigned x = tag.count(v) ? tag[v] : 0; if ((x == 0 || x == (U | V)) && lo.names.count(sibling(v->getName()))) force[v] = d; }
    if (force.size()) { tag = seed; loop.clear(); for (auto &p : force) tag[p.first] = p.second; flow(); }
    if (tag.empty() && bounds4.empty()) { } else { functions.insert(F->getQualifiedNameAsString()); nTagged += tag.size(); }
    Check ck(*this); ck.TraverseStmt(B);
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) for (auto *i : c->inits()) if (i->getInit()) { ck.TraverseStmt(i->getInit()); if (auto *m = i->getMember()) if (unsigned x = numeric(m->getType()) ? suffixDir(fname(m)) : 0) { unsigned a = t(i->getInit()); if ((a == U || a == V) && a != x) report(i->getSourceLocation(), "store", fname(m) + " is initialised with a value of direction " + nm(a)); } } } };
// ---- CTOR-INIT: scalar members that a constructor leaves without a value
static std::vector<Finding> ctorFindings; static std::set<std::string> ctorClasses; static std::set<std::string> ctorSeen;
static bool scalarData(QualType t, int depth = 0) { t = t.getCanonicalType(); if (t->isReferenceType() || depth > 4) return false; if (t->isArithmeticType() || t->isEnumeralType() || t->isPointerType()) return true; if (auto *a = dyn_cast<ConstantArrayType>(t)) return scalarData(a->getElementType(), depth + 1);
  auto *r = t->getAsCXXRecordDecl(); if (!r || !r->hasDefinition() || !r->isAggregate() || r->hasInClassInitializer()) return false; for (auto *f : r->fields()) if (scalarData(f->getType(), depth + 1)) return true; return false; }
struct Mentions : RecursiveASTVisitor<Mentions> { std::set<const FieldDecl *> f; std::set<const FunctionDecl *> done; int depth = 0; bool whole = false; bool shouldVisitLambdaBody() const { return true; }
  bool VisitMemberExpr(MemberExpr *m) { if (auto *x = dyn_cast<FieldDecl>(m->getMemberDecl())) f.insert(x->getCanonicalDecl()); return true; }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *o) { if (o->isAssignmentOp()) if (auto *u = dyn_cast<UnaryOperator>(o->getArg(0)->IgnoreParenImpCasts()); u && isa<CXXThisExpr>(u->getSubExpr()->IgnoreParenImpCasts())) whole = true; return true; }
  bool VisitCallExpr(CallExpr *c) { auto *fd = c->getDirectCallee(); const FunctionDecl *d = nullptr; if (fd && inGbs(fd) && fd->getBody(d) && done.insert(d).second && depth < 4) { depth++; TraverseStmt(d->getBody()); depth--; } return true; } };
static void ctorCheck(ASTContext &C, CXXRecordDecl *r) { if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda() || r->isUnion() || !inGbs(r) || r->isAggregate() || !r->getIdentifier()) return; auto &S = C.getSourceManager(); auto L = S.getFileLoc(r->getLocation()); auto fe = S.getFileEntryRefForID(S.getFileID(L)); if (!fe) return; std::string p = fe->getFileEntry().tryGetRealPathName().str(); if (p.rfind(ROOT + "/", 0) != 0) return; p = p.substr(ROOT.size() + 1);
  std::vector<FieldDecl *> fs; for (auto *f : r->fields()) if (!f->hasInClassInitializer() && f->getIdentifier() && scalarData(f->getType())) fs.push_back(f); bool dataMembers = !r->field_empty(); if (dataMembers) ctorClasses.insert(r->getQualifiedNameAsString()); if (fs.empty()) return;
  auto rep = [&](FieldDecl *f, SourceLocation l, const char *what) { Finding x; x.file = p; x.line = S.getSpellingLineNumber(S.getFileLoc(l)); x.func = r->getQualifiedNameAsString(); x.what = f->getName().str(); x.msg = std::string(what) + " leaves the member " + f->getName().str() + " without a value"; if (ctorSeen.insert(x.file + x.func + x.what + what).second) ctorFindings.push_back(x); };
  bool any = false; for (auto *c : r->ctors()) { any = true; if (c->isDeleted() || c->isCopyOrMoveConstructor() || c->isDelegatingConstructor()) continue; const FunctionDecl *d = nullptr; const CXXConstructorDecl *k = c; if (c->getBody(d)) k = cast<CXXConstructorDecl>(d); else if (!c->isDefaulted() || c->isImplicit() && !r->hasDefaultConstructor()) { if (auto *pt = dyn_cast_or_null<CXXConstructorDecl>(c->getTemplateInstantiationPattern())) (void)pt; continue; }
    if (k->isDelegatingConstructor()) continue; std::set<const FieldDecl *> set; for (auto *i : k->inits()) if (i->getMember()) { auto *e = i->getInit(); if (e) e = e->IgnoreParenImpCasts(); bool dflt = false; if (auto *ce = dyn_cast_or_null<CXXConstructExpr>(e); ce && !i->isWritten() && ce->getNumArgs() == 0) dflt = true; if (!dflt) set.insert(i->getMember()->getCanonicalDecl()); }
    Mentions m; if (k->hasBody()) m.TraverseStmt(k->getBody()); if (m.whole) continue; for (auto *f : fs) if (!set.count(f->getCanonicalDecl()) && !m.f.count(f->getCanonicalDecl())) rep(f, c->getLocation(), c->isDefaultConstructor() ? "the default constructor" : "a constructor"); }
  if (!any && r->needsImplicitDefaultConstructor() && r->hasDefaultConstructor()) for (auto *f : fs) rep(f, r->getLocation(), "the default constructor"); }
struct Vis : RecursiveASTVisitor<Vis> { ASTContext &C; Vis(ASTContext &c) : C(c) {}
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { ctorCheck(C, r); return true; } bool shouldVisitTemplateInstantiations() const { return true; } bool shouldVisitLambdaBody() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) { if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || !inGbs(f)) return true; if (auto *m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda()) return true; auto &S = C.getSourceManager(); auto fe = S.getFileEntryRefForID(S.getFileID(S.getFileLoc(f->getLocation()))); if (!fe) return true; std::string p = fe->getFileEntry().tryGetRealPathName().str(); if (p.rfind(ROOT + "/", 0) != 0) return true; Fn x(C, f); x.run(); return true; } };
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Vis v(C); v.TraverseDecl(C.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) { // uv ROOT file flags...
  ROOT = argv[1]; std::vector<std::string> args; for (int i = 3; i < argc; i++) args.push_back(argv[i]); args.push_back("-w"); args.push_back("-resource-dir"); args.push_back("/usr/lib/llvm-18/lib/clang/18");
  std::ifstream in(argv[2]); std::stringstream s; s << in.rdbuf(); if (!clang::tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), s.str(), args, argv[2])) { std::cerr << "front end failed\n"; return 3; }
  llvm::json::Object o; llvm::json::Array a; for (auto &f : findings) a.push_back(llvm::json::Object{{"rule", "UV"}, {"file", f.file}, {"line", (int64_t)f.line}, {"func", f.func}, {"msg", f.msg}, {"key", f.file + "|" + f.func + "|" + f.what}, {"chain", llvm::json::Array{}}});
  for (auto &f : ctorFindings) a.push_back(llvm::json::Object{{"rule", "CTOR-INIT"}, {"file", f.file}, {"line", (int64_t)f.line}, {"func", f.func}, {"msg", f.msg}, {"key", f.file + "|" + f.func + "|" + f.what}, {"chain", llvm::json::Array{}}});
  o["findings"] = std::move(a); auto arr = [](std::set<std::string> &s) { llvm::json::Array a; for (auto &x : s) a.push_back(x); return a; };
  o["items"] = llvm::json::Object{{"UV\tfunctions", arr(functions)}, {"UV\tone-direction calls", arr(kernels)}, {"UV\ttwo-direction calls", arr(calls2)}, {"CTOR-INIT\tclasses", arr(ctorClasses)}}; o["counts"] = llvm::json::Object{{"UV", llvm::json::Object{{"tagged values", nTagged}}}};
  llvm::outs() << llvm::json::Value(std::move(o)) << "\n"; return 0; }
