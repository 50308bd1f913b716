#include "report.h"
static std::string strip(std::string d) {
  // neutralise operators that contain brackets
  auto rep = [&](const char *a, const char *b) { size_t p = 0, n = strlen(a); while ((p = d.find(a, p)) != std::string::npos) { d.replace(p, n, b); p += strlen(b); } };
  rep("operator()", "operator@call"); rep("operator<<", "operator@shl"); rep("operator<=>", "operator@cmp"); rep("operator<=", "operator@le"); rep("operator->", "operator@arrow"); rep("operator>>", "operator@shr"); rep("operator>=", "operator@ge");
  rep("operator<", "operator@lt"); rep("operator>", "operator@gt"); rep("(anonymous namespace)", "@anon");
  std::string o; int a = 0, p = 0;
  for (size_t i = 0; i < d.size(); i++) { char c = d[i]; if (c == '<') { a++; continue; } if (c == '>') { if (a) a--; continue; } if (a) continue; if (c == '(') { p++; if (p == 1) o += '('; continue; } if (c == ')') { if (p) p--; if (!p) o += ')'; continue; } if (p) continue; o += c; }
  return o;
}
std::string shortName(const Function *F) {
  std::string o = strip(demangled(F));
  size_t cut = o.rfind("()"); // parameter list
  std::string q = o;
  if (cut != std::string::npos) { q = o.substr(0, cut); if (q.size() >= 1 && q.find("::'lambda") != std::string::npos) {} }
  // return type: last space before the qualified name at bracket level 0
  size_t sp = q.find(" gbs::"); if (sp != std::string::npos) q = q.substr(sp + 1);
  auto rep = [&](const std::string &a, const std::string &b) { size_t p = 0; while ((p = q.find(a, p)) != std::string::npos) { q.replace(p, a.size(), b); p += b.size(); } };
  rep("operator@call", "operator()"); rep("operator@lt", "operator<"); rep("operator@gt", "operator>"); rep("operator@arrow", "operator->"); rep("@anon", "(anonymous)"); rep("'lambda'", "lambda"); rep("()", ""); rep(" const", "");
  return q;
}
std::string enclosingName(const Function *F) { std::string s = shortName(F); size_t p = s.find("::lambda"); if (p == std::string::npos) p = s.find("::'lambda"); return p == std::string::npos ? s : s.substr(0, p); }
