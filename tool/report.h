// Findings and coverage counters, emitted as one JSON object per analysed driver.
#pragma once
#include "ir.h"
struct Finding { std::string rule, key, file, func, msg; unsigned line = 0; std::vector<std::string> chain; };
struct Report {
  std::vector<Finding> findings; std::map<std::string, std::map<std::string, long>> counts; std::map<std::string, std::set<std::string>> items; json::Object extra;
  void count(const std::string &rule, const std::string &what, long n = 1) { counts[rule][what] += n; }
  // named analysed instances: merged as sets over the drivers
  void item(const std::string &rule, const std::string &kind, const std::string &s) { items[rule + "\t" + kind].insert(s); }
  void add(Finding f) { for (auto &g : findings) if (g.rule == f.rule && g.key == f.key) return; findings.push_back(std::move(f)); }
  void add(const std::string &rule, const Instruction *I, const std::string &func, const std::string &what, const std::string &msg, std::vector<std::string> chain = {}) {
    Loc l = repoLoc(I); Finding f; f.rule = rule; f.file = l.file; f.line = l.line; f.func = func; f.msg = msg; f.chain = std::move(chain);
    f.key = l.file + "|" + func + "|" + what; add(f);
  }
  void print(raw_ostream &os) {
    json::Object root; json::Array fs;
    for (auto &f : findings) { json::Array c; for (auto &s : f.chain) c.push_back(s); fs.push_back(json::Object{{"rule", f.rule}, {"key", f.key}, {"file", f.file}, {"line", (int64_t)f.line}, {"func", f.func}, {"msg", f.msg}, {"chain", std::move(c)}}); }
    root["findings"] = std::move(fs);
    json::Object cs; for (auto &[r, m] : counts) { json::Object o; for (auto &[k, v] : m) o[k] = (int64_t)v; cs[r] = std::move(o); } root["counts"] = std::move(cs);
    json::Object is; for (auto &[k, v] : items) { json::Array a; for (auto &s : v) a.push_back(s); is[k] = std::move(a); } root["items"] = std::move(is);
    for (auto &kv : extra) root[kv.first] = std::move(kv.second);
    os << json::Value(std::move(root)) << "\n";
  }
};
// demangled name without template arguments, parameters and return type
std::string shortName(const Function *F);
std::string enclosingName(const Function *F); // for lambdas: the function they are written in
