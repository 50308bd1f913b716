"""ARG-USED: decided on argument liveness (gbsa mode `live`)."""
import re
from rules_facts import params
from rules_mod import argmap
# parameters documented as kept for a common interface or for compatibility: (function, position, reason)
KEPT = {
 ("gbs::eval_value_decasteljau", 5): "documented: kept for API compatibility", ("gbs::eval_rational_value_simple", 5): "documented: kept for API compatibility",
 ("gbs::blend", 0): "evaluation points of a common interface", ("gbs::blend", 1): "evaluation points of a common interface", ("gbs::blend", 2): "evaluation points of a common interface",
 ("gbs::build_poles_matrix", 3): "size kept for API compatibility", ("gbs::build_loft_surface_poles", 3): "common interface of the rational and polynomial versions", ("gbs::build_loft_surface_poles", 4): "common interface of the rational and polynomial versions",
 ("gbs::spine_tangent_to_pole", 2): "common interface of the rational and polynomial versions", ("gbs::abs_curv_adaptive_discretzation", 4): "degree of an approximation that is not made any more",
 ("gbs::recoverEdge", 0): "container of a common interface", ("gbs::laplacian_smoothing", 0): "container of a common interface",
 ("gbs::plus", 2): "common interface of the blending sums", ("gbs::plus", 3): "common interface of the blending sums",
}
KEPT_TOL = re.compile(r"^gbs::(boyerWatson|delaunay2DBoyerWatson\w*|delaunay2DConstrained)$")  # documented tolerance of exact predicates, not needed any more
def kept(name, i, t): return (name, i) in KEPT or (KEPT_TOL.match(name) and t == "double")
def rule_live(fns):
    F = []; it = {"functions": set(), "parameters": set(), "kept_parameters": set()}; skipped = set()
    for j in fns:
        if "{lambda" in j["dem"] or "operator()" in j["dem"]: continue
        ps = params(j)
        if not ps: continue
        m, this = argmap(j, ps)
        if m is None: skipped.add(j["name"]); continue
        short = j["name"].rsplit("::", 1)[-1]; cls = j["name"].rsplit("::", 2)[-2] if j["name"].count("::") > 1 else ""
        if short in (cls, "operator=", "~" + cls) and len(ps) == 1 and re.match(r"^gbs::%s<.*(&|&&)$" % re.escape(cls), ps[0]): continue  # copy of a class without data
        it["functions"].add(j["name"])
        dead = {m[a] for a in j["dead"] if a in m}; alive = {m[a] for a in m if a not in j["dead"]}
        for i, p in enumerate(ps):
            sig = "%s(%s) #%d" % (j["name"], ", ".join(ps)[:120], i); it["parameters"].add(sig)
            if i not in dead or i in alive: continue
            if kept(j["name"], i, p): it["kept_parameters"].add(sig); continue
            file, _, line = j["loc"].rpartition(":")
            F.append(dict(rule="ARG-USED", key="%s|%s|parameter %d %s" % (file, j["name"], i + 1, p[:40]), file=file, line=int(line or 0), func=j["name"], chain=[],
              msg="parameter %d (%s) of %s influences neither its result, nor what it writes, nor what it throws" % (i + 1, p[:80], j["name"])))
    return dict(findings=F, counts={"ARG-USED": {"unmapped_signatures": len(skipped)}}, items={"ARG-USED\t" + k: sorted(v) for k, v in it.items()})
