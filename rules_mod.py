"""Rules decided on interprocedural write sets (gbsa mode `mod`)."""
import re
from rules_facts import params, split_top

def slots(t):
    """number of IR arguments a parameter of this type takes when passed by value"""
    t = t.strip()
    if t.endswith(("&", "*")): return 1
    m = re.match(r"^std::array<(double|unsigned long|float), (\d+)ul>$", t)
    if m: return {"double": {1: 1, 2: 2}, "unsigned long": {1: 1, 2: 2}, "float": {1: 1, 2: 1, 3: 2, 4: 2}}[m.group(1)].get(int(m.group(2)), 1)
    if re.match(r"^std::(basic_string_view|span)<", t): return 2
    if re.match(r"^std::pair<(double|unsigned long|long), (double|unsigned long|long)>$", t): return 2
    return 1
def argmap(j, ps):
    """IR argument index -> parameter index, and the index of the object argument of a member function (or None)"""
    b = 1 if j["sret"] else 0; n = [slots(p) for p in ps]; tot = sum(n)
    if j["nargs"] - b == tot + 1: this = b; k = b + 1
    elif j["nargs"] - b == tot: this = None; k = b
    else: return None, None
    m = {}
    for i, c in enumerate(n):
        for _ in range(c): m[k] = i; k += 1
    return m, this
def finding(rule, j, w, what, msg):
    file, _, line = w["loc"].rpartition(":")
    fn = w["in"] or j["name"]
    return dict(rule=rule, key="%s|%s|%s" % (file, fn, what), file=file, line=int(line or 0), func=fn, msg=msg, chain=w["chain"])
CONSTREF = re.compile(r" const(&|\*)$")
CONSTIT = re.compile(r"^__gnu_cxx::__normal_iterator<[^<]*(<.*>)? const\*, |^std::_(List|Rb_tree)_const_iterator<")
SHARED = re.compile(r"^std::shared_ptr<gbs::(Curve|Surface|BSCurve|BSSurface|BSCurveGeneral|BSSurfaceGeneral|BSCurveRational|BSSurfaceRational|BSCfunction)<")
def protected(p):
    """least depth of a write through this parameter that changes what the caller handed over; None if the callee may write"""
    p = p.strip()
    if CONSTREF.search(p): return 0
    if CONSTIT.search(p): return 0
    if SHARED.search(p) and not p.endswith("&"): return 1
    return None
def rule_inputs(fns):
    """INPUT-CONST: what a caller hands over by reference to const is left as it was, in depth"""
    F = []; items = {"functions": set(), "parameters": set()}; skipped = set()
    for j in fns:
        if "{lambda" in j["dem"] or "operator()" in j["dem"]: continue
        ps = params(j)
        if not any(protected(p) is not None for p in ps): continue
        m, this = argmap(j, ps)
        if m is None: skipped.add(j["name"]); continue
        items["functions"].add(j["name"])
        for i, p in enumerate(ps):
            if protected(p) is not None: items["parameters"].add("%s(%s) #%d" % (j["name"], ", ".join(ps)[:120], i))
        for w in j["writes"]:
            if w["arg"] not in m: continue
            i = m[w["arg"]]; p = ps[i]
            d0 = protected(p)
            if d0 is None or w["depth"] < d0 or (w["depth"] > 0 and "HalfEdge" in p): continue
            F.append(finding("INPUT-CONST", j, w, "modifies input", "modifies %s its const parameter %d (%s) of %s" % ("memory reachable from" if w["depth"] else "", i + 1, p[:80], j["name"])))
    return dict(findings=F, counts={"INPUT-CONST": {"unmapped_signatures": len(skipped)}}, items={"INPUT-CONST\t" + k: sorted(v) for k, v in items.items()})
