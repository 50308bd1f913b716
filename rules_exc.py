"""ALL-OR-NOTHING: decided on writes followed by library exceptions (gbsa mode `exc`)."""
import re
from rules_facts import params
from rules_mod import argmap
CLS = re.compile(r"^gbs::(BS\w+|Curve\w*|Surface\w*|Line\w*|Circle\w*)(::|$)")
OBJ = re.compile(r"^(gbs::(BS|Curve|Surface)\w*<.*>|std::vector<(double|float|unsigned long|std::array<(double|float), \d+ul>), .*>|std::array<(double|float), \d+ul>)&$")
def rule_exc(fns):
    F = []; it = {"functions": set(), "objects": set(), "throwing": set()}; skipped = set()
    for j in fns:
        if "{lambda" in j["dem"] or "operator()" in j["dem"] or "~" in j["name"]: continue
        c = j["name"].split("::")
        if len(c) > 2 and c[-1] == c[-2]: continue  # a constructor that throws leaves no object
        ps = params(j)
        if ps is None: continue
        m, this = argmap(j, ps)
        if m is None: skipped.add(j["name"]); continue
        member = this is not None and CLS.match(j["name"]) and not j["dem"].rstrip().endswith("const")
        tgt = {a for a, i in m.items() if OBJ.match(ps[i]) and not ps[i].endswith("const&")}
        if member: tgt.add(this)
        if not tgt: continue
        it["functions"].add(j["name"])
        if j["throws"]: it["throwing"].add(j["name"])
        for a in tgt: it["objects"].add("%s(%s) #%s" % (j["name"], ", ".join(ps)[:100], "object" if a == this else m[a]))
        for w in j["left"]:
            if w["arg"] not in tgt: continue
            file, _, line = w["write"].rpartition(":")
            what = "the object" if w["arg"] == this else "argument %d" % (m[w["arg"]] + 1)
            F.append(dict(rule="ALL-OR-NOTHING", key="%s|%s|%s left half modified" % (file, j["name"], what), file=file, line=int(line or 0), func=j["name"], chain=[w["throw"]] + w["chain"],
              msg="%s writes %s here and may throw afterwards at %s: a failed call leaves it modified" % (j["name"], what, (w["chain"] or [w["throw"]])[-1][:150])))
    return dict(findings=F, counts={"ALL-OR-NOTHING": {"unmapped_signatures": len(skipped)}}, items={"ALL-OR-NOTHING\t" + k: sorted(v) for k, v in it.items()})
