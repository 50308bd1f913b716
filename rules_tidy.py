"""PRECISION on the syntax tree: integer quotients used as reals whose operands the compiler folds (clang-tidy's typed matcher, over the instantiated templates)."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
def rule_tidy(repo, tmp):
    from check import CXXF
    ds = sorted(f for f in os.listdir(os.path.join(V, "drivers")) if f.startswith("d_") and f.endswith(".cpp"))
    def one(d):
        r = subprocess.run(["clang-tidy-18", os.path.join(V, "drivers", d), "--checks=-*,bugprone-integer-division", "--quiet",
                            "--header-filter=" + re.escape(repo) + "/(gbs|gbs-mesh|gbs-io|inc)/.*", "--", *[x for x in CXXF if x not in ("-w", "-ferror-limit=0", "-fno-color-diagnostics")], "-I" + os.path.join(V, "drivers")], capture_output=True, text=True)
        return r.stdout
    F, seen = {}, set()
    with ThreadPoolExecutor(3) as ex:
        for d, out in zip(ds, ex.map(one, ds)):
            seen.add(d)
            for m in re.finditer(r"(?m)^(\S+?):(\d+):\d+: warning: (.*?) \[bugprone-integer-division\]", out):
                f = os.path.relpath(m.group(1), repo); l = int(m.group(2))
                if f.startswith(".."): continue
                F[(f, l)] = dict(rule="PRECISION", key="%s|integer quotient|%d" % (f, l), file=f, line=l, func="(syntax tree)", msg="an integer quotient is used as a real value: its fraction is lost", chain=[])
    return dict(findings=list(F.values()), counts={}, items={"PRECISION\tsyntax trees": sorted(seen)})
