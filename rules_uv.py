"""UV: the two parametric directions of a surface are never interchanged (direction inference over the typed, instantiated syntax tree)."""
import json, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
def rule_uv(repo, tmp):
    from check import CXXF, compile_driver, die
    out = os.path.join(V, ".build"); b = subprocess.run(["make", "-s", "-C", os.path.join(V, "tool_ast"), "OUT=" + out], capture_output=True, text=True)
    if b.returncode: die("cannot build the syntax tree analyser: " + b.stderr[-500:])
    ds = sorted(f[2:-4] for f in os.listdir(os.path.join(V, "drivers")) if f.startswith("d_") and f.endswith(".cpp"))
    def run(p): return subprocess.run([os.path.join(out, "uv"), repo, p, *CXXF, "-I" + os.path.join(V, "drivers")], capture_output=True, text=True)
    def one(d):
        r = run(os.path.join(V, "drivers", "d_%s.cpp" % d))
        if r.returncode == 0: return json.loads(r.stdout)
        t = tempfile.mkdtemp(dir=tmp); compile_driver(d, t)  # leaves the driver without the requests that no longer compile
        r = run(os.path.join(t, "d_%s.cpp" % d))
        if r.returncode: die("syntax tree of driver %s: %s" % (d, r.stderr[-500:]))
        return json.loads(r.stdout)
    F, items, n = {}, {}, 0
    with ThreadPoolExecutor(8) as ex:
        for j in ex.map(one, ds):
            for f in j["findings"]: F.setdefault((f["rule"], f["file"], f["line"], f["msg"]), f)
            for k, v in j["items"].items(): items.setdefault(k, set()).update(v)
            n += sum(j["counts"]["UV"].values())
    return dict(findings=list(F.values()), counts={"UV": {"tagged values": n}}, items={k: sorted(v) for k, v in items.items()})
