#!/usr/bin/env python3
"""Run the static check of one property on /repo's current working tree.

usage: check.py <property id> [quick|thorough]
exit 0: every analysed construct satisfies the rule;  exit 1: VIOLATION line(s);  exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GBS_REPO", "/repo")
TOOL = os.path.join(V, ".build", "gbsa")
from props import PROPS  # property -> rules, drivers, floors
CXXF = ("-DNLOPT_DLL -I{r} -I{r}/inc -I/usr/include/opencascade -isystem /usr/include/eigen3 -isystem /usr/include/vtk-9.1 "
        "-isystem /usr/include/freetype2 -isystem /usr/include/python3.12 -w -DNDEBUG -D_GLIBCXX_USE_TBB_PAR_BACKEND=0 "
        "-std=gnu++20 -DRAPIDJSON_HAS_CXX11_RVALUE_REFS -ferror-limit=0 -fno-color-diagnostics").format(r=REPO).split()
BC = "-O1 -Xclang -disable-llvm-passes -gline-tables-only -flto -fvisibility=hidden -fwhole-program-vtables -emit-llvm -c".split()

def die(msg):
    print("NO ANSWER: " + msg, flush=True); sys.exit(2)

def build_tool():
    r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(V, "tool"), "OUT=" + os.path.join(V, ".build")], capture_output=True, text=True)
    if r.returncode: die("cannot build the analyser:\n" + r.stderr[-2000:])

def compile_driver(d, tmp):
    """bitcode of one driver; lines whose instantiation no longer compiles are dropped and reported"""
    src = open(os.path.join(V, "drivers", "d_%s.cpp" % d)).read().split("\n"); dropped = []
    for attempt in range(8):
        p = os.path.join(tmp, "d_%s.cpp" % d); open(p, "w").write("\n".join(src)); bc = os.path.join(tmp, d + ".bc")
        r = subprocess.run(["clang++-18", *CXXF, "-I" + os.path.join(V, "drivers"), *BC, p, "-o", bc], capture_output=True, text=True)
        if r.returncode == 0: return bc, dropped
        if r.returncode < 0 or "fatal error" in r.stderr: die("driver %s: %s" % (d, r.stderr[:1500]))
        lines = set()
        for blk in re.split(r"(?m)^(?=\S+:\d+:\d+: (?:fatal )?error:)|^(?=In file included)", r.stderr):
            if "error:" in blk:
                for m in re.finditer(r"d_%s\.cpp:(\d+):\d+: (?:error|note)" % d, blk): lines.add(int(m.group(1)))
        lines = {l for l in lines if src[l - 1].strip() and not src[l - 1].lstrip().startswith(("#", "namespace", "template class", "using"))}
        if not lines: die("driver %s does not compile: %s" % (d, r.stderr[:1500]))
        for l in lines: dropped.append(src[l - 1].strip()); src[l - 1] = ""
    die("driver %s does not compile" % d)

def analyse(d, modes, tmp, env):
    bc, dropped = compile_driver(d, tmp)
    r = subprocess.run([TOOL, modes, bc], capture_output=True, text=True, env=dict(os.environ, **env))
    if r.returncode: die("analysis of driver %s failed (%d): %s" % (d, r.returncode, r.stderr[-1000:]))
    return d, json.loads(r.stdout), dropped

def known(pid):
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time(); build_tool(); spec = PROPS[pid]; tmp = tempfile.mkdtemp(prefix="gbsa_")
    try:
        drivers = spec["drivers"]; modes = ",".join(spec["modes"]); res = []
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(analyse, d, modes, tmp, spec.get("env", {})) for d in drivers]
            extra = [ex.submit(f, REPO, tmp) for f in spec.get("extra", [])]
            try:
                for f in futs: res.append(f.result())
                for f in extra: res.append(("source", f.result(), []))
            except SystemExit as e:
                sys.stdout.flush(); shutil.rmtree(tmp, ignore_errors=True); os._exit(e.code)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if spec.get("mod"): res.append(("mods", spec["mod"]([f for _, j, _ in res for f in j.get("mods", [])]), []))
    if spec.get("live"): res.append(("live", spec["live"]([f for _, j, _ in res for f in j.get("live", [])]), []))
    if spec.get("exc"): res.append(("exc", spec["exc"]([f for _, j, _ in res for f in j.get("exc", [])]), []))
    if spec.get("post"): res.append(("facts", spec["post"]([f for _, j, _ in res for f in j.get("fns", [])]), []))
    rules = spec["rules"]; findings = {}; counts = {}; items = {}; dropped = []
    for d, j, dr in res:
        dropped += ["%s: %s" % (d, x) for x in dr]
        for f in j["findings"]:
            if f["rule"] in rules: findings.setdefault((f["rule"], f["key"]), f)
        for r, m in j["counts"].items():
            if r in rules or r == "ALL":
                for k, v in m.items(): counts[r + "." + k] = counts.get(r + "." + k, 0) + v
        for k, v in j["items"].items():
            r, kind = k.split("\t")
            if r in rules: items.setdefault(r + "." + kind, set()).update(v)
    low = ["%s: %d < %d" % (k, len(items.get(k, ())), n) for k, n in spec["floors"].items() if len(items.get(k, ())) < n]
    kn = known(pid); viol = []; kf = []
    for (r, key), f in sorted(findings.items()):
        (kf if r + "|" + key in kn else viol).append(f)
    cov = {"explanation": spec["explain"], "rule": spec["rule"]}
    for k, v in sorted(items.items()): cov["n_" + k] = len(v)
    cov.update({"count_" + k: v for k, v in sorted(counts.items())})
    cov["samples"] = {k: sorted(v)[:12] for k, v in sorted(items.items())}
    cov["drivers"] = drivers
    if dropped: cov["dropped_driver_lines"] = dropped
    cov["violations"] = [{k: f[k] for k in ("rule", "key", "file", "line", "func", "msg")} for f in viol]
    cov["known_findings"] = [f["rule"] + "|" + f["key"] for f in kf]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2)},
              open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for f in kf: print("KNOWN-FINDING: property=%s %s:%d %s: %s" % (pid, f["file"], f["line"], f["func"], kn[f["rule"] + "|" + f["key"]]))
    if viol:
        os.makedirs(os.path.join(V, "replay"), exist_ok=True); rp = os.path.join(V, "replay", pid + ".json")
        json.dump({"property": pid, "replay_cmd": "python3 %s/check.py %s" % (V, pid), "violations": viol}, open(rp, "w"), indent=1)
        for f in viol:
            print("%s:%d: [%s] in %s: %s" % (f["file"], f["line"], f["rule"], f["func"], f["msg"]))
            for c in f["chain"][:12]: print("      via " + c)
        for f in viol: print("   key=[%s|%s]" % (f["rule"], f["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1
    if low: die("analysed too little for the result to mean anything: " + "; ".join(low))
    print("OK property=%s %s (%.1f s)" % (pid, " ".join("%s=%d" % (k, len(v)) for k, v in sorted(items.items())), time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.path.insert(0, V); sys.exit(main())
