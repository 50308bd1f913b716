"""INSTANTIATE: every public template is instantiated by the compiler's front end (no code generated, nothing run)."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
FLOAT = ["curve", "surf", "interp", "loft", "json"]          # single precision is supported for these parts
HEADERS_NOT_ALONE = {"gbs-mesh/smoothing.h", "gbs-io/iges.h", "gbs/curvescheck.h", "gbs/polestools.h", "gbs/transformpoints.h", "inc/topology/halfEdgeMeshQuality.h", "inc/topology/halfEdgeMeshRender.h", "gbs/surfaceoffset.h"}
def sources(repo):
    """(label, text or path) of every translation unit the front end must accept"""
    out = []
    for d in sorted(os.listdir(os.path.join(V, "drivers"))):
        m = re.match(r"d_(\w+)\.cpp$", d)
        if m:
            out.append(("driver %s double" % m.group(1), os.path.join(V, "drivers", d), "double"))
            if m.group(1) in FLOAT: out.append(("driver %s float" % m.group(1), os.path.join(V, "drivers", d), "float"))
    for sub in ("python", "gbs-occt", "gbs-render"):
        p = os.path.join(repo, sub)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if f.endswith(".cpp") and f != "gbsbind.cpp": out.append(("%s/%s" % (sub, f), os.path.join(p, f), None))
    for sub in ("gbs", "gbs/loft", "gbs-mesh", "gbs-io", "gbs-occt", "gbs-render", "inc/topology"):
        p = os.path.join(repo, sub)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if f.endswith((".h", ".ixx")) and "%s/%s" % (sub, f) not in HEADERS_NOT_ALONE: out.append(("header %s/%s" % (sub, f), os.path.join(p, f), "header"))
    return out
def rule(repo, tmp):
    from check import CXXF
    F = []; it = {"units": set(), "instantiation_requests": set()}
    def one(s):
        label, path, kind = s; args = ["clang++-18", *CXXF, "-I" + os.path.join(repo, "python"), "-fsyntax-only"]
        if kind == "header":
            p = os.path.join(tmp, "h_%s.cpp" % re.sub(r"\W", "_", label)); open(p, "w").write('#include "%s"\n' % path); args += [p]
        else:
            if kind: args += ["-I" + os.path.join(V, "drivers")]
            if kind == "float": args += ["-DDRV_T=float"]
            args += [path]
        return s, subprocess.run(args, capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, sources(repo)))
    for (label, path, kind), r in res:
        it["units"].add(label)
        if kind in ("double", "float"):
            for l in open(path):
                l = l.strip()
                if l.startswith(("auto ", "void ", "template class")): it["instantiation_requests"].add("%s: %s" % (label, l[:160]))
        if r.returncode == 0: continue
        if r.returncode < 0 or "fatal error" in r.stderr and "file not found" in r.stderr and "/repo" not in r.stderr: raise SystemExit("front end failed on %s: %s" % (label, r.stderr[:500]))
        seen = set()
        for blk in re.split(r"(?m)^(?=\S+:\d+:\d+: (?:fatal )?error:)", r.stderr):
            m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", blk)
            if not m: continue
            file, line, msg = m.group(1), int(m.group(2)), m.group(3); req = ""
            for n in re.finditer(r"(\S+?):(\d+):\d+: note: (.*)", blk):
                if not file.startswith(repo) and n.group(1).startswith(repo): file, line = n.group(1), int(n.group(2))
                if n.group(1).endswith(".cpp") and "drivers" in n.group(1) and not req: req = open(n.group(1)).read().split("\n")[int(n.group(2)) - 1].strip()[:200]
            rel = os.path.relpath(file, repo) if file.startswith(repo) else os.path.basename(file)
            if not req and file.endswith(".cpp") and "drivers" in file: req = open(file).read().split("\n")[line - 1].strip()[:200]
            key = "%s|%s|%s" % (rel, msg[:80], label if not rel.startswith(("gbs", "inc")) else "")
            if key in seen: continue
            seen.add(key)
            F.append(dict(rule="INSTANTIATE", key=key, file=rel, line=line, func=label, msg="does not compile when used: " + msg[:200], chain=["requested by: " + req] if req else []))
    return dict(findings=F, counts={"INSTANTIATE": {"units": len(res)}}, items={"INSTANTIATE\t" + k: sorted(v) for k, v in it.items()})
