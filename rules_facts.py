"""Rules decided on the return facts of library functions (gbsa mode `spec`).

A requirement is a linear relation over named quantities of a call (parameter, bounds, sizes, degrees).
It holds when the conditions that are true at *every* normal return of the function imply it.
"""
import re

# ------------------------------------------------------------------ linear forms
class L:
    def __init__(s, t=None, c=0.0): s.t = {k: v for k, v in (t or {}).items() if abs(v) > 1e-9}; s.c = c
    def __add__(s, o): o = L.of(o); t = dict(s.t); [t.__setitem__(k, t.get(k, 0) + v) for k, v in o.t.items()]; return L(t, s.c + o.c)
    __radd__ = __add__
    def __neg__(s): return s.scale(-1)
    def __sub__(s, o): return s + L.of(o).scale(-1)
    def __rsub__(s, o): return L.of(o) - s
    def scale(s, k): return L({a: v * k for a, v in s.t.items()}, s.c * k)
    def __mul__(s, o):
        o = L.of(o)
        if not s.t: return o.scale(s.c)
        if not o.t: return s.scale(o.c)
        return L({"mul(%s,%s)" % tuple(sorted((s.key(), o.key()))): 1.0})
    __rmul__ = __mul__
    def key(s): return "+".join(["%.5g*%s" % (v, k) for k, v in sorted(s.t.items())] + (["%.5g" % s.c] if abs(s.c) > 1e-12 else []))
    @staticmethod
    def of(x): return x if isinstance(x, L) else L({}, float(x))

def split_top(s, seps):
    """split at separators outside brackets; yields (sep, piece)"""
    out = []; d = 0; cur = ""; sep = ""
    for i, ch in enumerate(s):
        if ch in "([{<": d += 1
        elif ch in ")]}>": d -= 1
        if d == 0 and ch in seps and not (ch in "+-" and i and s[i - 1] == "e" and i > 1 and s[i - 2].isdigit() and i + 1 < len(s) and s[i + 1].isdigit()):
            if cur or out or sep: out.append((sep, cur))
            sep = ch; cur = ""
        else: cur += ch
    out.append((sep, cur)); return [(a, b) for a, b in out if b != ""]

NUM = re.compile(r"^\d+(\.\d+)?(e[+-]?\d+)?$")
def parse(s, ren):
    r = L()
    for sg, p in split_top(s, "+-"):
        k = -1.0 if sg == "-" else 1.0; m = re.match(r"^(\d+(?:\.\d+)?(?:e[+-]?\d+)?)\*(.*)$", p)
        if NUM.match(p): r = r + k * float(p)
        elif m: r = r + atom(m.group(2), ren).scale(k * float(m.group(1)))
        else: r = r + atom(p, ren).scale(k)
    return r
def atom(a, ren):
    if a in ren: return ren[a]
    m = re.match(r"^(mul|rem|min|max|div)\((.*)\)$", a)
    if m:
        ps = [x for _, x in split_top(m.group(2), ",")]
        if len(ps) == 2:
            x, y = parse(ps[0], ren), parse(ps[1], ren)
            if m.group(1) == "mul": return x * y
            return L({"%s(%s,%s)" % (m.group(1), x.key(), y.key()): 1.0})
    return L({a: 1.0})
def norm(f, ren):
    r = L({}, f["c"])
    for k, v in f["t"].items(): r = r + atom(k, ren).scale(v)
    return f["k"], r

def near(a, b): return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
def ratio(f, q):
    """s with f.t == s * q.t, else None"""
    if set(f.t) != set(q.t) or not q.t: return None
    k = max(q.t, key=lambda z: abs(q.t[z])); s = f.t[k] / q.t[k]
    return s if all(abs(f.t[a] - s * q.t[a]) <= 1e-5 * max(1.0, abs(s * q.t[a])) for a in q.t) else None

def reduce_eq(l, eqs):
    for pv, e in eqs:
        if pv in l.t: l = l - e.scale(l.t[pv] / e.t[pv])
        l = L({k: v for k, v in l.t.items() if abs(v) > 1e-4}, l.c)
    return l
def solve_eqs(facts, keep):
    """triangular system of the equality facts; pivots on quantities outside `keep` first"""
    eqs = []; ge = {l.key() for k, l in facts if k == "GE0"}
    for k, l in facts:
        if k != "EQ0" and not (k == "GE0" and l.t and l.scale(-1).key() in ge): continue
        l = reduce_eq(l, eqs)
        if not l.t: continue
        pv = sorted(l.t, key=lambda a: (a in keep, "mul(" in a, a))[0]
        eqs = [(p, (e - l.scale(e.t[pv] / l.t[pv])) if pv in e.t else e) for p, e in eqs] + [(pv, l)]
    return eqs
def implied(kind, q, facts, keep):
    """(implied, strongest matching constant): facts imply q >= 0 / q == 0 / q != 0"""
    eqs = solve_eqs(facts, keep); qr = reduce_eq(q, eqs)
    if not qr.t: return (abs(qr.c) < 1e-9 if kind == "EQ0" else qr.c >= -1e-9), 0.0
    for k, l in facts:
        for f in (l, reduce_eq(l, eqs)):
            for qq in (q, qr):
                s = ratio(f, qq)
                if s is None: continue
                d = f.c - s * qq.c
                if kind == "EQ0" and k == "EQ0" and abs(d) < 1e-6: return True, 0.0
                if kind == "GE0" and k == "GE0" and s > 0 and d <= 1e-9: return True, -d / s
                if kind == "GE0" and k == "EQ0" and -d / s >= -1e-9: return True, 0.0
                # a count that differs from zero
                if kind == "GE0" and k == "NE0" and len(qq.t) == 1 and abs(qq.c + 1) < 1e-9 and abs(f.c) < 1e-9: return True, 0.0
                if kind == "NE0" and k in ("NE0",) and abs(d) < 1e-9: return True, 0.0
                if kind == "NE0" and k == "GE0" and s > 0 and d < -1e-12: return True, 0.0
    return False, None

# ------------------------------------------------------------------ signatures
SZ = {"double": 8, "float": 4, "unsigned long": 8, "int": 4, "long": 8, "unsigned int": 4, "bool": 1}
def sizeof(t):
    t = t.strip()
    if t in SZ: return SZ[t]
    m = re.match(r"^std::array<(.*), (\d+)ul>$", t)
    if m and sizeof(m.group(1)): return sizeof(m.group(1)) * int(m.group(2))
    if t.endswith("*"): return 8
    if t.startswith("std::shared_ptr<"): return 16
    if t.startswith("std::vector<"): return 24
    m = re.match(r"^std::(tuple|pair)<(.*)>$", t)
    if m:
        ss = [sizeof(x) for _, x in split_top(m.group(2), ",")]
        if all(ss): return sum((s + 7) // 8 * 8 for s in ss)
    return None
def params(fn):
    """parameter types of the demangled name"""
    d = re.sub(r" const$", "", fn["dem"].strip())
    if not d.endswith(")"): return []
    dep = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] in ")>": dep += 1
        elif d[i] in "(<": dep -= 1
        if dep == 0: break
    return [p.strip() for _, p in split_top(d[i + 1:-1], ",")]
def elem(t):
    """element type of a vector parameter type"""
    t = re.sub(r"( const)?&*$", "", t.strip()).strip()
    m = re.match(r"^std::vector<(.*)>$", t)
    if not m: return None
    return split_top(m.group(1), ",")[0][1].strip()
def bare(t): return re.sub(r"( const)?[&*]*$", "", t.strip()).strip()
def is_member(fn, ps): return fn["nargs"] - (1 if fn["sret"] else 0) == len(ps) + 1
def fval(fn): return "float" if re.search(r"<float[,>]", fn["dem"]) else "double"

class Fn:
    """one analysed instance with argument naming"""
    def __init__(s, j):
        s.j = j; s.name = j["name"]; s.ps = params(j); s.mem = is_member(j, s.ps); s.this = 1 if j["sret"] else 0; s.base = s.this + (1 if s.mem else 0); s.loc = j["loc"]; s.fsz = 4 if fval(j) == "float" else 8
    def a(s, i): return "a%d" % (s.base + i)
    def T(s): return "a%d" % s.this
def group(fns):
    seen = {}; out = []
    for j in fns:
        k = (j["name"], j["dem"])
        if k not in seen: seen[k] = 1; out.append(Fn(j))
    return out

# ------------------------------------------------------------------ class layout, from what the accessors return
class Layout:
    def __init__(s, fns):
        s.m = {}
        for f in fns:
            cls, _, meth = f.name.rpartition("::")
            if f.j["ret"] and meth in ("bounds", "poles", "knotsFlats", "knotsFlatsU", "knotsFlatsV", "degree", "degreeU", "degreeV"):
                key = re.sub(r"^gbs::", "", cls)
                tg = re.search(r"gbs::%s<([^()]*?)>::%s\(" % (re.escape(key), meth), f.j["dem"])
                s.m.setdefault((key, tg.group(1) if tg else "", meth), (f, f.j["ret"]))
    def get(s, cls, targs, meth):
        r = s.m.get((cls, targs, meth))
        if r is None:
            c = [v for k, v in s.m.items() if k[0] == cls and k[2] == meth]
            r = c[0] if c else None
        return r
    def field(s, cls, targs, meth, this):
        """text of the field address / load behind an accessor, for object `this`"""
        r = s.get(cls, targs, meth)
        if not r: return None
        f, ret = r; l = ret.get("0")
        if not l: return None
        t = l["t"]
        if len(t) == 1:
            k = list(t)[0]
            if k == f.T(): return "%s%s" % (this, "+%d" % l["c"] if l["c"] else "")
            return k.replace("[" + f.T() + "+", "[" + this + "+") if l["c"] == 0 else None
    def bounds(s, cls, targs, this):
        r = s.get(cls, targs, "bounds"); out = {}
        if r:
            f, ret = r
            for o, l in ret.items():
                if len(l["t"]) == 1 and l["c"] == 0:
                    k = list(l["t"])[0]; out[int(o)] = re.sub(r"(?<=[\[(])%s(?=[\]+)])" % f.T(), this, k)
        return out
OWNER = {"BSCurve": ("BSCurveGeneral", "false"), "BSCurveRational": ("BSCurveGeneral", "true"), "BSSurface": ("BSSurfaceGeneral", "false"), "BSSurfaceRational": ("BSSurfaceGeneral", "true")}

def finding(rule, fn, what, msg):
    file, _, line = fn.loc.rpartition(":")
    return dict(rule=rule, key="%s|%s|%s" % (file, fn.name, what), file=file, line=int(line or 0), func=fn.name, msg=msg, chain=[fn.j["dem"][:200]])

def opaque_guard(fn, need, fp=None, noloop=False, cmps=True, only=False):
    """a rejecting condition over the same quantities exists but is not expressible as a linear relation"""
    for g in fn.j["guards"]:
        if not g["opaque"] or not g["own"] or noloop and g["loop"] or not cmps and g["cmps"]: continue
        if fp is not None and g["fp"] != fp and not g["opaque"]: continue
        have = {(d[0], d[2]) for d in g["deps"]}
        if only and any(d[2] > 1 or d[0] not in {n[0] for n in need} for d in g["deps"]): continue  # depends on other things: not this condition
        if all(any((n[0] == h[0] and (n[1] is None or n[1] == h[1])) for h in have) for n in need): return g["loc"]
    return None

# ------------------------------------------------------------------ C05 DOMAIN
DOMAIN = [("BSCurve", "value", "uC"), ("BSCurve", "derivatives", "uC"), ("BSCurveRational", "value", "uC"), ("BSCurveRational", "derivatives", "uC"),
          ("BSCfunction", "operator", "uC"), ("BSCfunction", "value", "uC"), ("CurveTrimmed", "value", "uC"),
          ("BSSurface", "value", "UV"), ("BSSurfaceRational", "value", "UV"), ("BSSurfaceGeneral", "derivatives", "UV"), ("BSSfunction", "operator", "UV"), ("BSSfunction", "value", "UV"),
          ("BSSurfaceGeneral", "isoU", "U"), ("BSSurfaceGeneral", "isoV", "V")]
DOMAIN_RE = "::(bounds|value|derivatives|operator|isoU|isoV)$"
TOL = 1e-5
def targs(fn, cls):
    m = re.search(r"gbs::%s<([^()]*?)>::" % re.escape(cls), fn.j["dem"]); return m.group(1) if m else ""
def rule_domain(fns):
    fns = group(fns); lay = Layout(fns); F = []; items = set(); incon = set(); ob = 0
    for f in fns:
        cls, _, meth = f.name.rpartition("::"); cls = cls.replace("gbs::", "", 1)
        sp = [s for c, m, s in DOMAIN if c == cls and m == meth]
        if not sp or not f.ps or f.ps[0] != "double" or not f.mem: continue
        sp = sp[0]; need = {"uC": [(0, 0, 1)], "U": [(0, 0, 1)], "V": [(0, 2, 3)], "UV": [(0, 0, 1), (1, 2, 3)]}[sp]
        if sp == "UV" and (len(f.ps) < 2 or f.ps[1] != "double"): continue
        t = f.T(); ren = {"virtual bounds(%s)@%d" % (t, 8 * k): L({"B%d" % k: 1.0}) for k in range(4)}
        own, rat = OWNER.get(cls, (cls, None)); ta = targs(f, cls)
        for o, txt in lay.bounds(own, ta + (", " + rat if rat else ""), t).items():
            if txt.startswith("L["): ren[txt] = L({"B%d" % (o // 8): 1.0})
        facts = [norm(x, ren) for x in f.j["facts"]]; items.add(f.name + "(" + ",".join(f.ps)[:60] + ")")
        for i, lo, hi in need:
            p = f.a(i)
            def near_one(k, l, side):
                if k != "GE0" or p not in l.t: return False
                s = abs(l.t[p]); l = l.scale(1 / s); want = {p: 1, "B%d" % lo: -1} if side == 0 else {p: -1, "B%d" % hi: 1}
                return all(abs(l.t.get(a, 0) - want.get(a, 0)) < TOL for a in set(l.t) | set(want)) and 0 <= l.c <= TOL
            nm = ("u" if sp == "uC" else "UV"[lo // 2])
            for side in (0, 1):
                ob += 1
                if any(near_one(k, l, side) for k, l in facts): continue
                og = opaque_guard(f, [(int(p[1:]), 0)])
                if og: incon.add("%s %s (%s)" % (f.name, nm, og)); continue
                F.append(finding("DOMAIN", f, "%s %s" % (nm, ["lower", "upper"][side]), "a normal return is possible with parameter %s %s the %s bound of its direction (no condition on every path rejects it)" % (nm, ["below", "above"][side], ["lower", "upper"][side])))
            for k, l in facts:
                if p in l.t and set(l.t) <= {p, "B0", "B1", "B2", "B3"} and not near_one(k, l, 0) and not near_one(k, l, 1):
                    F.append(finding("DOMAIN", f, "%s extra" % nm, "parameter %s is also rejected by a condition that is not membership in its bounds: %s %s" % (nm, l.key(), k)))
    return dict(findings=F, counts={"DOMAIN": {"obligations": ob, "inconclusive": len(incon)}}, items={"DOMAIN\tfunctions": sorted(items), "DOMAIN\tinconclusive": sorted(incon)})

# ------------------------------------------------------------------ C06 DEFINITION (constructors, pole access, replacement of poles and knots)
CTOR_RE = "::(bounds|poles|knotsFlats|knotsFlatsU|knotsFlatsV|degree|degreeU|degreeV|pole|copyPoles|movePoles|copyKnots|BSCurve|BSCurveGeneral|BSCurveRational|BSSurface|BSSurfaceGeneral|BSSurfaceRational|BSCfunction)$|gbs::(flat_knots|add_weights_coord|merge_weights|check_curve)$"
def n_of(txt, sz): return "bytes(%s)" % txt, L({"#": sz})
def rule_ctor(fns):
    fns = group(fns); lay = Layout(fns); F = []; items = {"ctors": set(), "accessors": set(), "replacements": set(), "inconclusive": set()}; ob = 0
    def need_req(f, kind, q, facts, keep, need, what, msg):
        nonlocal ob; ob += 1
        if implied(kind, q, facts, keep)[0]: return
        og = opaque_guard(f, need, cmps=False) # a comparison of values one after the other says nothing about counts
        if og: items["inconclusive"].add("%s: %s (%s)" % (f.name, what, og)); return
        F.append(finding("DEFINITION", f, what, msg))
    for f in fns:
        cls, _, meth = f.name.rpartition("::"); cls = cls.replace("gbs::", "", 1); t = f.T()
        own, rat = OWNER.get(cls, (cls, None)); ta = targs(f, cls); ta = ta + (", " + rat if rat and ta else "")
        fld = lambda m: lay.field(own, ta, m, t)
        if cls == meth and cls in ("BSCurve", "BSCurveGeneral", "BSCurveRational", "BSSurface", "BSSurfaceGeneral", "BSSurfaceRational"):
            es = [elem(p) for p in f.ps]
            if not es or not es[0] or not es[0].startswith("std::array<"): continue
            m = re.search(r", (\d+)ul(, (true|false))?$", targs(f, cls)); dim = int(m.group(1)); israt = rat == "true" or (m.group(3) == "true")
            psz = (dim + israt) * f.fsz; vf = [i for i, e in enumerate(es) if e in ("double", "float")]; vi = [i for i, e in enumerate(es) if e == "unsigned long"]; sc = [i for i, p in enumerate(f.ps) if p == "unsigned long"]
            surf = "Surface" in cls; ren = {}; nd = 2 if surf else 1
            if len(sc) != nd: continue
            one = 1.0
            def vec(txt, sym, sz): ren["bytes(%s)" % txt] = L({sym: float(sz)})
            if fld("poles"): vec(fld("poles"), "np", psz)
            vec(f.a(0), "np", sizeof(es[0]))
            kn = ["knotsFlatsU", "knotsFlatsV"] if surf else ["knotsFlats"]; dg = ["degreeU", "degreeV"] if surf else ["degree"]
            for i in range(nd):
                if fld(kn[i]): vec(fld(kn[i]), "nk%d" % i, f.fsz)
                if fld(dg[i]): ren[fld(dg[i])] = L({"p%d" % i: 1.0})
                ren[f.a(sc[i])] = L({"p%d" % i: 1.0})
            # knot / weight parameters: the weights are the extra floating vector
            wi = None
            if len(vf) == nd + 1:
                # surfaces and (poles, weights, knots, mults, p): weights first; (poles, knots, mults, weights, p) and (poles, knots, weights, p): last
                wi = vf[0] if surf or (vi and vf[1] == vi[0] - 1) else vf[-1]
            ki = [i for i in vf if i != wi]
            if len(ki) != nd: continue
            if not vi:
                for i in range(nd): vec(f.a(ki[i]), "nk%d" % i, f.fsz)
            else:
                for i in range(nd): vec(f.a(ki[i]), "nd%d" % i, f.fsz); vec(f.a(vi[i]), "nm%d" % i, 8)
            if wi is not None: vec(f.a(wi), "nw", f.fsz)
            facts = [norm(x, ren) for x in f.j["facts"]]; S = lambda s: L({s: one})
            sure = [norm(x, ren) for x in f.j["facts"] if not x.get("w")] + [("GE0", L({"np": 1.0}))]; items["ctors"].add(cls + "(" + ",".join(re.sub(r"std::|, ?std::allocator<.*|const&| ", "", p) for p in f.ps)[:90] + ")")
            dn = ["U", "V"] if surf else [""]; keep = {"np", "nk0", "nk1", "p0", "p1"}
            A = lambda i: (int(f.a(i)[1:]), None); TH = (f.this, None)
            if surf:
                need_req(f, "EQ0", S("np") - (S("nk0") - S("p0") - 1) * (S("nk1") - S("p1") - 1), facts, keep, [TH], "poles product", "an object can be constructed whose pole count differs from (knotsU-degU-1)*(knotsV-degV-1)")
                for i in range(2): need_req(f, "GE0", S("nk%d" % i) - S("p%d" % i) - S("p%d" % i) - 2, facts, keep, [A(sc[i])], "degree " + dn[i], "an object can be constructed with fewer than degree+1 poles in direction " + dn[i])
            else:
                need_req(f, "EQ0", S("nk0") - S("np") - S("p0") - 1, facts, keep, [A(sc[0])], "knots/poles/degree", "an object can be constructed whose flat knot count differs from poles+degree+1")
                need_req(f, "GE0", S("np") - S("p0") - 1, facts, keep, [A(sc[0])], "degree", "an object can be constructed with fewer than degree+1 poles")
            for i in range(nd):
                # counts compared after an unsigned subtraction say nothing unless the subtraction cannot wrap around
                nk, p = S("nk%d" % i), S("p%d" % i); ob += 1
                if not implied("GE0", nk - p - p - 2, sure, keep)[0] and not implied("GE0", nk - p - 1, sure, keep)[0] and not opaque_guard(f, [A(sc[i])], cmps=False):
                    F.append(finding("DEFINITION", f, "degree wraps " + dn[i], "the only conditions that bound the degree%s compare counts after a subtraction that wraps around: a degree larger than the number of knots is accepted" % (" of direction " + dn[i] if surf else "")))
                if vi: need_req(f, "EQ0", S("nd%d" % i) - S("nm%d" % i), facts, set(), [A(vi[i]), A(ki[i])], "multiplicities " + dn[i], "knots and multiplicities of different lengths are accepted")
                # ordering: a rejecting condition must depend on the knot values
                ob += 1; off = 0; kf = fld(kn[i])
                if kf and "+" in kf: off = int(kf.split("+")[1])
                # (the rejecting condition compares values in a loop over them)
                gs = [g for g in f.j["guards"] if (g["cmps"] or g["fp"] and g["loop"]) and any(d[2] >= 2 and (d[0] == f.this and d[1] in (off, off + 8) or d[0] == int(f.a(ki[i])[1:])) for d in g["deps"])]
                if not gs: F.append(finding("DEFINITION", f, "knot order " + dn[i], "no rejecting condition compares the knot values" + (" of direction " + dn[i] if surf else "") + " one after the other: unordered knots are accepted"))
                elif all(g["part"] for g in gs): F.append(finding("DEFINITION", f, "knot order range " + dn[i], "the order of the knots" + (" of direction " + dn[i] if surf else "") + " is only checked on a part of them (%s): unordered knots are accepted" % gs[0]["loc"]))
            # stored bounds: first and last knot of their direction
            bo = lay.bounds(own, ta, t); inv = {}
            for o, txt in bo.items():
                m2 = re.match(r"^L\[%s\+(\d+)\]$" % t, txt)
                if m2: inv[int(m2.group(1))] = o // f.fsz
            def ends(txt):
                b, _, o = txt.partition("+"); return "L[L[%s]]" % txt, "L[L[%s+%d]-%d]" % (b, (int(o) if o else 0) + 8, f.fsz)
            names = {}
            for i in range(nd):
                for txt in ([] if vi else [f.a(ki[i])]) + ([fld(kn[i])] if fld(kn[i]) else []):
                    e = ends(txt); names[e[0]] = 2 * i; names[e[1]] = names["L[L[%s]+bytes(%s)-%d]" % (txt, txt, f.fsz)] = 2 * i + 1
            for off, c in inv.items():
                ob += 1
                if not any(st["arg"] == f.this and st["off"] == off and st["t"] for st in f.j["stores"]): F.append(finding("DEFINITION", f, "bounds %d unset" % c, "bound %d of the object is never set from its knots" % c))
            for st in f.j["stores"]:
                if st["arg"] != f.this or st["off"] not in inv or "?" in st["t"] or not st["t"]: continue
                ob += 1; c = inv[st["off"]]; l = st["t"]
                if len(l) == 1 and st["c"] == 0 and list(l)[0] in names:
                    if names[list(l)[0]] != c: F.append(finding("DEFINITION", f, "bounds %d" % c, "bound %d of the object is set from another knot than the %s of its direction" % (c, ["first", "last"][c % 2])))
                elif all(re.match(r"^L\[L\[a\d+", k) for k in l): F.append(finding("DEFINITION", f, "bounds %d" % c, "bound %d of the object is not the %s knot of its direction" % (c, ["first", "last"][c % 2])))
            if wi is not None: need_req(f, "EQ0", S("nw") - S("np"), facts, {"np"}, [A(wi)], "weights", "a weight vector whose length differs from the pole vector is accepted (and read past its end)")
        elif meth == "pole" and own in ("BSCurveGeneral", "BSSurfaceGeneral") and f.j["ret"] and fld("poles"):
            m = re.search(r", (\d+)ul, (true|false)$", ta)
            if not m: continue
            sz = (int(m.group(1)) + (m.group(2) == "true")) * f.fsz; pf = fld("poles"); r = L({}, f.j["ret"]["0"]["c"])
            for k, v in f.j["ret"]["0"]["t"].items(): r = r + atom(k, {}).scale(v)
            idx = (r - L({"L[%s]" % pf: 1.0})).scale(1.0 / sz); items["accessors"].add(f.name)
            if "L[%s]" % pf in idx.t: continue
            facts = [norm(x, {}) for x in f.j["facts"]]
            need_req(f, "GE0", L({"bytes(%s)" % pf: 1.0 / sz}) - 1 - idx, facts, set(), [(f.base, 0)], "index", "a pole outside the stored array can be returned")
        elif meth in ("copyPoles", "movePoles", "copyKnots") and own in ("BSCurveGeneral", "BSSurfaceGeneral"):
            pf = fld("knotsFlats" if meth == "copyKnots" else "poles")
            if not pf: continue
            items["replacements"].add(f.name); facts = [norm(x, {}) for x in f.j["facts"]]
            need_req(f, "EQ0", L({"bytes(%s)" % pf: 1.0}) - L({"bytes(%s)" % f.a(0): 1.0}), facts, set(), [(f.base, None), (f.this, None)], "length", "a replacement array of another length is accepted")
    return dict(findings=F, counts={"DEFINITION": {"obligations": ob, "inconclusive": len(items["inconclusive"])}}, items={"DEFINITION\t" + k: sorted(v) for k, v in items.items()})

# ------------------------------------------------------------------ C07 ARGS (algorithms reject unusable arguments)
def simp(t):
    t = re.sub(r"std::__cxx11::|std::|gbs::|__gnu_cxx::", "", t)
    while True:
        i = t.find(", allocator<")
        if i < 0: break
        j = i + 12; n = 1
        while n and j < len(t): n += (t[j] == "<") - (t[j] == ">"); j += 1
        t = t[:i] + t[j:]
    return t.replace("unsigned long", "sz").replace("double", "d").replace(" const&", "").strip()
def V(i): return lambda f: L({"n%d" % i: 1.0})
class A:
    """symbols of a call: s(i) scalar parameter i, n(i) number of elements of parameter i"""
    def __init__(s, f): s.f = f
    def s(s, i): return L({"s%d" % i: 1.0})
    def n(s, i): return L({"n%d" % i: 1.0})
    def inner(s, i): return L({"m%d" % i: 1.0})  # elements of the first element of parameter i
P3 = r"vector<array<d, \dul>>"
CVS = r"vector<shared_ptr<[^|]*"
def rem(x, y): return L({"rem(%s,%s)" % (x.key(), y.key()): 1.0})
def quo(x, y): return L({"div(%s,%s)" % (x.key(), y.key()): 1.0})
ARGS = [ # name, parameter pattern (joined by |), kind, requirement, parameters involved, text
 ("make_range", r".*", "GE0", "every sz", None, "fewer than 2 points are accepted for a range"),
 ("flat_knots", r"vector<d>\|vector<sz>", "EQ0", lambda a: a.n(0) - a.n(1), (0, 1), "knots and multiplicities of different lengths are accepted"),
 ("add_weights_coord", P3 + r"\|vector<d>", "EQ0", lambda a: a.n(0) - a.n(1), (0, 1), "poles and weights of different lengths are accepted"),
 ("merge_weights", P3 + r"\|vector<d>", "EQ0", lambda a: a.n(0) - a.n(1), (0, 1), "poles and weights of different lengths are accepted"),
 ("approx|approx_bound_fixed", P3 + r"\|sz\|sz\|.*", "GE0", lambda a: a.s(2) - a.s(1) - 1, (1, 2), "a degree not smaller than the number of poles is accepted"),
 ("approx|approx_bound_fixed", P3 + r"\|sz\|sz\|.*", "GE0", lambda a: a.n(0) - a.s(2), (0, 2), "more poles than points are accepted"),
 ("approx", P3 + r"\|vector<d>\|vector<d>\|vector<d>\|vector<d>\|sz\|sz", "GE0", lambda a: a.n(0) - (a.n(1) - a.s(5) - 1) * (a.n(2) - a.s(6) - 1), (0, 1, 2, 5, 6), "a surface approximation with fewer points than poles is accepted"),
 ("approx", P3 + r"\|vector<d>\|vector<d>\|vector<d>\|vector<d>\|sz\|sz", "GE0", lambda a: a.n(1) - a.s(5) - a.s(5) - 2, (1, 5), "a surface approximation with fewer than degree+1 poles in U is accepted"),
 ("approx", P3 + r"\|vector<d>\|vector<d>\|vector<d>\|vector<d>\|sz\|sz", "GE0", lambda a: a.n(2) - a.s(6) - a.s(6) - 2, (2, 6), "a surface approximation with fewer than degree+1 poles in V is accepted"),
 ("interpolate", r"vector<array<array<d, \dul>, 1ul>>\|sz\|KnotsCalcMode", "GE0", lambda a: a.n(0) - a.s(1) - 1, (0, 1), "a degree not smaller than the number of points is accepted"),
 ("loft|loft_approx", r"list<[^|]*\*>\|.*|list<[^|]*\*>", "GE0", lambda a: a.n(0) - 2, (0,), "a loft through fewer than 2 sections is accepted"),
 ("build_3pt_tg_dir", P3 + r"\|.*", "GE0", lambda a: a.n(0) - 3, (0,), "fewer than 3 points are accepted"),
 ("build_poles", P3 + r"\|vector<d>\|vector<d>\|vector<d>\|vector<d>\|sz\|sz", "EQ0", lambda a: a.n(0) - a.n(3) * a.n(4), (0, 3, 4), "a point grid that does not match its parameters is accepted"),
 ("extract_U|extract_V", r"sz\|vector<.*>\|sz", "EQ0", lambda a: L({"rem(%s,%s)" % (a.n(1).key(), a.s(2).key()): 1.0}), (1, 2), "a pole array that is not a whole number of rows is accepted"),
 ("min_coordinate|max_coordinate|solve_coordinate", r"Curve<.*\|sz\|.*", "GE0", "dim", (1,), "a coordinate index outside the space dimension is accepted"),
 ("msh_curves_set_sizes", r"vector<shared_ptr<.*\|vector<vector<d>>\|.*", "EQ0", lambda a: a.n(0) - a.n(1), (0, 1), "curves and parameter sequences of different lengths are accepted"),
 ("msh_curves_set_sizes", r"vector<shared_ptr<.*\|vector<vector<d>>\|.*", "GE0", lambda a: a.n(0) - 1, (0,), "an empty set of curves is accepted"),
 ("tfi_mesh_2d", r"vector<shared_ptr<[^|]*\|vector<shared_ptr<[^|]*\|vector<vector<d>>\|vector<vector<d>>\|sz\|sz", "EQ0", lambda a: a.n(0) - a.n(3), (0, 3), "curves and parameter sequences of different lengths are accepted"),
 ("tfi_mesh_2d", r"vector<shared_ptr<[^|]*\|vector<shared_ptr<[^|]*\|vector<vector<d>>\|vector<vector<d>>\|sz\|sz", "EQ0", lambda a: a.n(1) - a.n(2), (1, 2), "curves and parameter sequences of different lengths are accepted"),
 ("interpolate", P3 + r"\|sz\|sz\|sz\|KnotsCalcMode", "EQ0", lambda a: rem(a.n(0), a.s(1)), (0, 1), "a point grid that is not a whole number of rows is accepted"),
 ("interpolate", P3 + r"\|sz\|sz\|sz\|KnotsCalcMode", "GE0", lambda a: a.s(1) - a.s(3) - 1, (1, 3), "a degree not smaller than the number of points in V is accepted"),
 ("interpolate", P3 + r"\|sz\|sz\|sz\|KnotsCalcMode", "GE0", lambda a: quo(a.n(0), a.s(1)) - a.s(2) - 1, (0, 1, 2), "a degree not smaller than the number of points in U is accepted"),
 ("interpolate", r"vector<tuple<.*\|sz\|sz\|sz\|array<d, 4ul>\|array<sz, 2ul>", "EQ0", lambda a: rem(a.n(0), a.s(1)), (0, 1), "a number of constraints that is not a whole number of rows is accepted"),
 ("interpolate", r"vector<tuple<.*\|sz\|sz\|sz\|array<d, 4ul>\|array<sz, 2ul>", "GE0", lambda a: a.s(1) - a.s(3) - 1, (1, 3), "a degree not smaller than the number of poles in V is accepted"),
 ("interpolate", r"vector<tuple<.*\|sz\|sz\|sz\|array<d, 4ul>\|array<sz, 2ul>", "GE0", lambda a: quo(a.n(0), a.s(1)) - a.s(2) - 1, (0, 1, 2), "a degree not smaller than the number of poles in U is accepted"),
 ("interpolate", r"vector<array<array<d, \dul>, 1ul>>\|vector<d>\|sz", "EQ0", lambda a: a.n(0) - a.n(1), (0, 1), "points and parameters of different lengths are accepted"),
 ("interpolate", r"vector<array<array<d, \dul>, 1ul>>\|vector<d>\|sz", "GE0", lambda a: a.n(0) - a.s(2) - 1, (0, 2), "a degree not smaller than the number of points is accepted"),
 ("interpolate", r"vector<array<array<d, \dul>, \dul>>\|(vector<d>|KnotsCalcMode)\|bool", "GE0", lambda a: a.n(0) - 2, (0,), "an interpolation of fewer than 2 points is accepted"),
 ("interpolate", r"pair<.*\|pair<.*\|vector<tuple<.*\|sz", "GE0", lambda a: a.n(2) + 1 - a.s(3), (2, 3), "fewer constraints than the degree needs are accepted"),
 ("approx", r"Curve<[^|]*\|d\|sz\|sz\|KnotsCalcMode", "GE0", lambda a: a.s(2) - a.s(3) - 1, (2, 3), "a degree not smaller than the number of poles is accepted"),
 ("approx", r"Curve<[^|]*\|sz\|sz\|vector<d>\|.*", "GE0", lambda a: a.s(2) - a.s(1) - 1, (1, 2), "a degree not smaller than the number of poles is accepted"),
 ("approx", r"Curve<[^|]*\|d\|d\|sz\|sz\|sz", "GE0", lambda a: a.s(4) - a.s(3) - 1, (3, 4), "a degree not smaller than the number of poles is accepted"),
 ("curve_parametrization", P3 + r"\|.*", "GE0", lambda a: a.n(0) - 1, (0,), "the parametrization of no points is accepted"),
 ("build_mult_flat_knots", r"vector<d>\|sz\|sz", "GE0", lambda a: a.n(0) - 2, (0,), "fewer than 2 knots are accepted"),
 ("msh_curves_set", CVS + r"\|vector<sz>\|vector<d>", "EQ0", lambda a: a.n(1) - a.n(2) + 1, (1, 2), "section sizes and parameters of different lengths are accepted"),
 ("msh_curves_set", CVS + r"\|vector<sz>\|vector<vector<d>>", "EQ0", lambda a: a.n(1) - a.inner(2) + 1, (1, 2), "section sizes and parameters of different lengths are accepted"),
 ("msh_curves_set", CVS + r"\|vector<sz>\|vector<vector<d>>", "GE0", lambda a: a.n(2) - 1, (2,), "an empty list of parameters is accepted"),
 ("msh_curves_lattice", CVS + r"\|" + CVS + r"\|vector<vector<d>>\|vector<vector<d>>\|vector<sz>\|vector<sz>", "EQ0", lambda a: a.inner(2) - a.n(3), (2, 3), "parameters that do not match the crossing curves are accepted"),
 ("msh_curves_lattice", CVS + r"\|" + CVS + r"\|vector<vector<d>>\|vector<vector<d>>\|vector<sz>\|vector<sz>", "EQ0", lambda a: a.inner(3) - a.n(2), (2, 3), "parameters that do not match the crossing curves are accepted"),
]
ARGS = [a for a in ARGS if a[2]]
LOOPGUARDS = [ # conditions on every element of a collection: a rejecting condition inside a loop over it
 ("unify_curves_knots", r".*", (0,), "curves of different degrees are accepted"),
 ("msh_curves_set_sizes", r"[^|]*\|vector<vector<d>>\|.*", (), "parameter sequences of different lengths are accepted"),
]
GUARDS = [ # a rejecting real comparison of the function's own that depends on the given parameter
 ("build_intersections", r"[^|]*\|[^|]*\|Curve<.*\|d", 3, 1, "curves that do not touch are accepted as a network"),
 ("build_intersections", r"[^|]*\|[^|]*\|[^|]*\|[^|]*\|d", 4, 3, "curves that do not touch are accepted as a network"),
 ("gordon", r"[^|]*\|[^|]*\|[^|]*\|[^|]*\|d", 4, 1, "curves that do not touch are accepted as a network"),
 ("lattice_intersections", CVS + r"\|" + CVS + r"\|d", 2, 1, "curves that do not touch are accepted as a network"),
 ("msh_curves_set", CVS + r"\|vector<sz>\|vector<d>", 0, 1, "curves over different parameter ranges are accepted"),
]
ARGS_RE = "^gbs::(" + "|".join(sorted({n for a in ARGS for n in a[0].split("|")} | {a[0] for a in LOOPGUARDS} | {a[0] for a in GUARDS})) + ")$"
def rule_args(fns):
    fns = group(fns); F = []; items = {"functions": set(), "inconclusive": set()}; ob = 0
    for f in fns:
        if f.mem or "lambda" in f.name: continue
        nm = f.name.replace("gbs::", "", 1); sig = "|".join(simp(p) for p in f.ps)
        ren = {}
        for i, p in enumerate(f.ps):
            e = elem(p); a = f.a(i); ren[a] = L({"s%d" % i: 1.0})
            if e and sizeof(e):
                ren["bytes(%s)" % a] = L({"n%d" % i: float(sizeof(e))}); ren["L[%s+8]" % a] = L({"b%d" % i: 1.0, "n%d" % i: float(sizeof(e))}); ren["L[%s]" % a] = L({"b%d" % i: 1.0})
            ie = elem(e) if e else None
            if ie and sizeof(ie): ren["bytes(L[%s])" % a] = L({"m%d" % i: float(sizeof(ie))}); ren["L[L[%s]+8]" % a] = L({"c%d" % i: 1.0, "m%d" % i: float(sizeof(ie))}); ren["L[L[%s]]" % a] = L({"c%d" % i: 1.0})
            if "list<" in p: ren["L[%s+16]" % a] = L({"n%d" % i: 1.0})
        facts = [norm(x, ren) for x in f.j["facts"]]; dn = re.search(r"(\d+)ul", f.j["dem"]); a = A(f)
        for names, pat, kind, rq, inv, text in ARGS:
            if nm not in names.split("|") or not re.fullmatch(pat, sig): continue
            if rq == "every sz":
                if sig == "sz|sz": reqs = [(a.s(1) - a.s(0) - 1, (0, 1))]
                else: reqs = [(a.s(i) - 2, (i,)) for i, p in enumerate(f.ps) if p == "unsigned long"]
            elif rq == "dim": reqs = [(L({}, float(dn.group(1)) - 1) - a.s(1), (1,))]
            else: reqs = [(rq(a), inv)]
            items["functions"].add(nm + "(" + sig[:80] + ")")
            for q, inv2 in reqs:
                ob += 1
                if implied(kind, q, facts, set())[0]: continue
                og = opaque_guard(f, [(int(f.a(i)[1:]), None) for i in inv2], noloop=True, only=True) # a test made per element says nothing about the number of elements
                if og: items["inconclusive"].add("%s: %s (%s)" % (nm, text, og)); continue
                F.append(finding("ARGS", f, text, text))
        for name, pat, inv, text in LOOPGUARDS:
            if nm != name or not re.fullmatch(pat, sig): continue
            ob += 1; items["functions"].add(nm + "(" + sig[:80] + ") elementwise")
            # the guard must be the function's own: in its file, inside a loop
            file = f.loc.rpartition(":")[0]
            if not any(g["loop"] and g["loc"].startswith(file) for g in f.j["guards"]): F.append(finding("ARGS", f, text, text))
        for name, pat, prm, cnt, text in GUARDS:
            if nm != name or not re.fullmatch(pat, sig): continue
            ob += 1; items["functions"].add(nm + "(" + sig[:80] + ") contact")
            k = int(f.a(prm)[1:]); file = f.loc.rpartition(":")[0]; real = f.ps[prm] in ("double", "float")
            hit = {(g["loc"], str(sorted(map(tuple, g["deps"])))) for g in f.j["guards"] if g["own"] and any(d[0] == k for d in g["deps"]) and (g["fp"] or not real) and (g["loc"].startswith(file) or not real and not g["loop"])}
            if len(hit) < cnt: F.append(finding("ARGS", f, text, text))
    return dict(findings=F, counts={"ARGS": {"obligations": ob, "inconclusive": len(items["inconclusive"])}}, items={"ARGS\t" + k: sorted(v) for k, v in items.items()})
