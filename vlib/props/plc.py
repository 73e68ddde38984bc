"""P20 constraints, P21 structural edits, P22 VECT files, P23 motions, P24 counts and measures."""
import json
from .. import build

# two constraints of each kind; integral, and such that every vertex has a constraint it does not meet
CST = {(1, 0): "5 0 -3", (1, 1): "0 1 2", (2, 0): "1 2 2 0 1 0", (2, 1): "0 0 1 3 0 1", (3, 0): "1 2 -2 3", (3, 1): "0 1 0 -4"}

def hists(ctx, sizes, kinds, names, length, maxc=3, num=None):
    r = ctx.model("CstHistMC", f"Sizes0 <- {sizes} Kinds <- {kinds} Names = {{{', '.join(chr(34) + n + chr(34) for n in names)}}} Len0 = {length} MaxC = {maxc}",
                  "Denotes Inside Ordered Emit", prefix="HIST", simulate=num, depth=length + 2)
    return [json.loads(s) for s in r]

def rv(rng, lo=-6, hi=6):
    return f"{rng.randint(lo, hi)} {rng.randint(lo, hi)} {rng.randint(lo, hi)}"

def comp(rng, nv, op=None, cc=None):
    op = rng.randint(0, 1) if op is None else op
    cc = rng.choice([0, 1, nv]) if cc is None else cc
    return f"{nv} {op} {cc} " + " ".join(rv(rng) for _ in range(nv)) + "".join(" %g %g %g %g" % tuple(rng.randint(0, 8) / 8 for _ in range(4)) for _ in range(cc))

def curve(rng, sizes, r=0, **kw):
    return f"new {r} {len(sizes)} " + " ".join(comp(rng, n, **kw) for n in sizes)

def cline(w, rng, r=0):
    name, c, v, n, k, x = w
    if name == "set":
        return [f"fixed {r} {c} {v} {CST[1, x]}"] if k == 1 else [f"{'line' if k == 2 else 'plane'} {r} {c} {v} {n} {CST[k, x]}"]
    if name == "uncst": return [f"uncst {r} {c} {v} {n}"]
    if name == "rmcst":
        a = CST[k, x]
        return [f"rmcst {r} {k} {a} " + {1: "0 0 0", 2: "", 3: "0 0"}[k]]
    if name == "rmall": return [f"rmall {r}"]
    if name == "addcp":
        return [f"addcp {r} {c} " + comp(rng, v)]
    if name == "dropcp": return [f"dropcp {r} {c}"]
    if name == "copy": return [f"copy {1 - r} {r}", f"rmall {r}", f"copy {r} {1 - r}"]
    raise KeyError(name)

def gsizes(rng, quick=True):
    """Component sizes of a large curve: many components, or long ones."""
    return rng.choice([[rng.choice([1, 2, 3, 5, 9]) for _ in range(rng.randint(9, 24))], [rng.randint(40, 130), 3], [3, 17, rng.randint(30, 70), 2, 33, 1, 12]])

def csts(rng, sizes, k, r=0, names=("set", "set", "set", "uncst")):
    out = []
    for _ in range(k):
        c = rng.randrange(len(sizes)); v = rng.randrange(sizes[c]); n = rng.choice([1, 2, rng.randint(1, sizes[c] - v), sizes[c] - v]); n = min(n, sizes[c] - v); w = rng.choice(names); q = rng.randint(1, 3)
        out += cline([w, c, v, 1 if w == "set" and q == 1 else n, q, rng.randint(0, 1)], rng, r)
    return out

def p20(ctx):
    exe = build.driver("plc"); rng = ctx.rng
    S = {"S34": [3, 4], "S4": [4], "S242": [2, 4, 2]}
    L = []
    def add(tag, name, hs, ask):
        for i, h in enumerate(hs):
            L.append(f"ep {tag}{i}"); L.append(curve(rng, S[name]))
            for j, w in enumerate(h):
                L.extend(cline(w, rng))
                if ask: L.append("iscst 0")
            if not ask: L.append("iscst 0")
            L.extend(["chkcst 0", "fixcst 0"] if i % 3 == 0 else [])
    # every pair of calls on one component, every triple with two constraints only
    add("a", "S4", hists(ctx, "S4", "K4", ["set", "uncst", "rmcst"], 2), False)
    t = hists(ctx, "S4", "K2", ["set", "uncst"], 3)
    add("b", "S4", t if not ctx.quick else rng.sample(t, 1200), False)
    add("c", "S34", rng.sample(h := hists(ctx, "S34", "K4", ["set", "uncst", "rmcst", "addcp", "dropcp"], 2), min(len(h), 1000 if ctx.quick else 100000)), False)
    ctx.conform(exe, "PLCTrace", L, "words")
    L = []
    for nm in ("S34", "S242", "S4"):
        add("r" + nm, nm, hists(ctx, nm, "K6", ["set", "uncst", "rmcst", "rmall", "addcp", "dropcp", "copy"], 14 if ctx.quick else 30, num=70 if ctx.quick else 700), True)
        add("s" + nm, nm, hists(ctx, nm, "K6", ["set", "uncst"], 16 if ctx.quick else 30, num=50 if ctx.quick else 500), True)
    for i in range(14 if ctx.quick else 200):
        z = gsizes(rng); L += [f"ep g{i}", curve(rng, z)] + csts(rng, z, 25) + ["iscst 0"]
        for _ in range(5):
            o = rng.randint(0, 4)
            if o == 0: c = rng.randint(0, len(z)); n = rng.randint(1, 30); z.insert(c, n); L += [f"addcp 0 {c} " + comp(rng, n)]
            elif o == 1 and len(z) > 1: c = rng.randrange(len(z)); del z[c]; L += [f"dropcp 0 {c}"]
            elif o == 2: L += ["copy 1 0", "rmall 0", "copy 0 1"]
            else: L += csts(rng, z, 4, names=("set", "uncst", "rmcst"))
            L += csts(rng, z, 4)
        L += ["iscst 0", "chkcst 0", "fixcst 0"]
    ctx.conform(exe, "PLCTrace", L, "hist")

def ehists(ctx, names, length, maxc=4, maxv=6, num=None):
    r = ctx.model("EditHist", f"Names = {{{', '.join(chr(34) + n + chr(34) for n in names)}}} Len0 = {length} MaxC = {maxc} MaxV = {maxv}", "Sane Emit", prefix="HIST", simulate=num, depth=length + 3)
    return [json.loads(s) for s in r]

def elines(h, rng):
    news = [w for w in h if w[0] == "new"]
    out = [f"new 0 {len(news)} " + " ".join(comp(rng, w[1], w[2], w[3]) for w in news)]
    for name, a, b, c, d in h:
        if name == "addcp": out.append(f"addcp 0 {a} " + comp(rng, b, c, d))
        elif name == "dropcp": out.append(f"dropcp 0 {a}")
        elif name == "resize": out.append(f"resize 0 {a} {b}")
        elif name == "setclr": out.append("setclr 0 %g %g 0.5 1" % (a / 4, 1 - a / 4))
        elif name == "setvt": out.append(f"setvt 0 {a} {b} {rv(rng)}")
        elif name == "wrap": out.append("wrap 0")
        elif name == "nums": out.append("nums 0")
        elif name == "copy": out += ["copy 1 0", "free 0", "copy 0 1"]
        elif name == "cst": out.append(f"line 0 {a} {b} 1 {CST[2, 0]}")
        elif name == "double": out += ["double 1 0", "copy 0 1"]
        elif name == "delarc": out += [f"delarc 1 0 {a} {b} {c}", "copy 0 1"]
    return out

def p21(ctx):
    exe = build.driver("plc"); rng = ctx.rng
    ALL = ["addcp", "dropcp", "resize", "setclr", "setvt", "wrap", "nums", "copy", "cst", "double", "delarc"]
    L = []
    one = ehists(ctx, ALL, 3)
    for i, h in enumerate(one if not ctx.quick else rng.sample(one, min(len(one), 2500))):
        L += [f"ep o{i}"] + elines(h, rng) + ["nums 0"]
    ctx.conform(exe, "PLCTrace", L, "single")
    L = []
    for i, h in enumerate(ehists(ctx, ALL, 14 if ctx.quick else 30, num=250 if ctx.quick else 2500)):
        L += [f"ep h{i}"] + elines(h, rng) + ["nums 0"]
    for i in range(16 if ctx.quick else 250):
        z = gsizes(rng); op = [1 if n < 3 else rng.randint(0, 1) for n in z]
        L += [f"ep g{i}", f"new 0 {len(z)} " + " ".join(comp(rng, n, o) for n, o in zip(z, op))] + csts(rng, z, 6)
        for _ in range(8):
            o = rng.choice(["addcp", "dropcp", "resize", "setvt", "copy", "delarc", "setclr", "wrap"]); c = rng.randrange(len(z)); n = rng.randint(1, 40)
            if o == "addcp": c = rng.randint(0, len(z)); k = 1 if n < 3 else rng.randint(0, 1); z.insert(c, n); op.insert(c, k); L += [f"addcp 0 {c} " + comp(rng, n, k)]
            elif o == "dropcp" and len(z) > 1: del z[c], op[c]; L += [f"dropcp 0 {c}"]
            elif o == "resize": L += [f"resize 0 {c} {min(z[c], rng.choice([0, 1, z[c], n]))}"]
            elif o == "setvt": L += [f"setvt 0 {c} {rng.choice([0, z[c] - 1, rng.randrange(z[c])])} {rv(rng)}", "wrap 0"]
            elif o == "copy": L += ["copy 1 0", "free 0", "copy 0 1"]
            elif o == "setclr": L += ["setclr 0 0.25 0.5 0.75 1"] if rng.random() < .3 else []
            elif o == "delarc" and z[c] >= 3: L += [f"delarc 1 0 {c} {rng.randrange(z[c])} {rng.randrange(z[c])}", "nums 1"]
        L += ["nums 0"]
    # every arc of every strand of up to six vertices, alone and among others
    k = 0
    for n in range(2, 6 if ctx.quick else 9):
        for op in (0, 1):
            for cc in (0, 1, n):
                for v1 in range(n):
                    for v2 in range(n):
                        if op == 0 and n < 3: continue
                        gone = (v1 == v2 + 1 if op == 0 else False) or (v1 == 0 and v2 == n - 1)
                        if rng.random() < 0.5 or gone:
                            L += [f"ep d{k}", f"new 0 3 {comp(rng, 2)} {comp(rng, n, op, cc)} {comp(rng, 3)}", f"delarc 1 0 1 {v1} {v2}", "nums 1"]
                        else:
                            L += [f"ep d{k}", f"new 0 1 {comp(rng, n, op, cc)}", f"delarc 1 0 0 {v1} {v2}", "nums 1"]
                        k += 1
    ctx.conform(exe, "PLCTrace", L, "hist")

def pct(t):
    return "".join(ch if ch.isalnum() or ch in "-.+:" else "%%%02x" % ord(ch) for ch in t) or "%20"

def vect_text(rng, damage=None):
    """A random legal file in a random layout (comments, blank lines, number formats), or one with one thing wrong."""
    nc = rng.randint(1, 3)
    nv = [rng.choice([1, 2, 3, 3, 4, 5]) for _ in range(nc)]
    sg = [1 if n < 3 or rng.random() < 0.5 else -1 for n in nv]
    cc = [rng.choice([0, 1, n]) for n in nv]
    def num(v):
        f = rng.randint(0, 9)
        if f == 0: return "%.3e" % v
        if f == 1: return "%.4f" % v
        if f == 2 and v == int(v) and v >= 0: return "+%d" % v
        if f == 3: return "%.1E" % (v * 10) if False else "%g" % v
        return "%g" % v
    val = lambda: num(rng.choice([rng.randint(-9, 9), rng.randint(-64, 64) / 8]))
    com = lambda: " # " + rng.choice(["note", "a b c", "", "Component 0", "see 12 above", "# twice"]) if rng.random() < 0.3 else ""
    nl = lambda: rng.choice(["\n", "\n", "\n", " \n", "\n\n", "\r\n"])
    sep = lambda: rng.choice([" ", " ", "  ", "\t"])
    ncst = rng.choice([0, 0, 1, 2, 4])
    order = list(range(1, ncst + 1)); rng.shuffle(order)
    toks = []           # (text, kind)
    out = ["VECT" + nl()]
    L = [str(nc), str(sum(nv)), str(sum(cc))]
    out.append(sep().join(L) + com() + nl())
    out.append(sep().join(str(s * n) for s, n in zip(sg, nv)) + com() + nl())
    out.append(sep().join(map(str, cc)))
    kinds = {}
    defs = []
    for k in order:
        kind = rng.choice(["Fixed", "Line", "Plane"])
        kinds[k] = kind
        defs.append(" # Constraint %d %s %s" % (k, kind, " ".join(val() for _ in range({"Fixed": 3, "Line": 6, "Plane": 4}[kind]))))
    out.append(com() + nl() + "".join(d + nl() for d in defs))
    for i in range(nc):
        for j in range(nv[i]):
            line = sep().join(val() for _ in range(3))
            if ncst and rng.random() < 0.5: line += " # Cst: %d" % rng.randint(1, ncst)
            else: line += com()
            out.append(line + nl())
    for i in range(nc):
        for j in range(cc[i]):
            out.append(sep().join(num(rng.randint(0, 8) / 8) for _ in range(4)) + com() + nl())
    t = "".join(out)
    if damage == "drop":
        w = [i for i, ch in enumerate(t) if not ch.isspace()]
        i = rng.choice(w); j = i
        while j < len(t) and not t[j].isspace(): j += 1
        t = t[:i] + t[j:]
    elif damage == "swap":
        i = rng.randrange(len(t)); t = t[:i] + rng.choice("09-+.e#xX \n:Cst") + t[i + 1:]
    elif damage == "cut":
        t = t[:rng.randrange(len(t))]
    elif damage == "num":
        k = [i for i, ch in enumerate(t) if ch.isdigit()]
        i = rng.choice(k); t = t[:i] + rng.choice(["0", "-1", "7", "99999", "3000000000", "-2147483648", "x", "1.5"]) + t[i + 1:]
    elif damage == "long":
        i = t.find("#")
        if i >= 0: t = t[:i + 1] + " " + rng.choice(["x" * 300, "Constraint " * 30, "Cst: " * 200, "9" * 400, "Constraint 1 Fixed 1 2", "Constraint 0 Fixed 1 2 3", "Constraint -3 Line 1 0 0 0 0 0", "Constraint 70000 Plane 1 0 0 2"]) + t[i + 1:]
    elif damage == "head":
        t = rng.choice(["VECTOR", "vect", "VEC", "", "OFF", "# c\nVECT", " VECT", "VECT#x"]) + t[4:]
    return t

def p22(ctx):
    exe = build.driver("plc"); rng = ctx.rng
    # write and read back curves at the end of random histories of constraints and components
    L = []
    S = {"S34": [3, 4], "S242": [2, 4, 2], "S4": [4]}
    for nm in S:
        for i, h in enumerate(hists(ctx, nm, "K6", ["set", "uncst", "addcp", "dropcp"], 9 if ctx.quick else 14, num=60 if ctx.quick else 600)):
            L += [f"ep w{nm}{i}", curve(rng, S[nm])] + [x for w in h for x in cline(w, rng)]
            L += ["wr 2 0", "wr 3 2", f"noise 0 {rng.randint(1, 10**6)}", "wr 0 0", "wr 2 0", f"noise 2 {i}", "wr 3 2"]
    for i, h in enumerate(ehists(ctx, ["addcp", "dropcp", "resize", "setclr", "delarc", "double"], 8, num=60 if ctx.quick else 600)):
        L += [f"ep e{i}"] + elines(h, rng) + ["wr 2 0", f"noise 0 {i}", "wr 3 0", "wr 4 3"]
    for i in range(6 if ctx.quick else 60):
        z = gsizes(rng); L += [f"ep g{i}", curve(rng, z)] + csts(rng, z, 30) + ["wr 2 0", f"noise 0 {i + 1}", "wr 3 0", "wr 4 3"]
    # many constraints, so that constraint numbers get longer
    for i, n in enumerate((12, 40) if ctx.quick else (12, 40, 110, 300)):
        L += [f"ep big{i}", curve(rng, [n, 3], op=0)] + [f"fixed 0 0 {v} {v} {-v} {v * v % 17}" for v in range(n)] + ["wr 1 0", f"noise 1 {i}", "wr 2 1"]
    ctx.conform(exe, "PLCTrace", L, "roundtrip")
    # legal files in every layout
    L = []
    for i in range(400 if ctx.quick else 5000):
        L += [f"ep t{i}", "rd 0 " + pct(vect_text(rng))]
        if i % 4 == 0: L += ["rd 1 " + pct(vect_text(rng))]
    ctx.conform(exe, "PLCTrace", L, "layouts")
    # damaged files
    L = []
    for i in range(1500 if ctx.quick else 20000):
        L += [f"ep x{i}", "rd 0 " + pct(vect_text(rng, rng.choice(["drop", "swap", "swap", "cut", "num", "num", "long", "head"])))]
    for i in range(6 if ctx.quick else 40):
        h = rng.choice(hists(ctx, "S34", "K6", ["set"], 6, num=5)) if i < 2 else [["set", c, 0, 2, 2 + c, c] for c in (0, 1)]
        base = [curve(rng, [3, 4])] + [x for w in h for x in cline(w, rng)]
        for j, pos in enumerate(range(i % 7, 1000, 7)):
            L += [f"ep m{i}.{j}"] + base + [f"mut 1 0 {pos} {b}" for b in (0, rng.choice([ord(ch) for ch in "09-.#x \n:VC"]))]
    ctx.conform(exe, "PLCTrace", L, "damage")

AXES = [(1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (0, 0, -1, 1), (-1, 0, 0, 1), (1, 2, 2, 3), (-2, 1, 2, 3), (2, -2, 1, 3), (0, 3, 4, 5), (4, 0, -3, 5), (2, 3, 6, 7), (-6, 2, -3, 7), (1, 4, -8, 9), (3, 4, 12, 13)]
TURNS = [(0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-4, 3, 5), (4, -3, 5), (-3, -4, 5), (5, 12, 13), (1, 0, 1)]

def whitten(rng, nc):
    p = list(range(nc)); rng.shuffle(p)
    arr, seen = [], set()
    order = list(range(nc)); rng.shuffle(order)
    for a in order:
        if a in seen: continue
        b = a
        while b not in seen:
            seen.add(b); arr.append(b); b = p[b]
        arr.append(b)
    arr += [rng.randrange(nc) for _ in range(2 * nc - len(arr))]
    return f"whitten 0 {rng.choice([1, -1])} " + " ".join(str(rng.choice([1, -1])) for _ in range(nc)) + " " + " ".join(map(str, arr))

def p23(ctx):
    exe = build.driver("plc"); rng = ctx.rng
    L = []
    S = {"S34": [3, 4], "S242": [2, 4, 2], "S4": [4]}
    k = 0
    num = 90 if ctx.quick else 1500
    for nm in S:
        for h in hists(ctx, nm, "K6", ["set", "uncst", "addcp", "dropcp"], 7, num=num):
            nc = len(S[nm])
            for w in h: nc += {"addcp": 1, "dropcp": -1}.get(w[0], 0)
            L += [f"ep x{k}", curve(rng, S[nm])] + [x for w in h for x in cline(w, rng)]
            den = 1
            for _ in range(rng.randint(1, 4)):
                o = rng.randint(0, 3)
                if o == 0:
                    q = rng.choice([1, 1, 2, 4])
                    if den * q > 64: q = 1
                    den *= q; L.append(f"scale 0 {rng.choice([1, 2, -1, 3]) if q > 1 else rng.choice([-1, 2])} {q}")
                elif o == 1: L.append("trans 0 " + " ".join("%g" % (rng.randint(-8, 8) / rng.choice([1, 2, 4])) for _ in range(3)))
                else: L.append(whitten(rng, nc))
            L.append("iscst 0")
            L += ["copy 1 0"]
            for _ in range(3):
                A, T = rng.choice(AXES), rng.choice(TURNS)
                L.append({0: "rot 0 %d %d %d %d %d %d %d" % (A + T), 1: "rrot 0 %d %d %d %d" % A, 2: "proj 0 %d %d %d %d" % A, 3: "perturb 0 %g" % rng.choice([0.25, 1, 3])}[rng.randint(0, 3)])
                L.append("copy 0 1")
            k += 1
    for i in range(10 if ctx.quick else 150):
        z = gsizes(rng); L += [f"ep g{i}", curve(rng, z)] + csts(rng, z, 12) + [whitten(rng, len(z)), "iscst 0", "trans 0 1.5 -2 3", "scale 0 -1 2", whitten(rng, len(z)), "iscst 0", "copy 1 0"]
        A, T = rng.choice(AXES), rng.choice(TURNS)
        L += ["rot 0 %d %d %d %d %d %d %d" % (A + T), "copy 0 1", "proj 0 %d %d %d %d" % A, "copy 0 1", "perturb 0 0.25"]
    # folds between every pair of vertices of curves with integral distances there
    for i in range(60 if ctx.quick else 800):
        n = rng.randint(3, 7); step = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 4, 0), (0, -3, 4), (1, 2, 2), (-2, 1, 2), (2, 3, 6), (0, -1, 0), (-4, 0, 3)]
        vt = [(0, 0, 0)]
        for _ in range(n - 1):
            s = rng.choice(step); vt.append(tuple(a + b for a, b in zip(vt[-1], s)))
        comps = [comp(rng, 3), f"{n} {rng.randint(0, 1)} 0 " + " ".join("%d %d %d" % v for v in vt)]
        L += [f"ep f{i}", "new 0 2 " + " ".join(comps), "copy 1 0"]
        for _ in range(6):
            a, b = rng.sample(range(0, n), 2) if n > 3 or rng.random() < 0.7 else (0, n - 1)
            if vt[a] == vt[b]: continue          # no axis to fold around
            L += ["pfm 0 1 %d %d %d %d %d" % ((a, b) + rng.choice(TURNS)), "copy 0 1"]
    # every axis, pole to pole
    for i, A in enumerate(AXES):
        L += [f"ep a{i}", curve(rng, [4, 3]), "copy 1 0", "rrot 0 %d %d %d %d" % A, "copy 0 1", "proj 0 %d %d %d %d" % A]
        for T in TURNS: L += ["copy 0 1", "rot 0 %d %d %d %d %d %d %d" % (A + T)]
    ctx.conform(exe, "PLCTrace", L, "motions")

def integral(rng, n, closed, steps):
    """steps for a strand: a closed one uses every step together with its opposite"""
    s = [rng.choice(steps) for _ in range(n)]
    if closed:
        s = s + [tuple(-a for a in x) for x in s]; rng.shuffle(s)
    vt = [tuple(rng.randint(-2, 2) for _ in range(3))]
    for x in (s[:-1] if closed else s): vt.append(tuple(a + b for a, b in zip(vt[-1], x)))
    return vt

def strand(rng, vt, closed):
    return f"{len(vt)} {0 if closed else 1} 0 " + " ".join("%d %d %d" % v for v in vt)

def p24(ctx):
    exe = build.driver("plc"); rng = ctx.rng
    ax = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    pyth = [(2, 1, 2), (1, 2, 2), (-2, 2, 1), (0, 3, 4), (3, 0, -4), (0, 0, 2), (2, 3, 6), (0, 2, 0), (-1, 0, 0), (1, 4, 8)]
    L = []
    for i in range(160 if ctx.quick else 2500):
        nc = rng.randint(1, 3); cs = []
        for _ in range(nc):
            cl = rng.random() < 0.5
            vt = integral(rng, rng.randint(2, 4), cl, rng.choice([ax, pyth, ax + pyth]))
            cs.append(strand(rng, vt, cl))
        if rng.random() < 0.15: cs.insert(rng.randint(0, len(cs)), "1 1 0 1 2 0")
        L += [f"ep m{i}", f"new 0 {len(cs)} " + " ".join(cs), "meas 0", "nums 0"]
    for i in range(200 if ctx.quick else 3000):
        nc = rng.randint(1, 3); cs = []
        for _ in range(nc):
            cl = rng.random() < 0.6
            cs.append(strand(rng, integral(rng, rng.randint(2, 6), cl, ax), cl))
        L += [f"ep a{i}", f"new 0 {nc} " + " ".join(cs), "angles 0", "nums 0"]
    for i in range(12 if ctx.quick else 150):
        cs = []
        for _ in range(rng.choice([1, 2, 9, 20])):
            cl = rng.random() < 0.6; cs.append(strand(rng, integral(rng, rng.choice([2, 3, 5, 12]) if i % 3 else rng.randint(15, 30), cl, ax), cl))
        cs = cs[:4] if i % 3 == 0 else cs
        L += [f"ep g{i}", f"new 0 {len(cs)} " + " ".join(cs), "meas 0", "nums 0", "angles 0"]
    for i, h in enumerate(ehists(ctx, ["addcp", "dropcp", "delarc", "nums"], 9, num=60 if ctx.quick else 800)):
        L += [f"ep n{i}"] + elines(h, rng) + ["nums 0"]
    ctx.conform(exe, "PLCTrace", L, "measures")
