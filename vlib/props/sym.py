"""P26 symmetry groups, P27 nearest neighbours."""
import math
from .. import build

AXES = [(0, 0, 1), (1, 0, 0), (0, -1, 0), (1, 2, 2), (2, 3, 6), (-2, 1, 2), (0, 3, 4)]
def mat(kind, a, n):
    q = sum(x * x for x in a); u = [x / math.sqrt(q) for x in a] if q else a
    if kind == "rot":
        out = []
        for i in range(n):
            t = 2 * math.pi * i / n; c, s = math.cos(t), math.sin(t)
            K = [[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]]
            out.append([[c * (r == k) + (1 - c) * u[r] * u[k] + s * K[r][k] for k in range(3)] for r in range(3)])
        return out
    I = [[float(r == k) for k in range(3)] for r in range(3)]
    if kind == "ref": return [I, [[(r == k) - 2 * u[r] * u[k] for k in range(3)] for r in range(3)]]
    return [[[(-1) ** ((j >> r) & 1) * (r == k) for k in range(3)] for r in range(3)] for j in range(8)]
def ap(M, v): return [sum(M[r][k] * v[k] for k in range(3)) for r in range(3)]
def dist(a, b): return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))

def strands(cs): return f"{len(cs)} " + " ".join(f"{len(v)} {o} " + " ".join("%.8f %.8f %.8f" % tuple(p) for p in v) for v, o in cs)

def orbit_curve(rng, kind, a, n, wob):
    """a curve that has the symmetry up to wob, with vertices well apart"""
    E = mat(kind, a, n)
    while True:
        base = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(rng.randint(1, 3))]
        if rng.random() < .3 and kind == "rot": base.append([x * rng.choice([1, 2, -1]) for x in a])        # a point on the axis
        allp = []
        for b in base:
            for M in E:
                p = ap(M, b)
                if all(dist(p, x) > 1e-6 for x in allp): allp.append(p)
        if min([dist(p, x) for i, p in enumerate(allp) for x in allp[:i]] or [9]) > 6 * wob + .6 and len(allp) <= (36 if n < 14 else 80): break
    order = list(allp)
    if rng.random() < .4: rng.shuffle(order)
    cs = []
    while order:
        k = min(len(order), rng.choice([1, 2, 3, 4, 7, 40])); v = order[:k]; order = order[k:]
        cs.append(([[x + rng.uniform(-wob, wob) for x in p] for p in v], 1 if k < 3 else rng.randint(0, 1)))
    return cs

def p26(ctx):
    exe = build.driver("sym"); rng = ctx.rng; Q = ctx.quick
    ctx.model("SymMC", 'Kinds = {"z4", "x2", "rx", "planes"} Reach = 1 Wobble = 1 Steps = %d' % (1 if Q else 2), "Law_Action Law_Result Law_Twice Law_Keeps Law_Close")
    L = []
    def one(i, kinds):
        kind = rng.choice(kinds); a = rng.choice(AXES) if kind != "planes" else (0, 0, 0); n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12] if rng.random() < .9 else [15, 20, 24]) if kind == "rot" else 2
        wob = rng.choice([0, 0, .05, .2]); cs = orbit_curve(rng, kind, a, n, wob); g = f"grp 0 {kind} {a[0]} {a[1]} {a[2]} {n}"
        out = [f"ep s{i}", "new 0 " + strands(cs), g, "chk 0"]
        def nudge(r):
            c = rng.randrange(len(cs)); return f"move {r} {c} {rng.randrange(len(cs[c][0]))} " + " ".join("%.6f" % rng.uniform(-.4, .4) for _ in range(3))
        live = {0}; same = True
        for _ in range(rng.randint(4, 9)):
            r = rng.choice(sorted(live)); o = rng.choice(["sym", "sym", "move", "var", "chk", "comp", "copy", "rot", "turn", "scale", "grp", "free", "trans", "edit", "edit"])
            if o == "sym": out.append(f"sym {r}")
            elif o == "move": out += [nudge(r), f"chk {r}"] if same else []
            elif o == "var": out.append(f"var {r} {rng.randint(1, 10**6)}")
            elif o == "chk": out.append(f"chk {r}")
            elif o == "comp": out += [f"comp {r} {rng.randint(0, 30)} {rng.randint(0, 30)}" for _ in range(3)]
            elif o == "copy": s = rng.choice([x for x in (0, 1, 2) if x != r]); out += [f"copy {s} {r}"]; live.add(s)
            elif o == "rot": b = rng.choice(AXES); out.append(f"rot {r} {b[0]} {b[1]} {b[2]} {rng.randint(-60, 60)}")
            elif o == "turn": b = rng.choice(AXES + [(0, 0, -1)]); out.append(f"turn {r} {b[0]} {b[1]} {b[2]}")
            elif o == "scale": out.append(f"scale {r} {rng.choice([128, 384, 256, -256, 300])}")
            elif o == "trans": out.append(f"trans {r} " + rng.choice(["0 0 0", "256 -128 40", "0 0 3"]))
            elif o == "grp": out += [f"grp {r} {rng.choice(['rot 0 0 1 2', 'rot 1 2 2 3', 'ref 1 0 0 2', 'planes 0 0 0 8', g.split(' ', 2)[2]])}"]
            elif o == "free" and len(live) > 1: out.append(f"free {r}"); live.discard(r)
            elif o == "edit": out.append(rng.choice([f"add {r} {rng.randint(0, 5)} {rng.randint(1, 4)}", f"drop {r} {rng.randint(0, 5)}", f"whit {r} {rng.choice([1, -1])} {rng.randint(0, 7)}"])); same = False
        out += [x for r in sorted(live) for x in (f"sym {r}", f"chk {r}", f"free {r}")]
        return out
    for i in range(170 if Q else 2500): L += one(i, ["rot", "rot", "ref", "planes"])
    ctx.conform(exe, "SymTrace", L, "groups")
    L = []
    for i in range(60 if Q else 800):          # curves without the symmetry: refused, or matched injectively
        cs = [([[rng.randint(-6, 6) for _ in range(3)] for _ in range(rng.randint(3, 8))], rng.randint(0, 1)) for _ in range(rng.randint(1, 3))]
        L += [f"ep n{i}", "new 0 " + strands(cs)]
        for _ in range(3):
            a = rng.choice(AXES); L += [f"grp 0 " + rng.choice([f"rot {a[0]} {a[1]} {a[2]} {rng.choice([2, 3, 4, 5])}", f"ref {a[0]} {a[1]} {a[2]} 2", "planes 0 0 0 8"]), "chk 0"]
    ctx.conform(exe, "SymTrace", L, "refused")
    L = []
    perms = ["012", "021", "102", "120", "201", "210"]; el = lambda: rng.choice(perms) + " " + "".join(rng.choice("+-") for _ in range(3))
    for i in range(80 if Q else 1000):         # curves with (nearly) the symmetries of a cube: elements that do not commute
        wob = rng.choice([0, 0, .05, .2]); b = rng.choice([(1, 0, 0), (1, 1, 1), (1, 1, 0), (2, 1, 0), (3, 3, 1), (5, 3, 1)]); k = rng.randint(2, 5)
        pts = sorted({tuple(k * sg[j] * b[int(p[j])] for j in range(3)) for p in perms for sg in [(x, y, z) for x in (1, -1) for y in (1, -1) for z in (1, -1)]}); rng.shuffle(pts); cs = []
        while pts:
            m = rng.choice([1, 3, 5, 50]); v = pts[:m]; pts = pts[m:]; cs.append(([[x + rng.uniform(-wob, wob) for x in p] for p in v], 1 if len(v) < 3 else rng.randint(0, 1)))
        L += [f"ep c{i}", "new 0 " + strands(cs)] + [f"pair 0 {el()} {el()}" for _ in range(5)]
    ctx.conform(exe, "SymTrace", L, "pairs")

def p27(ctx):
    exe = build.driver("sym"); rng = ctx.rng; Q = ctx.quick
    ctx.model("NearMC", "Side = 2 Size = 2" if Q else "Side = 2 Size = 3", "Finds")
    def query():
        if rng.random() < .5: return f"@{rng.randrange(10**6)} " + " ".join(str(x) for x in rng.choice([(0, 0, 0)] + [tuple(rng.choice([1, -1, 2, 5, -7, 40]) * (k == j) for j in range(3)) for k in range(3)] * 2 + [tuple(rng.randint(-3, 3) for _ in range(3))]))
        return " ".join(str(rng.randint(-s, s)) for s in [rng.choice([3, 30, 450, 1000])] * 3)
    L = []
    for i in range(120 if Q else 2000):
        L.append(f"ep a{i}"); nb = rng.randint(1, 4); shapes = [rng.randint(0, 3) for _ in range(nb)]
        for b in range(nb): L.append(f"buf {b} {rng.choice([1, 2, 3, 10, 40, 200])} {rng.randint(1, 10**6)} {shapes[b]}")
        for c in range(2): L.append(f"crv {c} " + " ".join(str(rng.randrange(nb)) for _ in range(rng.randint(1, 4))))
        for _ in range(14):
            o = rng.random()
            if o < .4: L.append(f"nn {rng.randrange(nb)} {rng.randint(-1, 2)} {query()}")
            elif o < .85: L.append(f"nv {rng.randrange(2)} {rng.randint(-1, 2)} {query()}")
            elif o < .92: L.append(f"nnfree {rng.randint(0, 2)}")
            else: L.append(f"nvfree {rng.randint(0, 2)}")
    ctx.conform(exe, "NearTrace", L, "small")
    L = []
    for i in range(6 if Q else 60):            # long enough for the sorted search
        L.append(f"ep b{i}"); ns = [5000, 5001, rng.randint(5000, 6500), 4999, 20]; rng.shuffle(ns)
        for b in range(3): L.append(f"buf {b} {max(ns[b], 20)} {rng.randint(1, 10**6)} {(i + b) % 4}")
        L.append("crv 0 0 1 2"); L.append("crv 1 2 0")
        for _ in range(40):
            o = rng.random()
            if o < .5: L.append(f"nn {rng.randrange(3)} {rng.randint(-1, 1)} {query()}")
            elif o < .9: L.append(f"nv {rng.randrange(2)} {rng.randint(-1, 1)} {query()}")
            else: L.append(rng.choice(["nnfree 0", "nvfree 0"]))
    ctx.conform(exe, "NearTrace", L, "long")
