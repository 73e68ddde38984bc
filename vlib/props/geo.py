"""P32 splines, P33 the geometry of vectors."""
from .. import build
from .plc import integral

AX = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
PY = [(2, 1, 2), (1, 2, 2), (-2, 2, 1), (0, 3, 4), (3, 0, -4), (0, 0, 2), (2, 3, 6), (0, 2, 0), (-1, 0, 0), (1, 4, 8)]

def p32(ctx):
    exe = build.driver("geo"); rng = ctx.rng; Q = ctx.quick
    ctx.model("SplineMC", "Range = {0, 1, 2, 3%s} Lengths = {1, 2, 3}" % ("" if Q else ", 5, 6"), "Law_Cubic Law_Join")
    L = []
    for i in range(260 if Q else 4000):
        g = i % 26 == 25; nc = rng.choice([1, 1, 2, 3] if not g else [1, 9, 14]); cs = []
        while len(cs) < nc:
            cl = rng.random() < .5; m = 9 if nc > 3 or not g else 50; vt = integral(rng, rng.randint(2, m // 2 + 1) if cl else rng.randint(1, m), cl, rng.choice([AX, PY, AX + PY]))
            if cl and vt[1] == vt[-1]: continue                      # no mean tangent there
            cs.append((len(vt), 0 if cl else 1, rng.choice([0, 1, len(vt)]), vt))
        L += [f"ep s{i}", f"spline {nc} " + " ".join("%d %d %d" % c[:3] for c in cs) + " " + " ".join("%d %d %d" % v for c in cs for v in c[3])]
        for _ in range(rng.randint(1, 4)): L.append("resample " + " ".join(str(rng.choice([c[0], rng.randint(2 if c[1] else 3, 12), rng.randint(13, 60) if not g or nc > 3 else rng.randint(60, 300)])) for c in cs))
        L.append("unspline")
    ctx.conform(exe, "SplineTrace", L, "splines")

def p33(ctx):
    exe = build.driver("geo"); rng = ctx.rng; Q = ctx.quick
    ctx.model("VectMC", "Grid = {0, 1, 2}", "Law_Cross Law_Triple Law_Hinge Law_Quads", **(dict(simulate=3000, depth=4) if Q else {}))
    L = []
    for i in range(1500 if Q else 25000):
        k = rng.choice([1, 2, 3, 3]); p = [[rng.randint(-k, k) for _ in range(3)] for _ in range(4)]
        m = rng.random()
        if m < .1: p[rng.randrange(4)] = list(p[rng.randrange(4)])
        elif m < .2: p[3] = [max(-3, min(3, 2 * b - a)) for a, b in zip(p[0], p[1])]
        elif m < .35: 
            for v in p: v[2] = 0
        if i % 50 == 0: L.append(f"ep v{i}")
        L.append(f"vec {rng.randint(-4, 5)} {rng.randint(-4, 4)} " + " ".join(str(c) for v in p for c in v))
    AXES = AX + PY + [(0, 0, 0), (2, -6, 3), (-4, 4, 7), (0, 0, -3)]; T = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-5, 12, 13), (7, -24, 25), (-4, -3, 5)]
    for i in range(700 if Q else 10000):
        if i % 50 == 0: L.append(f"ep t{i}")
        a = rng.choice(AXES); V = tuple(rng.randint(-3, 3) for _ in range(3)) if rng.random() < .85 else tuple(rng.choice([-1, 1, 0]) * x for x in a) if max(map(abs, a)) < 4 else a
        L.append("turn %d %d %d " % rng.choice(T) + "%d %d %d " % a + "%d %d %d" % V + f" {rng.randint(-60, 60)} {rng.randint(-60, 60)}")
    ctx.conform(exe, "VectTrace", L, "vectors")
    L = []
    for i in range(150 if Q else 2000):
        n = rng.choice([4, 4, 5, 6, 7, 8] + ([] if Q else [9, 11])); al = n * (n - 1) * (n - 2) * (n - 3) // 12
        L += [f"ep d{i}", f"dihedrals {rng.choice([0, 0, 1, 2, 3, 5, al - 1, al, al + 1, al + 7, 2 * al])} {n} " + " ".join(str(rng.randint(0, 2)) for _ in range(3 * n))]
    for n in (50, 76, 110, 200): L += [f"ep big{n}", f"dihedrals {rng.randint(5, 60)} {n} " + " ".join(str(rng.randint(0, 2)) for _ in range(3 * n))]
    ctx.conform(exe, "VectTrace", L, "dihedrals")
