"""P28 triangulations, P29 the polygon Markov chain, P30 samplers, P31 the error estimator."""
import json
from .. import build

KINDS = ["fan", "spiral", "teeth", "random"]

def p28(ctx):
    exe = build.driver("tsm"); rng = ctx.rng; Q = ctx.quick
    got = ctx.model("TriMC", "Sizes = {%s} Directed = TRUE" % ("3, 4, 5, 6" if Q else "3, 4, 5, 6, 7"), "Law_Bound Law_Size Law_Faces Law_Tree Law_Families Emit", prefix="TRI")
    got += ctx.model("TriMC", "Sizes = {%s} Directed = FALSE" % ("7" if Q else "8"), "Law_Bound Law_Size Law_Faces Law_Tree Law_Families Emit", prefix="TRI")
    sys = [json.loads(g) if isinstance(g, str) else g for g in got]
    rng.shuffle(sys)
    L = []
    for i, s in enumerate(sys[:2200] if Q else sys[:60000]):
        if i % 40 == 0: L.append(f"ep g{i}")
        L.append(f"chords {s[0]} " + " ".join(f"{a} {b}" for a, b in (c if rng.random() < .5 else c[::-1] for c in s[1:])))
    ctx.conform(exe, "TriTrace", L, "given")
    L = []
    def split(n):          # a random triangulation, as unordered chords
        out = []
        def go(p):
            if len(p) <= 3: return
            while True:
                i, j = sorted(rng.sample(range(len(p)), 2))
                if 1 < j - i < len(p) - 1: break
            out.append((p[i], p[j])); go(p[i:j + 1]); go(p[:i + 1] + p[j:])
        go(list(range(n))); rng.shuffle(out); return [c if rng.random() < .5 else c[::-1] for c in out]
    for i in range(40 if Q else 500):
        n = rng.choice([8, 9, 10, 13, 17, 24]) if i % 10 else rng.choice([40, 70, 100]); L += [f"ep b{i}", f"chords {n} " + " ".join("%d %d" % c for c in split(n))]
    for k in KINDS:
        for n in list(range(3, 15)) + [21, 32, 65]:
            for s in range(1 if k != "random" else 4 if Q else 40): L += [f"ep n{k}{n}_{s}", f"tri {k} {n} {rng.randint(1, 10**6)}"]
    for i in range(150 if Q else 2500):
        k = rng.randint(2, 5); n = rng.randint(4, 9); L += ([f"ep c{i}"] if i % 30 == 0 else [])
        L.append("csok " + " ".join("%d %d" % tuple(rng.sample(range(n), 2)) for _ in range(k)))
    for i in range(260 if Q else 2600):
        L += [f"ep d{i}", f"bad {rng.choice(KINDS)} {rng.randint(5, 12)} {rng.randint(1, 999)} {i % 26} {rng.randint(0, 40)}"]
    ctx.conform(exe, "TriTrace", L, "named")

def p31(ctx):
    exe = build.driver("tsm"); rng = ctx.rng; Q = ctx.quick
    got = ctx.model("GeyerMC", "Bufs = {2, 3, 4} Values = {0, 1, 3} MaxLen = %d" % (7 if Q else 9), "Law_Stream Law_Cov Law_Est Law_Sym Emit", prefix="GEY")
    H = [json.loads(g) if isinstance(g, str) else g for g in got]; rng.shuffle(H)
    L = []
    for i, h in enumerate(H[:2500] if Q else H[:40000]):
        if i % 25 == 0: L.append(f"ep m{i}")
        L.append(f"gnew {h[0]}"); k = 1
        while k < len(h):
            j = min(len(h), k + rng.randint(1, 4)); L.append("gadd " + " ".join(map(str, h[k:j]))); k = j
            L.append("gval 1")
        L += ["gbat", "gfree"]
    ctx.conform(exe, "GeyerTrace", L, "histories")
    L = []
    for i in range(70 if Q else 1500):
        b = rng.choice([2, 3, 5, 8, 20, 49, 50, 51, 55, 64, 100, 200]); n = rng.randint(1, 150); lo, hi = rng.choice([(0, 1), (-2, 2), (0, 3), (1, 1)])
        mode = rng.randint(0, 4); d = []; x = 0
        for t in range(n):
            if mode == 0: v = rng.randint(lo, hi)
            elif mode == 1: x = max(-3, min(3, x + rng.choice([-1, 0, 0, 1]))); v = x
            elif mode == 2: v = t % rng.choice([2, 2, 2, 3])
            elif mode == 3: v = (t // 6) % 3
            else: v = t % 3 + (rng.random() < .1)
            d.append(v)
        L += [f"ep l{i}", f"gnew {b}"]; k = 0
        while k < n:
            j = min(n, k + rng.choice([1, 3, b, b + 1, 60])); L.append("gadd " + " ".join(map(str, d[k:j]))); k = j
            if rng.random() < .5: L.append(f"gval {rng.choice([1, 1, 1, 0])}")
        L += ["gval 1", "gval 1", "gbat", "gfree"]
    ctx.conform(exe, "GeyerTrace", L, "long")
    L = []
    for i in range(16 if Q else 120):        # slowly varying: hundreds of positive Gammas
        h = rng.choice([300, 700, 738, 744, 760, 850] if Q else [100, 300, 500, 700, 738, 741, 744, 747, 760, 850, 1200, 1700]) + rng.randint(0, 5); v = rng.choice([1, 1, 2, 3])
        runs = [v, h, -v, h] if rng.random() < .6 else [v, h - 3, 0, rng.randint(1, 40), -v, h - 3] if rng.random() < .5 else [1, h, 2, h // 2, -2, h // 2, -1, h]
        L += [f"ep r{i}", "grun " + " ".join(map(str, runs))]
    ctx.conform(exe, "GeyerTrace", L, "slow")

def p29(ctx):
    exe = build.driver("tsm"); rng = ctx.rng; Q = ctx.quick
    got = ctx.model("ChainMC", "N = 4 Longest = 3", "Law_Arcs Law_Convex Law_Close Emit", prefix="CHN")
    got += ctx.model("ChainMC", "N = 5 Longest = %d" % (1 if Q else 2), "Law_Arcs Law_Convex Law_Close Emit", prefix="CHN")
    seen = sorted(set(g if isinstance(g, str) else json.dumps(g) for g in got)); rng.shuffle(seen); L = []
    for i, g in enumerate(seen[:500] if Q else seen[:15000]):
        e, d, S = json.loads(g); n = len(e); out = list(d); out[rng.randrange(n - 3)] += rng.choice([1, 1, 2, -1])
        if i % 20 == 0: L.append(f"ep w{i}")
        for x in (d, out): L.append(f"lens given {n} {i} 1 " + " ".join(map(str, e + [max(0, y) for y in x])) + " " + " ".join("%d %d" % tuple(c) for c in S))
    ctx.conform(exe, "ChainTrace", L, "walk")
    L = []
    for i in range(110 if Q else 2000):
        what = rng.choice(["regular", "equi", "equi", "regftc", "ftc", "ftc", "confined", "confined"]); n = rng.choice([4, 5, 5, 6, 7, 8, 9, 12, 20]) if i % 15 else rng.choice([33, 65, 100])
        kind = "fan" if what == "confined" else rng.choice(KINDS)
        x = 0 if what in ("regular", "equi") else round(rng.uniform(.05, n - 1.05), 3) if what in ("ftc", "regftc") else rng.choice([1.05, 1.1, 1.5, 2.0, 3.5])
        L += [f"ep c{i}", f"start {what} {kind} {n} {rng.randint(1, 10**6)} {x}", "embed"]
        for _ in range(rng.randint(3, 8)):
            b, d = rng.choice([0, .3, .5, 1]), rng.choice([0, .3, .5, 1])
            w = rng.choice(["cmp", "dih", "cd", "cd"] if what == "confined" else ["mp", "dih", "perm", "dd", "ddp", "ddp", "perm"])
            if w in ("perm", "ddp") and what[:3] == "reg": w = "dd"        # flat polygons permute into degenerate ones
            L.append(f"step {w} {rng.randint(1, 10**6)} {b} {d} {rng.randint(1, 4)}")
            if rng.random() < .6: L.append("embed")
    ctx.conform(exe, "ChainTrace", L, "steps")
    L = []
    for i in range(220 if Q else 4000):
        n = rng.randint(4, 8); u = rng.choice([1, 1, 1, .1, .01, .3]); kind = rng.choice(KINDS); m = rng.choice([1, 2, 3, 5])
        e = [1] * n if rng.random() < .2 else [rng.randint(1, m) for _ in range(n)]
        L += ([f"ep l{i}"] if i % 10 == 0 else []) + [f"lens {kind} {n} {rng.randint(1, 999)} {u} " + " ".join(map(str, e + [max(1, min(2 * m, round(rng.gauss(m, m * .4)))) for _ in range(n - 3)]))]
    for i in range(220 if Q else 4000):
        n = rng.randint(3, 8); k = rng.choice([1, 2, 3, 3])
        L += ([f"ep p{i}"] if i % 10 == 0 else []) + [f"poly {rng.choice(KINDS)} {n} {rng.randint(1, 999)} " + " ".join(str(rng.randint(-k, k)) for _ in range(3 * n))]
    ctx.conform(exe, "ChainTrace", L, "lengths")
    L = []
    for i in range(30 if Q else 300):
        what = ["equi", "ftc", "confined"][i % 3]; n = rng.choice([4, 5, 6, 7, 10, 40, 150]); x = {"equi": 0, "ftc": round(rng.uniform(.1, n - 1.1), 3), "confined": rng.choice([1.1, 1.5, 4])}[what]
        mx = rng.choice([20, 100, 400]); L += [f"ep r{i}", f"run {what} {rng.choice(KINDS)} {n} {rng.randint(1, 10**6)} {x} {mx} {rng.choice([1, 5, mx - 1, mx - 3, 10])} {rng.choice([0, .3, .5, 1])} {rng.choice([0, 0, .3, .5, 1])} {rng.randint(1, 4)} {rng.choice([0, 2, -1])} {rng.randint(0, 5)} {rng.choice([0, 1, 1])} {rng.choice([0, 1])}"]
    for i in range(8 if Q else 60):
        n = rng.choice([5, 6, 7]); L += [f"ep s{i}", f"run equi {KINDS[i % 4]} {n} {rng.randint(1, 10**6)} 0 30000 1000 0.5 {[0, .5, .9][i % 3]} 3 {rng.randint(2, n - 2)} {rng.randint(0, n)} 1 0"]
    for i in range(10 if Q else 60):
        what = ["equi", "ftc", "confined"][i % 3]; n = rng.choice([4, 5, 6] if what != "ftc" else [4, 5]); x = {"equi": 0, "ftc": round(rng.uniform(.5, n - 2), 2), "confined": rng.choice([1.1, 1.5, 1.8])}[what]
        L += [f"ep m{i}", f"start {what} {'fan' if what == 'confined' else rng.choice(KINDS)} {n} {rng.randint(1, 10**6)} {x}", f"mean 30000 {rng.randint(1, 10**6)}"]
    ctx.conform(exe, "ChainTrace", L, "runs")

def p30(ctx):
    exe = build.driver("tsm"); rng = ctx.rng; Q = ctx.quick
    ctx.model("PolyMC", "N = 4 Coords = {%s}" % ("0, 1, 3" if Q else "0, 1, 2, 4"), "Law_Closed Law_Open Law_Fractions")
    if not Q: ctx.model("PolyMC", "N = 5 Coords = {0, 2}", "Law_Closed Law_Open Law_Fractions")
    sd = lambda: rng.randint(1, 10**6)
    K = ["closed", "open", "pclosed", "popen", "eclosed", "eopen"]; L = []
    for k in K:
        for n in list(range(3, 13)) + [20, 50, 133] + ([400, 1000] if k == "eclosed" else [1000]) + ([] if Q else [2000, 3000]):
            for _ in range(2 if Q else 10 if n < 500 else 2): L += [f"ep p{k}{n}_{len(L)}", f"polygon {k} {n} {sd()}"]
        for _ in range(3): L += [f"ep a{k}{len(L)}", f"again {k} {rng.randint(4, 30)} {sd()}"]
    for i in range(20 if Q else 200): L += [f"ep s{i}", f"polygon sap {rng.randint(5, 9 if Q else 12)} {sd()}"]
    L += ["ep again", f"again sap 6 {sd()}"]
    ctx.conform(exe, "PolyTrace", L, "polygons")
    L = []
    for k in K:
        for n in ([4, 5, 7] if Q else [3, 4, 5, 6, 7, 8, 10, 15]): L += [f"ep m{k}{n}", f"moments {k} {n} {sd()} {60000 if Q else 400000}"]
    for n in ([5, 6] if Q else [5, 6, 7, 8]): L += [f"ep msap{n}", f"moments sap {n} {sd()} {40000 if Q else 120000}"]
    for i in range(3): L += [f"ep v{i}", f"sphere {sd()} {300000 if Q else 3000000}", f"ball {sd()} {100000 if Q else 2000000} {rng.choice([.01, 1, 3.5])}", f"xoshiro {sd()} {300000 if Q else 3000000}"]
    ctx.conform(exe, "PolyTrace", L, "averages")
    L = []
    for i in range(300 if Q else 5000):
        nc = rng.choice([1, 1, 2, 3]); nv = [rng.randint(2, 5) for _ in range(nc)]; w = rng.choice([8, 15, 25])
        if i % 20 == 0: L.append(f"ep q{i}")
        P = []
        while len(P) < sum(nv):
            x = [rng.randint(-w, w) for _ in range(3)]
            if rng.random() < .15 or all(sum((a - b) ** 2 for a, b in zip(x, y)) >= 100 for y in P): P.append(x)
            elif rng.random() < .02: w += 5
        if rng.random() < .2:
            a, b = rng.sample(range(len(P)), 2); P[b] = [P[a][0] + 6, P[a][1] + 8, P[a][2]] if rng.random() < .5 else [P[a][0] + 5, P[a][1] + 8, P[a][2]]
        L.append(f"issap {nc} " + " ".join(map(str, nv)) + " " + " ".join(str(c) for x in P for c in x))
    ctx.conform(exe, "PolyTrace", L, "apart")
    L = []
    for i in range(250 if Q else 4000):
        nc = rng.choice([1, 1, 2, 3]); cp = rng.randrange(nc); sh = []
        for c in range(nc):
            nv = rng.randint(2, 6); op = 1 if nv < 3 or (c == cp and rng.random() < .95) else rng.randint(0, 1); sh.append((nv, op, rng.choice([0, 1, nv])))
        V = [[[rng.randint(-6, 6) for _ in range(3)] for _ in range(s[0])] for s in sh]
        tot = sum(sum((a - b) ** 2 for a, b in zip(v[j], v[(j + 1) % len(v)])) ** .5 for v, s in zip(V, sh) for j in range(len(v) - s[1]))
        gap = sum((a - b) ** 2 for a, b in zip(V[cp][0], V[cp][-1])) ** .5
        if tot + gap == 0: continue
        f = rng.choice([.3, .6, .9, .99, 1.02, 1.2, 1.0]); u = 2 * f / (tot + gap); m = rng.choice([0, 1, 1, 2, 2, 3, 4, 8, 30])
        L += ([f"ep c{i}"] if i % 5 == 0 else []) + [f"close {sd()} {cp} {sh[cp][0] - 1 + m} {u!r} {rng.choice([1, 1, 1, 3000])} {nc} " + " ".join("%d %d %d" % s for s in sh) + " " + " ".join(str(c) for v in V for x in v for c in x)]
    ctx.conform(exe, "PolyTrace", L, "closures")
