"""P07 the three equivalences, P08 isomorphism enumeration, P09 hash."""
from .. import build
from .pd_core import corpus, corpus_random, bline, FAMS

def scramble(c, rng, flip=False):
    """The same diagram presented differently: crossings permuted and rotated, the plane possibly reflected."""
    n = c["n"]; perm = list(range(n)); rng.shuffle(perm); rot = [rng.randrange(4) for _ in range(n)]
    def im(d):
        k, p = divmod(d, 4)
        return 4 * perm[k] + ((rot[k] - p) % 4 if flip else (rot[k] + p) % 4)
    mate = [0] * (4 * n); out = [0] * (4 * n); sg = [0] * n
    for d in range(4 * n):
        mate[im(d)] = im(c["mate"][d]); out[im(d)] = c["out"][d]
    for k in range(n): sg[perm[k]] = c["sg"][k]
    return dict(n=n, mate=mate, out=out, sg=sg)

def strands(c):
    n, seen, res = c["n"], set(), []
    for d in range(4 * n):
        if d in seen or not c["out"][d]: continue
        w, x = [], d
        while x not in w:
            w.append(x); m = c["mate"][x]; x = (m // 4) * 4 + (m + 2) % 4
        seen |= set(w) | {c["mate"][y] for y in w}; res.append(w)
    return res

def variant(c, rng, kind):
    c = dict(n=c["n"], mate=list(c["mate"]), out=list(c["out"]), sg=list(c["sg"]))
    if kind == "sign": k = rng.randrange(c["n"]); c["sg"][k] = rng.choice([v for v in (0, 1, 2) if v != c["sg"][k]])
    if kind == "swap" and c["n"] > 1:
        a, b = rng.sample(range(c["n"]), 2); c["sg"][a], c["sg"][b] = c["sg"][b], c["sg"][a]
    if kind == "rev":
        for w in rng.sample(strands(c), 1):
            for d in w: c["out"][d] = 0; c["out"][c["mate"][d]] = 1
    return c

SFAMS = [f for f in FAMS if f not in ("chain 6", "chain 7")]

KINDS = ["", "", "sign", "swap", "rev"]

def pairs(ctx, cs, count, L, name, tags=True):
    rng = ctx.rng
    for i in range(count):
        c = rng.choice(cs); k = rng.choice(KINDS); flip = rng.random() < 0.5
        if rng.random() < 0.25:      # partly signed
            c = dict(c, sg=[v if rng.random() < 0.6 else rng.randrange(3) for v in c["sg"]])
        L += [f"ep {name}{i}", bline(0, c), bline(1, scramble(variant(c, rng, k), rng, flip))]
        if tags:
            a, b = rng.randrange(3), rng.randrange(3)
            if rng.random() < 0.7: b = a
            L += [f"rottags 0 {a} 0", f"rottags 1 {b} 0"]
        L += ["iso 0 1", "iso 1 0", "iso 0 0", f"reorient 1 {rng.randrange(4)} 0", "iso 0 1", f"renumber 1 {rng.randrange(4)} {rng.randrange(6)}", "iso 1 0", f"isostr 0 1 {i}"]

def few(cs, most=100):
    """Diagrams for which the library's search over components stays short (it tries all matchings of equally long components)."""
    from math import prod, factorial
    def work(c):
        n = [len(w) for w in strands(c)]
        return prod(factorial(n.count(k)) for k in set(n)) * prod(n) // max(n)
    return [c for c in cs if work(c) <= most]

def p07(ctx):
    exe = build.driver("pd"); rng = ctx.rng
    # every pair of diagrams with one or two crossings
    tiny = corpus(ctx, 2, directions=True)
    L = []
    for i, a in enumerate(tiny):
        L += [f"ep a{i}", bline(0, a)]
        for b in tiny:
            L += [bline(1, b), "iso 0 1"]
    ctx.conform(exe, "PDTrace", L, "tiny")
    small = corpus(ctx, 3, 3, directions=True) + corpus(ctx, 4, 4) + corpus(ctx, 3, signs="{2}")
    L = []
    pairs(ctx, small, 350 if ctx.quick else 4000, L, "s")
    byn = {}
    for c in small: byn.setdefault(c["n"], []).append(c)
    for i in range(250 if ctx.quick else 3000):
        g = byn[rng.choice([3, 4])]
        L += [f"ep x{i}", bline(0, rng.choice(g)), bline(1, rng.choice(g)), "iso 0 1"]
    ctx.conform(exe, "PDTrace", L, "small")
    L = []
    for n in ((5, 7, 9) if ctx.quick else (5, 6, 7, 8, 9, 10, 12)):
        pairs(ctx, corpus_random(ctx, n, 30 if ctx.quick else 200), 25 if ctx.quick else 250, L, f"l{n}.")
    for i, f in enumerate(SFAMS):
        g = SFAMS[rng.randrange(len(SFAMS))]
        L += [f"ep f{i}", f"fam 0 {f}", f"fam 1 {g}", "iso 0 1", f"fam 1 {f}", "iso 0 1"] + (["isostr 0 1 0"] if f != "unknot 0" else []) + [f"reorient 1 {i} 0", "iso 0 1", f"renumber 1 0 {i}", "iso 1 0", "signs 1 -1", "iso 0 1"]
    for n, m in (((24, 3), (40, 3)) if ctx.quick else ((24, 20), (33, 10), (40, 10), (70, 4))):
        cs = few(corpus_random(ctx, n, 4 * m))
        if cs: pairs(ctx, cs, 2 * m, L, f"g{n}.")
    for i, f in enumerate(["torus 2 41", "torus 2 40", "unknot 45", "wye 7 6 9", "twist 30"]):
        L += [f"ep gf{i}", f"fam 0 {f}", f"fam 1 {f}", f"renumber 1 {i} 9", "iso 0 1", f"reorient 1 {i} 0", "iso 0 1", "signs 1 -1", "iso 0 1"]
    # tags that do not correspond at all; after moves; the crossingless circle
    L += ["ep t", "fam 0 chain 3", "fam 1 chain 3", "rottags 1 0 4", "iso 0 1", "rottags 0 2 4", "iso 0 1", "ep z", "fam 0 unknot 0", "fam 1 unknot 0", "iso 0 1", "rottags 1 0 3", "iso 0 1", "fam 1 unknot 1", "iso 0 1", "iso 1 0"]
    ctx.conform(exe, "PDTrace", L, "large")

def p08(ctx):
    exe = build.driver("pd"); rng = ctx.rng
    small = corpus(ctx, 3, directions=False) + corpus(ctx, 3, signs="{2}")
    if ctx.quick: small = [c for c in small if c["n"] < 3] + rng.sample([c for c in small if c["n"] == 3], 60)
    L = []
    for i, c in enumerate(small):
        L += [f"ep i{i}", bline(0, c), bline(1, scramble(c, rng, i % 2 == 0))] + [f"isos {a} {b} {k}" for k in range(3) for a, b in ((0, 1), (0, 0))]
    for n in ((4, 5, 7) if ctx.quick else (4, 5, 6, 7, 8, 9)):
        for j, c in enumerate(corpus_random(ctx, n, 10 if ctx.quick else 100)):
            L += [f"ep l{n}.{j}", bline(0, c), bline(1, scramble(variant(c, rng, rng.choice(KINDS)), rng, j % 2 == 0))] + [f"isos 0 1 {k}" for k in range(3)] + ["isos 1 1 2"]
    for i, f in enumerate(f for f in SFAMS if f != "unknot 0"):
        L += [f"ep f{i}", f"fam 0 {f}", f"fam 1 {f}", f"renumber 1 {i} {i}", f"reorient 1 {i} 0", "isos 0 1 0", "isos 0 1 1", "isos 0 1 2", "isos 0 0 2"]
    for n, m in (((16, 3), (24, 2)) if ctx.quick else ((16, 20), (24, 10), (40, 5))):
        for j, c in enumerate(few(corpus_random(ctx, n, 4 * m))[:m]):
            L += [f"ep g{n}.{j}", bline(0, c), bline(1, scramble(variant(c, rng, rng.choice(KINDS)), rng, j % 2 == 0))] + [f"isos 0 1 {k}" for k in range(3)] + ["isos 1 1 2"]
    for i, f in enumerate(["torus 2 17", "torus 2 24", "twist 15", "unknot 20"]):
        L += [f"ep gf{i}", f"fam 0 {f}", f"fam 1 {f}", f"renumber 1 {i} 5", "isos 0 1 0", "isos 0 1 1", "isos 0 1 2"]
    ctx.conform(exe, "PDTrace", L, "isos")
    # the maps of a diagram to itself: symmetric diagrams have interesting groups
    L = []
    for i, f in enumerate(f for f in SFAMS if f != "unknot 0"):
        L += [f"ep g{i}", f"fam 0 {f}"] + [f"autos 0 {k} {10 if ctx.quick else 24}" for k in range(3)]
    for i, c in enumerate(small if not ctx.quick else small[:40]):
        L += [f"ep h{i}", bline(0, c), "autos 0 0 8", "autos 0 1 8", "signs 0 -1", "autos 0 2 8"]
    ctx.conform(exe, "PDTrace", L, "groups")
