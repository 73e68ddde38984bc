"""P01 well-formedness under histories, P02 crossing moves, P03 component operations / connect sum."""
import json
from .. import build

def parse(cases):
    return [json.loads(s) for s in cases]

def corpus(ctx, maxn, minn=1, signs="{0,1}", directions=False):
    """Exhaustive: every connected diagram with minn..maxn crossings, from Corpus.tla."""
    return parse(ctx.model("Corpus", f"MaxN = {maxn} MinEmit = {minn} Canonical = TRUE Signs = {signs} Directions = {'TRUE' if directions else 'FALSE'}",
                           "WellFormed Emit", prefix="CASE"))

def corpus_random(ctx, n, num, signs="{0,1}", directions=True):
    """Random diagrams with n crossings (tlc -simulate over the same growth process)."""
    return parse(ctx.model("Corpus", f"MaxN = {n} MinEmit = {n} Canonical = FALSE Signs = {signs} Directions = {'TRUE' if directions else 'FALSE'}",
                           "WellFormed Emit", prefix="CASE", simulate=num, depth=3 * n + 10))

def bline(r, c, op="build"):
    return "%s %d %d %s %s %s" % (op, r, c["n"], " ".join(map(str, c["mate"])), " ".join(map(str, c["out"])), " ".join(map(str, c["sg"])))

def histories(ctx, length, ops, choices, num):
    r = ctx.model("PDHist", f"Len0 = {length} Choices = {{{', '.join(map(str, choices))}}} Ops = {{{', '.join(chr(34) + o + chr(34) for o in ops)}}}",
                  "Emit", prefix="HIST", simulate=num, depth=length + 2)
    return [json.loads(s) for s in r]

def words(ctx, length, ops, choices):
    r = ctx.model("PDHist", f"Len0 = {length} Choices = {{{', '.join(map(str, choices))}}} Ops = {{{', '.join(chr(34) + o + chr(34) for o in ops)}}}",
                  "Emit", prefix="HIST")
    return [json.loads(s) for s in r]

OPLINE = {
    "d": lambda r, k: f"step {r} d {k} 0",
    "a": lambda r, k: f"step {r} a {k} {k // 3}",
    "2": lambda r, k: f"step {r} 2 {k} {k // 2}",
    "b": lambda r, k: f"step {r} b {k} {k // 5}",
    "3": lambda r, k: f"step {r} 3 {k} 0",
    "o": lambda r, k: f"reorient {r} {k} 0",
    "O": lambda r, k: f"reorient {r} {k} 1",
    "n": lambda r, k: f"renumber {r} {k} {k // 2}",
    "s": lambda r, k: f"simplify {r} {r}",
    "c": lambda r, k: f"copy {1 - r} {r}",
    "C": lambda r, k: f"consum {r} {r} {k} 2 {k * 7}",
    "g": lambda r, k: f"regen {r}",
    "S": lambda r, k: f"signs {r} {k * 2654435 % 16777216}",
    "U": lambda r, k: f"signs {r} -1",
    "t": lambda r, k: f"rottags {r} {k % 7} {k % 5}",
}

def script_from(hist, r=0):
    return [OPLINE[o](r, k) for o, k in hist]

FAMS = ([f"unknot {n}" for n in range(0, 10)] + [f"twist {n}" for n in range(1, 9)] + [f"torus 2 {q}" for q in range(2, 12)]
        + [f"chain {n}" for n in range(2, 8)] + [f"wye {a} {b} {c}" for a in range(1, 4) for b in range(1, 3) for c in range(1, 3)])

GIANTS = ["torus 2 41", "torus 2 130", "torus 2 257", "chain 27", "chain 33", "chain 55", "twist 40", "unknot 45", "unknot 70", "wye 12 9 14"]
def giants(ctx, fams=None, most=130, k=1):
    """Large diagrams: random ones of 24-70 crossings, and large members of the families (many components, long components)."""
    R = [[bline(0, c)] for n, m in (((24, 3), (40, 3), (70, 2)) if ctx.quick else ((24, 20), (33, 20), (40, 20), (70, 10), (90, 5))) if n <= most for c in corpus_random(ctx, n, m * k)]
    big = lambda f: int(f.split()[-1]) if not f.startswith("wye") else 35
    return R + [[f"fam 0 {f}"] for f in (GIANTS if fams is None else fams) if big(f) <= most]

def p01(ctx):
    exe = build.driver("pd")
    small = corpus(ctx, 3 if ctx.quick else 4)
    # every short word of operations on a few small diagrams
    ws = words(ctx, 2 if ctx.quick else 3, list("da2b3onscg"), [0, 3] if ctx.quick else [0, 3])
    L = []
    seeds = ctx.rng.sample(small, 6 if ctx.quick else 12)
    for i, c in enumerate(seeds):
        for j, w in enumerate(ws):
            L += [f"ep w{i}.{j}", bline(0, c)] + script_from(w) + ["okq 0"]
    ctx.conform(exe, "PDTrace", L, "words")
    # long random histories from larger diagrams and from the constructor families
    L = []
    nh = 60 if ctx.quick else 600
    hs = histories(ctx, 14 if ctx.quick else 24, list("ddaa22bb33oOnnscCgSUt"), list(range(0, 40)), nh)
    big = []
    for n in ((5, 6, 8) if ctx.quick else (5, 6, 7, 8, 9, 10)):
        big += corpus_random(ctx, n, 8 if ctx.quick else 40)
    for i, h in enumerate(hs):
        c = big[i % len(big)] if i % 3 else None
        L += [f"ep h{i}", bline(0, c) if c else f"fam 0 {FAMS[(i * 7) % len(FAMS)]}", f"fam 2 {FAMS[1 + (i * 5) % 30]}"]
        L += script_from(h) + ["okq 0"]
    ctx.conform(exe, "PDTrace", L, "hist")
    # every constructor family, larger members
    L = ["ep fam"]
    for f in FAMS + ["unknot 31", "twist 20", "torus 2 33", "chain 20", "wye 5 4 6", "torus 2 64", "chain 40"]:
        L += [f"fam 0 {f}", "okq 0", "copy 1 0"]
    ctx.conform(exe, "PDTrace", L, "fams", jobs=1)
    L = []; rng = ctx.rng
    for i, g in enumerate(giants(ctx, most=260)):
        L += [f"ep g{i}"] + g + [f"fam 2 {FAMS[1 + i % 30]}"] + [OPLINE[rng.choice("daa2bb33oOnnscCgSUt")](0, rng.randrange(300)) for _ in range(4 if "257" in g[0] else 9 if ctx.quick else 20)] + ["okq 0"]
    ctx.conform(exe, "PDTrace", L, "giants")

def p02(ctx):
    exe = build.driver("pd")
    from .pd_tangle import design
    design(ctx, 3 if ctx.quick else 4, "R1Undo R1Keep R2Undo R2Keep R3Keep", () if ctx.quick else ((5, 100), (6, 60)))
    small = corpus(ctx, 4)
    if ctx.quick:
        use = [c for c in small if c["n"] <= 3] + ctx.rng.sample([c for c in small if c["n"] == 4], 260)
    else:
        use = small + ctx.rng.sample(corpus(ctx, 5, 5), 1500)
    L = []
    for i, c in enumerate(use):
        L += [f"ep m{i}", bline(0, c), "rottags 0 1 2", "sweep 0 d2", "simplify -1 0"]
        if not ctx.quick or i % 2 == 0: L += ["sweep 0 a3"]
        if not ctx.quick or i % 4 == 0: L += ["sweep 0 b"]
    ctx.conform(exe, "PDTrace", L, "sweep")
    shadows = corpus(ctx, 3 if ctx.quick else 4, signs="{2}")
    L = []
    for i, c in enumerate(shadows):
        L += [f"ep s{i}", bline(0, c), "sweep 0 da2b3", "simplify -1 0"]
    ctx.conform(exe, "PDTrace", L, "shadow")
    L = []
    for n in ((6, 9) if ctx.quick else (5, 6, 7, 8, 9, 10, 12)):
        for j, c in enumerate(corpus_random(ctx, n, 40 if ctx.quick else 150)):
            # kinks and bigons are rare in random diagrams: add some before deleting
            L += [f"ep r{n}.{j}", bline(0, c), "rottags 0 2 1", f"step 0 b {j} {j // 3}", f"signs 0 {ctx.rng.getrandbits(24)}", "sweep 0 d2", "simplify -1 0",
                  f"step 0 a {j} 0", f"step 0 a {j + 1} 1", f"signs 0 {ctx.rng.getrandbits(24)}", "sweep 0 d3", "simplify -1 0"]
    ctx.conform(exe, "PDTrace", L, "large")
    L = []; rng = ctx.rng
    for i, g in enumerate(giants(ctx)):
        L += [f"ep g{i}"] + g + [f"rottags 0 {i} {i % 3}"]
        for o in ("bba2b3da" if ctx.quick else "bba2b3dab2a3b2d3"): L += [f"step 0 {o} {rng.randrange(500)} {rng.randrange(50)}"]
        L += ["simplify -1 0"] + [f"step 0 {o} {rng.randrange(500)} {rng.randrange(50)}" for o in "2233d"]
    ctx.conform(exe, "PDTrace", L, "giants")

def p03(ctx):
    exe = build.driver("pd")
    from .pd_tangle import design
    design(ctx, 2 if ctx.quick else 4, "MirrorLaw ReverseLaw SumLaw")
    small = corpus(ctx, 3, directions=True)
    L = []
    for i, c in enumerate(small):
        L += [f"ep c{i}", bline(0, c), "rottags 0 1 1", "copy 1 0", "copynew 1 0 %d" % (i % 9), "setuid 1 %d" % (i * 13), "copy 2 1",
              "reorient 0 0 0", "reorient 0 1 0", "reorient 0 2 1", "reorient 1 2 0", "reorient 1 3 0", "regen 1"]
        L += [f"renumber 0 {k} {o}" for k in range(3) for o in (1, 2, 5)] + ["okq 0", "regen 0"]
    ctx.conform(exe, "PDTrace", L, "comp")
    cs = small + corpus(ctx, 4, 4)
    L = []
    for i in range(300 if ctx.quick else 3000):
        a, b = ctx.rng.choice(cs), ctx.rng.choice(cs)
        L += [f"ep s{i}", bline(0, a), bline(1, b), "rottags 0 1 0"]
        for k in range(4):
            L += [f"consum -1 0 {ctx.rng.randrange(20)} 1 {ctx.rng.randrange(20)}"]
        L += [f"consum 2 0 {ctx.rng.randrange(20)} 0 {ctx.rng.randrange(20)}", "reorient 2 1 0", "consum 3 2 3 1 1", "okq 3"]
    ctx.conform(exe, "PDTrace", L, "consum")
    L = []
    for i in range(120 if ctx.quick else 1500):
        L += [f"ep p{i}"]
        for r in range(4):
            L += ["fam %d unknot 0" % r if ctx.rng.random() < 0.3 else bline(r, ctx.rng.choice(cs)), f"rottags {r} {ctx.rng.randrange(6)} 0"]
        for k in range(1, 6):
            L += [f"split {i * 7 + k} " + " ".join(str(ctx.rng.randrange(4)) for _ in range(k))]
    ctx.conform(exe, "PDTrace", L, "split")
    L = []
    for n in ((7, 11) if ctx.quick else (5, 6, 7, 8, 9, 10, 11, 12, 14)):
        for j, c in enumerate(corpus_random(ctx, n, 30 if ctx.quick else 100)):
            L += [f"ep l{n}.{j}", bline(0, c), "rottags 0 3 4", "copy 1 0"] + [f"reorient 0 {k} 0" for k in range(5)]
            L += [f"renumber 0 {k} {ctx.rng.randrange(1, 2 * n)}" for k in range(4)] + ["okq 0", "regen 0", "okq 0"]
    L += ["ep z0", "fam 0 unknot 0", "fam 1 chain 3", "consum 2 0 0 1 2", "consum 2 1 3 0 0", "consum 2 0 0 0 0", "okq 2"]
    L += ["ep z", "fam 0 unknot 0", "rottags 0 0 5", "setuid 0 77", "copy 1 0", "copynew 1 0 4"]
    ctx.conform(exe, "PDTrace", L, "large")
    L = []; rng = ctx.rng
    for i, g in enumerate(giants(ctx, most=260)):
        L += [f"ep g{i}"] + g + [f"rottags 0 {i} {i % 3}", f"setuid 0 {10 ** 9 + i}", "copy 1 0", "reorient 0 %d 0" % rng.randrange(40), "reorient 0 %d 0" % rng.randrange(40), "renumber 0 %d %d" % (rng.randrange(40), rng.randrange(1, 300)), "regen 1"]
        if "257" not in g[0]: L += [f"fam 2 {GIANTS[i % 2]}", f"consum 3 0 {rng.randrange(600)} 2 {rng.randrange(600)}", f"consum 3 2 {rng.randrange(600)} 0 {rng.randrange(600)}", "okq 3"]
    for i in range(3 if ctx.quick else 20):
        L += [f"ep gp{i}", "fam 0 torus 2 %d" % rng.randint(9, 30), "fam 1 chain %d" % rng.randint(5, 12), "fam 2 unknot 0", bline(3, corpus_random(ctx, 15, 1)[0])] + [f"split {i * 7 + k} " + " ".join(str(rng.randrange(4)) for _ in range(k)) for k in (2, 4, 7)]
    ctx.conform(exe, "PDTrace", L, "giants")
