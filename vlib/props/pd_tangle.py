"""P16 tangles and slides."""
from .. import build
from .pd_core import corpus, corpus_random, bline, FAMS

DESIGN = "MaxN = {0} MinEmit = {1} Canonical = {2} Signs = {{0,1}} Directions = TRUE"
def design(ctx, n, invs, rnd=()):
    """The specification's own moves against each other and the skein polynomial, on every diagram up to n crossings."""
    ctx.model("PDDesign", DESIGN.format(n, 1, "TRUE"), invs)
    for k, num in rnd:
        ctx.model("PDDesign", DESIGN.format(k, k, "FALSE"), invs, simulate=num, depth=3 * k + 10)

def p16(ctx):
    exe = build.driver("pd")
    design(ctx, 3 if ctx.quick else 4, "SlideKeep", ((5, 30), (6, 20)) if ctx.quick else ((5, 200), (6, 200), (7, 60)))
    L = []
    for i, c in enumerate(corpus(ctx, 3 if ctx.quick else 4, directions=True)): L += [f"ep c{i}", bline(0, c), f"rottags 0 1 {i % 3}", f"tangles 0 {i % 4}"]
    for n in (4, 5, 6, 7, 8) if ctx.quick else (5, 6, 7, 8, 9):
        for j, c in enumerate(corpus_random(ctx, n, 30 if ctx.quick else 250)):
            L += [f"ep r{n}.{j}", bline(0, c), f"reorient 0 {j} 0", f"renumber 0 {j // 3} {j % 5}", f"tangles 0 {j % 7}"]
    ctx.conform(exe, "PDTangleTrace", L, "small")
    L = []
    fams = ["torus 2 7", "chain 5", "twist 6", "wye 2 2 1", "wye 3 1 2"]
    for i, f in enumerate(fams): L += [f"ep f{i}", f"fam 0 {f}", f"signs 0 {ctx.rng.getrandbits(20)}"] + [f"tangleg 0 {ctx.rng.getrandbits(20)} {k}" for k in range(1, 9) for _ in range(3)]
    for n in (12, 16) if ctx.quick else (10, 12, 14, 16, 20):
        for j, c in enumerate(corpus_random(ctx, n, 30 if ctx.quick else 200)):
            L += [f"ep b{n}.{j}", bline(0, c)] + [f"tangleg 0 {ctx.rng.getrandbits(20)} {ctx.rng.randint(1, n - 1)}" for _ in range(12)]
            # long strands over everything: all crossings along one component made over
            L += [f"overall 0 {j}"] + [f"tangleg 0 {ctx.rng.getrandbits(20)} {ctx.rng.randint(1, n - 1)}" for _ in range(12)]
    for n, m in ((24, 4), (40, 3)) if ctx.quick else ((24, 30), (40, 20), (60, 6)):
        for j, c in enumerate(corpus_random(ctx, n, m)):
            L += [f"ep g{n}.{j}", bline(0, c), f"overall 0 {j}"] + [f"tangleg 0 {ctx.rng.getrandbits(20)} {ctx.rng.randint(1, n - 1)}" for _ in range(6)]
    ctx.conform(exe, "PDTangleTrace", L, "large")
