"""P09 hash, P10 collections of diagrams."""
import json
from .. import build
from .pd_core import corpus, corpus_random, bline, FAMS, histories, words, script_from, giants
from .pd_iso import scramble, variant, strands, SFAMS, few

def p09(ctx):
    exe = build.driver("pd"); rng = ctx.rng
    # the hash follows every operation
    L = []
    small = corpus(ctx, 3)
    ws = words(ctx, 2 if ctx.quick else 3, list("da2b3onsg"), [0, 3])
    for i, c in enumerate(rng.sample(small, 3 if ctx.quick else 8)):
        for j, w in enumerate(ws):
            L += [f"ep w{i}.{j}", bline(0, c)]
            for s in script_from(w): L += [s, "rehash 0"]
    hs = histories(ctx, 10 if ctx.quick else 20, list("daa2bb3oncgSt"), list(range(40)), 30 if ctx.quick else 300)
    big = [c for n in (5, 7, 9) for c in corpus_random(ctx, n, 8 if ctx.quick else 40)]
    for i, h in enumerate(hs):
        L += [f"ep h{i}", bline(0, big[i % len(big)]), f"fam 2 {FAMS[1 + i % 30]}"]
        for s in script_from(h): L += [s, "rehash 0"]
    for i, g in enumerate(giants(ctx)):
        L += [f"ep g{i}"] + g + ["rehash 0"]
        for o in "ba2o": L += script_from([(o, rng.randrange(200))]) + ["rehash 0"]
    ctx.conform(exe, "PDStore", L, "stale")
    # equal for isomorphic diagrams, however presented or decorated
    L = []
    pool = small + corpus(ctx, 3, signs="{2}")
    for i, c in enumerate(pool if not ctx.quick else rng.sample(pool, 120)):
        d = scramble(variant(c, rng, rng.choice(["", "sign", "swap", "rev"])), rng, i % 2 == 0)
        L += [f"ep i{i}", bline(0, c), bline(1, d), "rottags 1 1 3", "hash 0 1", bline(1, rng.choice(pool)), "hash 0 1", bline(1, rng.choice(pool)), "hash 1 0"]
    for n in ((4, 5, 6, 8, 11, 14) if ctx.quick else (4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 18)):
        R = corpus_random(ctx, n, 20 if ctx.quick else 150)
        for j, c in enumerate(R):
            L += [f"ep l{n}.{j}", bline(0, c), bline(1, scramble(variant(c, rng, "rev"), rng, j % 2 == 0)), "hash 0 1", f"reorient 1 {j} 0", f"renumber 1 {j} {j}", "signs 1 -1", "hash 0 1",
                  bline(1, rng.choice(R)), "hash 0 1"]
    for i, f in enumerate(FAMS):
        L += [f"ep f{i}", f"fam 0 {f}", f"fam 1 {rng.choice(FAMS)}", "hash 0 1", f"fam 1 {f}", f"renumber 1 {i} {i}", f"reorient 1 {i} 0", "hash 0 1"]
    for n in (24, 40) if ctx.quick else (24, 33, 40, 70):
        for j, c in enumerate(corpus_random(ctx, n, 4 if ctx.quick else 20)):
            L += [f"ep g{n}.{j}", bline(0, c), bline(1, scramble(variant(c, rng, "rev"), rng, j % 2 == 0)), "hash 0 1", f"reorient 1 {j} 0", f"renumber 1 {j} {j}", "signs 1 -1", "hash 0 1", f"step 1 a {j} 0", f"step 0 a {j + 1} 1", "hash 0 1"]
    for i, (a, b) in enumerate([("torus 2 130", "torus 2 131"), ("chain 33", "torus 2 66"), ("unknot 70", "twist 68"), ("torus 2 64", "chain 32")]):
        L += [f"ep gf{i}", f"fam 0 {a}", f"fam 1 {b}", "hash 0 1", f"fam 1 {a}", f"renumber 1 {i} 9", f"reorient 1 {i} 0", "hash 0 1"]
    ctx.conform(exe, "PDStore", L, "equal")

def shist(ctx, length, num=None):
    r = ctx.model("StoreHistMC", f"Len0 = {length} EqSet = {{0,1,2}} Emitting = TRUE Objs = {{0,1,2,3}} HashOf <- HashOf0 IsoOf <- IsoOf0 TopOf <- TopOf0",
                  "Identified OnePerClass Idempotent Findable Emit", prefix="HIST", simulate=num, depth=length + 2)
    return [json.loads(s) for s in r]

def slines(hist):
    out = []
    for op, k, eq in hist:
        out += {"add": [f"sadd 0 {k} {eq}"], "find": [f"sfind 0 {k}"], "round": [f"srt 0 0 {eq}"], "new": ["snew 0"]}[op]
    return out

def p10(ctx):
    exe = build.driver("pd"); rng = ctx.rng
    small = corpus(ctx, 3, directions=True)
    sh = corpus(ctx, 3, signs="{2}")
    def objs(tag):
        """four objects: x, an isomorphic but not isotopic one, one with (often) the same hash, another"""
        c = rng.choice(small)
        L = [bline(0, c), bline(1, scramble(variant(c, rng, rng.choice(["", "rev", "swap"])), rng, rng.random() < 0.5))]
        w = rng.choice([("wye 1 2 1", "wye 2 1 1"), ("wye 1 1 2", "wye 2 1 1"), ("wye 3 1 2", "wye 1 3 2"), ("unknot 3", "wye 1 1 1"), ("unknot 0", "unknot 1"), ("twist 2", "torus 2 4"), ("chain 3", "chain 4")])
        L += [f"fam 2 {w[0]}", f"fam 3 {w[1]}"] if rng.random() < 0.7 else [bline(2, rng.choice(sh)), bline(3, rng.choice(sh))]
        return L
    L = []
    hs = shist(ctx, 2 if ctx.quick else 3)
    for j in range(2):
        for i, h in enumerate(hs):
            L += [f"ep e{j}.{i}", "snew 0"] + objs("") + slines(h) + ["slist 0", "sdisp 0"]
    ctx.conform(exe, "PDStore", L, "words")
    L = []
    for i, h in enumerate(shist(ctx, 12 if ctx.quick else 25, 60 if ctx.quick else 600)):
        L += [f"ep h{i}", "snew 0"] + objs("") + slines(h[:6]) + objs("") + slines(h[6:]) + ["slist 0", "sdisp 0", "srt 0 1 0", "slist 1", "sinc 2 %d 1 0 1" % (i % 3), "slist 2",
              "sinc 3 0 1 0", "sadd 3 0 1", "sadd 2 1 2", "slist 3", "sinc 4 1 0 0 1", "sfree 0", "slist 1", "snew 0", "sadd 0 2 1", "sfree 2"]
    # a store with many elements per hash, many hashes
    for j, n in enumerate((3, 3, 4) if ctx.quick else (3, 3, 4, 4, 5, 5)):
        cs = corpus_random(ctx, n, 40 if ctx.quick else 100) if n > 3 else rng.sample(small, 30)
        L += [f"ep m{j}", "snew 0", "snew 1", "snew 2"]
        for k, c in enumerate(cs):
            L += [bline(0, c), "sadd 0 0 1", "sadd 1 0 2"] + (["sadd 2 0 0"] if k % 3 == 0 else []) + (["sfind 0 0"] if k % 4 == 0 else [])
        L += ["slist 0", "slist 1", "slist 2", "sdisp 0", "sdisp 1", "srt 0 3 1", "srt 2 4 1", "srt 2 5 0", "sinc 6 1 1 0 2", "slist 6"]
    for j in range(2 if ctx.quick else 12):
        cs = few(corpus_random(ctx, 24 if j % 2 else 40, 12))[:4]
        L += [f"ep g{j}", "snew 0", "fam 0 torus 2 65", f"sadd 0 0 {j % 3}", f"fam 0 torus 2 {64 + j}", f"sadd 0 0 {j % 3}", "fam 0 unknot 70", "sadd 0 0 1", "sfind 0 0"]
        for c in cs: L += [bline(0, c), f"sadd 0 0 {j % 3}", bline(0, scramble(variant(c, rng, rng.choice(["", "rev", "swap"])), rng, rng.random() < 0.5)), f"sadd 0 0 {j % 3}", "sfind 0 0"]
        L += ["slist 0", "srt 0 1 1", "slist 1"]
    ctx.conform(exe, "PDStore", L, "hist")
    # files: headers and damage
    L = []
    for j in range(4 if ctx.quick else 30):
        k = rng.randrange(0, 5)
        L += [f"ep d{j}", "snew 0"]
        for q in range(k): L += [bline(0, rng.choice(small)), f"sadd 0 0 {rng.randrange(2)}"]
        hd = lambda a, b, c: f"pdstor%20%0anelts%20{a}/{b}%20(claimed/actual)%20nhashes%20{c}%20%0a"
        L += [f"shdr 0 1 all {hd('?', '?', '?')}", f"shdr 0 0 all {hd('?', '?', '?')}", f"shdr 0 1 no {hd(100, 100, 1)}", f"shdr 0 1 no {hd(100, 99, 1)}", f"shdr 0 1 no {hd('x', 1, 1)}",
              f"shdr 0 1 no {hd('(in-progress)', '(in-progress)', '(in-progress)')}", "shdr 0 1 no pdstor%0a", "shdr 0 1 no nonsense%0a", f"shdr 0 2 any {hd(1, 1, 1)}", f"shdr 0 1 any {hd(0, 0, 0)}", f"shdr 0 1 any {hd(-1, -1, 0)}"]
        for q in range(0, 1000, 23 if ctx.quick else 7): L += [f"scut 0 1 {q} 0", f"scut 0 {q % 3} {q} {rng.choice([32, 45, 48, 57, 63, 120])}"]
    ctx.conform(exe, "PDStore", L, "files")
