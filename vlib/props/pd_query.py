"""P11 queries and counts, P12 HOMFLY."""
import os
from .. import build
from .pd_core import corpus, corpus_random, bline, FAMS, giants

def p11(ctx):
    exe = build.driver("pd")
    small = corpus(ctx, 3 if ctx.quick else 4, directions=True)
    L = []
    for i, c in enumerate(small):
        L += [f"ep c{i}", bline(0, c), "rottags 0 1 1", "q 0", f"reorient 0 {i % 3} 0", "q 0"]
    for i, c in enumerate(corpus(ctx, 3 if ctx.quick else 4, signs="{2}")):
        L += [f"ep u{i}", bline(0, c), "q 0"]
    ctx.conform(exe, "PDTrace", L, "small")
    L = []
    for n in ((5, 7, 10) if ctx.quick else (5, 6, 7, 8, 9, 10, 12, 14)):
        for j, c in enumerate(corpus_random(ctx, n, 60 if ctx.quick else 300)):
            L += [f"ep r{n}.{j}", bline(0, c), "q 0", f"reorient 0 {j} 0", f"renumber 0 {j + 1} {1 + j % 5}", "q 0", f"step 0 b {j} {j // 2}", "q 0"]
            if j % 4 == 0: L += ["unsign 0 5", "q 0"]
    L += ["ep fam"]
    for f in FAMS + ["torus 2 40", "chain 25", "twist 18", "wye 6 5 4"]:
        L += [f"fam 0 {f}", "q 0", "signs 0 %d" % ctx.rng.getrandbits(24), "q 0"]
    for i, g in enumerate(giants(ctx, most=70)):
        L += [f"ep g{i}"] + g + ["q 0", f"reorient 0 {ctx.rng.randrange(40)} 0", f"renumber 0 {ctx.rng.randrange(40)} {ctx.rng.randrange(200)}", f"signs 0 {ctx.rng.getrandbits(24)}", "q 0"]
    ctx.conform(exe, "PDTrace", L, "large")

def smoothed(c, x):
    """The diagram with crossing x cut open along the orientation, or None (a loop at x, or it falls apart)."""
    n, mate, out = c["n"], list(c["mate"]), c["out"]
    D = range(4 * x, 4 * x + 4)
    if n < 2 or any(mate[d] in D for d in D): return None
    for i in D:
        if out[i]: continue
        o = next(d for d in D if out[d] and (d - i) % 4 != 2)
        a, b = c["mate"][i], c["mate"][o]; mate[a] = b; mate[b] = a
    dn = lambda d: d if d < 4 * x else d - 4
    keep = [d for d in range(4 * n) if d not in D]
    r = dict(n=n - 1, mate=[dn(mate[d]) for d in keep], out=[out[d] for d in keep], sg=[v for k, v in enumerate(c["sg"]) if k != x])
    seen, todo = {0}, [0]
    while todo:
        k = todo.pop()
        for d in range(4 * k, 4 * k + 4):
            j = r["mate"][d] // 4
            if j not in seen: seen.add(j); todo.append(j)
    return r if len(seen) == n - 1 else None

def skeins(ctx, cs, per):
    L = []
    for i, c in enumerate(cs):
        xs = list(range(c["n"])); ctx.rng.shuffle(xs); k = 0
        for x in xs:
            z = smoothed(c, x)
            if z and k < per:
                k += 1; L += [f"ep k{c['n']}.{i}.{x}", bline(0, c).replace("build 0", f"skein {x}") + " " + bline(0, z).replace("build 0 ", "")]
    return L

def p12(ctx):
    exe = build.driver("pd")
    L = []
    for i, c in enumerate(corpus(ctx, 4, directions=True)):
        L += [f"ep c{i}", bline(0, c), "homfly 0"]
    if not ctx.quick:
        for i, c in enumerate(ctx.rng.sample(corpus(ctx, 5, 5, directions=True), 6000)):
            L += [f"ep d{i}", bline(0, c), "homfly 0"]
    ctx.conform(exe, "PDHomflyTrace", L, "small")
    L = []
    for n, k in (((5, 100), (6, 100), (8, 60), (10, 20)) if ctx.quick else ((5, 400), (6, 400), (7, 300), (8, 300), (9, 200), (10, 150), (12, 60))):
        for j, c in enumerate(corpus_random(ctx, n, k)):
            L += [f"ep r{n}.{j}", bline(0, c), "homfly 0", "mirror 1 0", "homfly 1 mirror 0"]
            # moves that keep the link: all components reversed, loops and bigons removed
            L += [f"renumber 0 {j} {1 + j % 7}", "homfly 0 same 0"]
            L += ["simplify 0 0", "homfly 0 same 0", f"step 0 2 {j} {j // 3}", "homfly 0 same 0"]
    fams = [f"twist {n}" for n in range(1, 8)] + [f"torus 2 {q}" for q in range(2, 10)] + [f"chain {n}" for n in range(2, 6)] + [f"unknot {n}" for n in range(0, 7)] + ["wye 1 1 2", "wye 2 1 1"]
    for i, f in enumerate(fams):
        L += [f"ep f{i}", f"fam 0 {f}", "homfly 0", f"signs 0 {ctx.rng.getrandbits(24)}", "homfly 0"]
    ctx.conform(exe, "PDHomflyTrace", L, "random")
    # large diagrams: the three polynomials of the skein relation at one crossing
    L = []
    for n, k in (((5, 60), (7, 60), (9, 60), (12, 60), (16, 40), (24, 20)) if ctx.quick else ((5, 300), (7, 300), (9, 300), (12, 300), (16, 300), (20, 200), (24, 150), (32, 60))):
        L += skeins(ctx, corpus_random(ctx, n, k), 4 if n < 16 else 3)
    for i, (f, k) in enumerate((("torus 2 3", 7), ("torus 2 3", 16), ("torus 2 3", 18), ("torus 2 3", 20), ("twist 2", 14), ("twist 4", 4), ("chain 2", 9), ("chain 2", 20), ("torus 2 4", 5))):
        L += [f"ep w{i}", f"fam 0 {f}", f"power {k} 0 {1 + i % 4}"]
    ctx.conform(exe, "PDHomflyTrace", L, "skein")
    # connected sums of diagrams whose polynomial is known
    parts = [f for f in fams if f != "unknot 0"]
    L = []
    for i in range(24 if ctx.quick else 150):
        L += [f"ep s{i}", f"fam 0 {ctx.rng.choice(parts)}", "homfly 0"]
        for k in range(3 if ctx.quick else 4):
            L += [f"fam 1 {ctx.rng.choice(parts)}"]
            if ctx.rng.random() < .5: L += [f"signs 1 {ctx.rng.getrandbits(24)}"]
            L += ["homfly 1", f"consum 2 0 {ctx.rng.randrange(60)} 1 {ctx.rng.randrange(60)}", "homfly 2 prod 0 1", "copy 0 2", "homfly 0 same 2"]
        L += ["simplify 2 2", "homfly 2 same 2", "mirror 3 2", "homfly 3 mirror 2"]
    ctx.conform(exe, "PDHomflyTrace", L, "sums")

def table():
    """The knot table: (crossings, index, KnotTheory code)."""
    out = []
    for ln in open(os.path.join(build.VERIF, "data", "rolfsen.txt")):
        a, b, c = ln.strip().split(" ", 2)
        out.append((int(a), int(b), c.replace(" ", "%20")))
    return out

def p13(ctx):
    exe = build.driver("pd")
    tab = table()
    # every knot of the table up to 8 crossings (thorough: all), judged against the skein relation
    L = []
    use = [k for k in tab if k[0] <= 8] + ctx.rng.sample([k for k in tab if k[0] == 9], 12) + ctx.rng.sample([k for k in tab if k[0] == 10], 8) if ctx.quick else tab
    for i, (a, b, c) in enumerate(use):
        L += [f"ep k{a}_{b}", f"ktload 0 {c} {a} {b}", "homfly 0", "classify 0", "mirror 1 0", "homfly 1 mirror 0", "classify 1",
              f"renumber 0 0 {1 + i % 9}", "homfly 0 same 0", "classify 0", "reorient 0 0 0", "homfly 0 same 0", "classify 0"]
    ctx.conform(exe, "PDClassTrace", L, "table")
    # every knot diagram with up to 4 crossings; random ones; connected sums of table knots
    L = ["ep small"]
    for i, c in enumerate(corpus(ctx, 4)):
        L += [bline(0, c), "homfly 0", "classify1 0"]
        if i % 100 == 99: L += [f"ep small{i}"]
    for n, k in (((6, 60), (8, 40)) if ctx.quick else ((6, 300), (7, 300), (8, 300), (10, 100))):
        L += [f"ep r{n}"]
        for j, c in enumerate(corpus_random(ctx, n, k)):
            L += [bline(0, c), "homfly 0", "classify1 0", "simplify 0 0", "homfly 0 same 0", "classify1 0"]
    ctx.conform(exe, "PDClassTrace", L, "diagrams")
    L = []
    small = [k for k in tab if k[0] <= 6]
    for i in range(30 if ctx.quick else 200):
        a, b, d = ctx.rng.choice(small), ctx.rng.choice(small), ctx.rng.choice(small)
        L += [f"ep s{i}", f"ktload 0 {a[2]} {a[0]} {a[1]}", f"ktload 1 {b[2]} {b[0]} {b[1]}", "homfly 0", "homfly 1"]
        if i % 2: L += ["mirror 0 0", "homfly 0 free"]
        L += [f"consum 2 0 {ctx.rng.randrange(40)} 1 {ctx.rng.randrange(40)}", "homfly 2 prod 0 1", "classify 2"]
        if i % 3 == 0: L += [f"ktload 1 {d[2]} {d[0]} {d[1]}", "homfly 1", f"consum 3 2 {ctx.rng.randrange(40)} 1 {ctx.rng.randrange(40)}", "homfly 3 prod 2 1", "classify 3"]
    for i, f in enumerate([f"twist {n}" for n in range(1, 9)] + [f"torus 2 {q}" for q in (3, 5, 7, 9)] + [f"unknot {n}" for n in range(0, 9)] + ["wye 1 1 1", "wye 2 1 1", "wye 1 2 2"]):
        L += [f"ep f{i}", f"fam 0 {f}", "homfly 0", "classify 0", "renumber 0 0 1", "homfly 0 same 0", "classify 0"]
    ctx.conform(exe, "PDClassTrace", L, "sums")
    # knot types typed by a person
    L = []
    pool = [(3, 1), (4, 1), (5, 2), (6, 3), (7, 7), (10, 165), (0, 1), (11, 552), (13, 9988), (18, 48266466), (19, 294130458), (19, 1)]
    bad = [(3, 2), (4, 2), (10, 166), (20, 1), (-1, 1), (5, -2), (8, 22), (2, 1)]
    for i in range(120):
        k = ctx.rng.choice((1, 1, 2, 3, 9, 10, 11, 12))
        fs = [ctx.rng.choice(pool) for _ in range(k)]
        if i % 4 == 0: fs[ctx.rng.randrange(k)] = ctx.rng.choice(bad)
        L += [f"ep t{i}", "rkt %s %s" % ("#".join("%d_%d" % f for f in fs), " ".join("%d %d" % f for f in fs))]
    for i, t in enumerate(["x", "3", "3_", "#", "3_1#", "3_1#x", "##3_1", "_1", "3_1%20(x)", "3_1#%20", "3-1", "99999999999_1", "3_1" * 50]):
        L += [f"ep b{i}", "rkt " + t]
    ctx.conform(exe, "PDClassTrace", L, "typed")
