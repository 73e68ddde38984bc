"""P04 text format, P05 KnotTheory format, P06 packed form."""
from .. import build
from .pd_core import corpus, corpus_random, bline, FAMS, giants

def p04(ctx):
    exe = build.driver("pd")
    small = corpus(ctx, 3, directions=True) + corpus(ctx, 2, signs="{2}")
    rng = ctx.rng
    L = []
    for i, c in enumerate(small):
        d = rng.choice(small)
        L += [f"ep t{i}", bline(0, c), f"rottags 0 {i} {i % 40}", f"setuid 0 {i * 7919}", bline(1, d), f"rottags 1 1 {i % 9}", "fam 2 unknot 0", f"rottags 2 0 {i % 50}",
              "txt 0 1", "txt 2 0 2 1", "rvar 0 h", "rvar 0 t", "rvar 0 g", "rvar 0 w", "rvar 0 p", "rvar 0 htwp", "rvar 1 gp",
              f"unsign 0 {rng.getrandbits(12)}", "txt 0 1 0", "rvar 0 hp", "rvar 0 w"]
    for n in ((5, 8, 13) if ctx.quick else (4, 5, 6, 7, 8, 10, 13, 17, 25)):
        for j, c in enumerate(corpus_random(ctx, n, 12 if ctx.quick else 60)):
            L += [f"ep l{n}.{j}", bline(0, c), f"rottags 0 {j} {j % 30}", f"setuid 0 {j}", "txt 0 0", "rvar 0 h", "rvar 0 twp", "rvar 0 p", f"unsign 0 {rng.getrandbits(24)}", "txt 0 0", "rvar 0 p"]
    for j, f in enumerate(FAMS + ["twist 60", "torus 2 101", "chain 26", "unknot 70"]):
        L += [f"ep f{j}", f"fam 0 {f}", f"rottags 0 {j} 0", "txt 0", "txt 0 0 0"] + ([] if f == "unknot 0" else ["rvar 0 hp", "rvar 0 w"])
    for j, g in enumerate(giants(ctx, most=260)):
        L += [f"ep g{j}"] + g + [f"rottags 0 {j} {j % 3}", f"setuid 0 {2 ** 31 - 1 - j}", "fam 1 twist 3", "txt 0 1 0", "rvar 0 hp", "rvar 0 w", f"unsign 0 {rng.getrandbits(24)}", "txt 1 0", "rvar 0 p"][:7 if "257" in g[0] else 20]
    ctx.conform(exe, "PDTrace", L, "roundtrip")
    # damaged files: every token x every kind of damage, on a spread of diagrams
    L = []
    kinds = [(0, 1), (0, 2), (0, -1), (1, 0), (2, 7), (3, 0), (4, 0), (5, 0), (5, 4), (5, 1000), (5, 99999), (6, 0)]
    pool = rng.sample(small, 10 if ctx.quick else 80) + corpus_random(ctx, 5, 2 if ctx.quick else 20)
    for i, c in enumerate(pool):
        ntok = 2 + 3 + 2 + 5 * c["n"] + 2 + 5 * 2 * c["n"] + 2 + 2 * c["n"] + 4 * 3 + 2 + 4 * (c["n"] + 2) + 8 * c["n"]
        for k in range(0, ntok):
            ks = kinds if not ctx.quick else rng.sample(kinds, 4)
            L += [f"ep m{i}.{k}", bline(0, c, "load")] + [f"mut 0 {k} {a} {b}" for a, b in ks]
    L += ["ep mz", "fam 0 unknot 0"] + [f"mut 0 {k} {a} {b}" for k in range(30) for a, b in kinds]
    texts = ["", "%20", "%0a%0a", "pd", "pd%0a", "pd%0anv%200%0a", "pd%0anv%200%0atag", "pd%0anv%200%0anc%201%0a1%20:%200%20tag%20B", "pd%0anv%201%0a", "nv%203", "xx%0anv%201", "pd%20abc%0anv%201%0a",
             "pd%20" + "A" * 31 + "%200%0anv%200%0atag%20A%0a", "pd%20" + "A" * 32 + "%200%0anv%200%0atag%20A%0a", "pd%20" + "A" * 40 + "%200%0anv%200%0atag%20A%0a", "pd%20A*%201%0anv%200%0atag%20A%0a",
             "pd%20" + "A" * 31 + "%0a", "pd%20" + "A" * 4200 + "%201%0anv%200%0atag%20A%0a", "pd%0anv%200%0anc%201%0a1%20:%200%20tag%20Z%0anf%202%0a1%20:%20+%200%0a1%20:%20-%200%0a"]
    for i, t in enumerate(texts):
        L += [f"ep x{i}", f"rtext 1 {t or '%20'}", f"rtext 0 {t or '%20'}"]
    ctx.conform(exe, "PDTrace", L, "damage")

def kt_text(rows):
    return "PD[" + ",%20".join("X[%d,%%20%d,%%20%d,%%20%d]" % tuple(r) for r in rows) + "]"

def p05(ctx):
    exe = build.driver("pd")
    small = corpus(ctx, 3, directions=True) + corpus(ctx, 4, 4, directions=False)
    L = []
    if ctx.quick: small = [c for c in small if c["n"] < 4] + ctx.rng.sample([c for c in small if c["n"] == 4], 250)
    for i, c in enumerate(small):
        L += [f"ep k{i}", bline(0, c), "kt 0", f"renumber 0 {i} {i // 3}", "kt 0", f"reorient 0 {i // 2} 0", "kt 0"]
    for n in ((5, 6, 9) if ctx.quick else (5, 6, 7, 8, 9, 10, 12, 15)):
        for j, c in enumerate(corpus_random(ctx, n, 40 if ctx.quick else 200)):
            L += [f"ep l{n}.{j}", bline(0, c), "kt 0", f"reorient 0 {j} 0", "kt 0"]
    for j, f in enumerate(f for f in FAMS if f != "unknot 0"):
        L += [f"ep f{j}", f"fam 0 {f}", "kt 0", f"reorient 0 {j} 0", f"renumber 0 0 {j}", "kt 0"]
    for j, g in enumerate(giants(ctx)):
        L += [f"ep g{j}"] + g + ["kt 0", f"reorient 0 {j} 0", f"renumber 0 {j + 3} {j * 11}", f"signs 0 {ctx.rng.getrandbits(24)}", "kt 0"]
    ctx.conform(exe, "PDTrace", L, "kt")
    # damaged texts: refused or read as some well-formed diagram
    tref = [[1, 4, 2, 5], [3, 6, 4, 1], [5, 2, 6, 3]]
    fig8 = [[4, 2, 5, 1], [8, 6, 1, 5], [6, 3, 7, 4], [2, 7, 3, 8]]
    hopf = [[4, 1, 3, 2], [2, 3, 1, 4]]
    L = []
    k = 0
    for base in (tref, fig8, hopf):
        for i in range(len(base)):
            for j in range(4):
                for v in (0, -1, 1, 2, 2 * len(base), 2 * len(base) + 1, 100000):
                    rows = [list(r) for r in base]; rows[i][j] = v
                    L += [f"ep d{k}", "ktread " + kt_text(rows)]; k += 1
            for j in range(3):
                rows = [list(r) for r in base]; rows[i][j], rows[i][j + 1] = rows[i][j + 1], rows[i][j]
                L += [f"ep d{k}", "ktread " + kt_text(rows)]; k += 1
            rows = base[:i] + base[i + 1:]
            if rows: L += [f"ep d{k}", "ktread " + kt_text(rows)]; k += 1
        t = kt_text(base).replace("%20", "")
        for cut in range(len(t)):
            L += [f"ep d{k}", "ktread " + (t[:cut] or "%20"), "ktread " + t[:cut] + t[cut + 1:]]; k += 1
    ctx.conform(exe, "PDTrace", L, "damaged")

def p06(ctx):
    exe = build.driver("pd")
    small = corpus(ctx, 3, directions=True) + corpus(ctx, 4, 4) + corpus(ctx, 4, signs="{2}")
    if ctx.quick: small = [c for c in small if c["n"] < 4] + ctx.rng.sample([c for c in small if c["n"] == 4], 200)
    L = []
    for i, c in enumerate(small):
        L += [f"ep p{i}", bline(0, c), "pack 0"]
    # every size across the changes of field width
    for n in range(1, 40 if ctx.quick else 131):
        L += [f"ep t{n}", f"fam 0 unknot {n}", "pack 0", f"signs 0 {ctx.rng.getrandbits(24)}", "pack 0", "signs 0 -1", "pack 0"]
        if n >= 2: L += [f"fam 0 torus 2 {n}", "pack 0", "signs 0 -1", f"renumber 0 0 {n // 2}", "pack 0"]
        if n >= 2 and n < 20: L += [f"fam 0 chain {n}", "pack 0"]
    for n in (63, 64, 65, 127, 128, 129, 200):
        L += [f"ep big{n}", f"fam 0 torus 2 {n}", "pack 0", "signs 0 -1", "pack 0"]
    for n in ((6, 11) if ctx.quick else (5, 6, 7, 8, 9, 11, 16, 17)):
        for j, c in enumerate(corpus_random(ctx, n, 30 if ctx.quick else 100)):
            L += [f"ep r{n}.{j}", bline(0, c), "pack 0", "signs 0 -1", "pack 0"]
    for j, g in enumerate(giants(ctx)):
        L += [f"ep g{j}"] + g + ["pack 0", f"reorient 0 {j} 0", f"signs 0 {ctx.rng.getrandbits(24)}", "pack 0", "signs 0 -1", "pack 0"]
    L += ["ep z", "fam 0 unknot 0", "rottags 0 0 0", "pack 0", "fam 0 unknot 1", "step 0 d 0 0", "pack 0"]
    ctx.conform(exe, "PDTrace", L, "pack")
