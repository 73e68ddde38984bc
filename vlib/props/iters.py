"""P15 group iterators."""
from .. import build
def p15(ctx):
    exe = build.driver("iter"); rng = ctx.rng
    ctx.model("IterMC", 'Kinds = {"p"} Shapes <- ShapesP', "Distinct Valid Ordered Laws")
    ctx.model("IterMC", 'Kinds = {"d", "c", "o"} Shapes <- ShapesD', "Distinct Valid")
    L = []
    top = dict(p=6 if ctx.quick else 8, d=40, c=60, o=1)
    for k in "pdco":
        for n in range(1, top[k] + 1): L += [f"ep {k}{n}", f"new 0 {k} {n}", "cycle 0", "incr 0 5"]
    if ctx.quick: L += ["ep p7", "new 0 p 7", "incr 0 900"]
    # multi-indices
    for j in range(40 if ctx.quick else 250):
        k = rng.choice("pdco")
        while True:
            ns = [rng.randint(1, dict(p=4, d=6, c=8, o=3)[k]) for _ in range(rng.randint(1, 6))]
            tot = 1
            for n in ns: tot *= dict(p=[1, 1, 2, 6, 24][n] if n < 5 else 1, d=2 * n, c=n, o=2)[k]
            if tot <= (400 if ctx.quick else 3000): break
        L += [f"ep m{j}", f"multi 0 {k} " + " ".join(map(str, ns)), f"incr 0 {rng.randint(1, tot)}", "copy 1 0", "cmp 0 1", "incr 0 1", "cmp 0 1", "cmp 1 0", "uniq m 0 1", "incr 1 1", "uniq m 0 1", "cmp 0 1",
              f"multi 2 {k} " + " ".join(map(str, ns)), "cycle 2", "cmp 2 1", "uniq m 2 1 0"]
    ctx.conform(exe, "IterTrace", L, "rounds")
    # histories of group operations, comparison and copying
    L = []
    for j in range(150 if ctx.quick else 1500):
        k = rng.choice("ppppdco"); n = rng.choice((1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 12)) if k == "p" else rng.randint(1, 12)
        L += [f"ep h{j}"] + [f"new {i} {k} {n}" for i in range(4)]
        for i in range(4): L += [f"incr {i} {rng.randrange(1, 40)}"]
        for _ in range(30):
            a, b, c = (rng.randrange(4) for _ in range(3))
            op = rng.choice(("copy", "cmp", "incr", "uniq", "print") + (("comp", "inv", "star", "period", "comp", "star", "inv") if k == "p" else ()))
            if op == "copy" and a == b: continue
            L += [dict(copy=f"copy {a} {b}", cmp=f"cmp {a} {b}", incr=f"incr {a} {rng.randrange(1, 9)}", uniq=f"uniq {k} 0 1 2 3", print=f"print {a}",
                       comp=f"comp {a} {b} {c}", inv=f"inv {a} {b}", star=f"star {a} {b}", period=f"period {a}")[op]]
    for n in (20, 40, 70, 88, 89, 90, 100, 101, 120, 200):
        L += [f"ep big{n}"]
        for k in "pdc": L += [f"new 0 {k} {n}", "print 0", "incr 0 30" if k != "p" else "period 0", "print 0"]
    # (more elements than factorials fit: no counting of values there)
    ctx.conform(exe, "IterTrace", L, "histories")
