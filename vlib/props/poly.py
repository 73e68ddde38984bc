"""P36 polynomials and their notations."""
from .. import build
from .plc import pct

def exe_():
    return build.driver("poly")

def poly(rng, n, lr, mr, cs):
    pw = [(l, m) for l in lr for m in mr]; n = max(1, min(n, len(pw)))
    return [(l, m, rng.choice(cs)) for l, m in rng.sample(pw, n)]

def s(p): return f"{len(p)} " + " ".join("%d %d %d" % t for t in p)

def lmtext(p, le, ri, be, ab):
    co = {(l, m): c for l, m, c in p}; M = [m for l, m, c in p] + [0]; out = ""
    for m in range(min(M) - be, max(M) + ab + 1):
        L = [x for x, y, c in p if y == m] + [0]
        row = " ".join(("[%d]" if x == 0 else "%d") % co.get((x, m), 0) for x in range(min(L) - le, max(L) + ri + 1))
        out += ("[%s]" % row if m == 0 else row) + "N"
    return out + " "

def p36(ctx):
    exe = exe_(); rng = ctx.rng; Q = ctx.quick
    ctx.model("LMPolyMC", "W = 1 Co = 2 MaxT = %d" % (3 if Q else 4), "Law_Poly Law_Read Law_Product", **(dict(simulate=300, depth=8) if Q else dict(simulate=8000, depth=9)))
    ones = [1, -1]; small = [1, -1, 1, -1, 2, -2, 3, -7, 10, -11, 100, 9999]; big = ones + [2**31 - 1, -2**31, 2**31, 2**40 + 1, -(2**62), 10**18, 5]
    def any_(coef=None, nmax=12):
        k = rng.random(); c = coef or rng.choice([ones, small, small, big]); n = rng.choice([1, 1, 2, 3, 4, 6, 9, nmax])
        span = lambda a, b, st=1: range(a, b + 1, st)
        if k < .25: return poly(rng, n, span(-3, 3), span(-3, 3), c)
        if k < .4: return poly(rng, n, span(-8, 8, 2), span(0, 8, 2), c)
        if k < .5: return poly(rng, n, span(-9, 9, 2), span(-1, 9, 2), c)
        if k < .6: return poly(rng, n, span(1, 6), span(1, 4), c)
        if k < .7: return poly(rng, n, span(-6, -1), span(-4, -1), c)
        if k < .78: return poly(rng, n, [0], span(-6, 12), c)
        if k < .86: return poly(rng, n, span(-12, 12), [rng.choice([-2, 0, 0, 3])], c)
        if k < .93: return poly(rng, n, [rng.randint(-5, 5)], span(-4, 5), c)
        return poly(rng, n, span(-40, 40), span(-9, 30), c)
    L = []
    for i in range(600 if Q else 8000): L += [f"ep f{i}", "forms " + s(any_())]
    for l in range(-2, 3):
        for m in range(-2, 3):
            for c in (1, -1, 3): L += [f"ep s{l}.{m}.{c}", f"forms 1 {l} {m} {c}"]
    for i in range(3 if Q else 20): L += [f"ep g{i}", "forms " + s(poly(rng, 400, range(-30, 31), range(-6, 20), small))]
    for i in range(500 if Q else 6000):
        p = any_(); pad = [rng.choice([0, 0, 0, 1, 2, 5]) for _ in range(4)]
        L += [f"ep t{i}", f"text {s(p)} {' '.join(map(str, pad))} {pct(lmtext(p, *pad))}"]
    ctx.conform(exe, "LMPolyTrace", L, "notations")
    L = []
    for i in range(900 if Q else 12000):
        k = rng.random(); a = any_(rng.choice([ones, ones, small, [1, -1, 10**9 + 7, -(10**9), 2**30]]), 16)
        if k < .15: b = list(a); rng.shuffle(b)
        elif k < .3: b = [(l, m, -c if rng.random() < .5 else c) for l, m, c in a]
        elif k < .4: b = list(a); j = rng.randrange(len(b)); t = b[j]; b[j] = (t[0], t[1], t[2] + (1 if t[2] + 1 else 2)); rng.shuffle(b)
        elif k < .5: b = [(l, -m, c) for l, m, c in a]
        elif k < .6: b = [(m, l, c) for l, m, c in a]
        else: b = any_(rng.choice([ones, small, [1, -1, 2**30, 3]]), 16)
        L += [f"ep p{i}", f"prod {s(a)} {s(b)}"]
    for i in range(3 if Q else 30): L += [f"ep q{i}", "prod " + s(poly(rng, 60, range(-12, 13, 2), range(-1, 14), small)) + " " + s(poly(rng, 40, range(-8, 9), range(0, 9, 2), small))]
    ctx.conform(exe, "LMPolyTrace", L, "products")
