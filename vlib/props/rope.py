"""P25 struts, minimum radius, thickness, ropelength."""
from .. import build

def steps_ok(vt, closed):
    """no zero edges and no strand turning straight back"""
    n = len(vt); E = [tuple(b - a for a, b in zip(vt[i], vt[(i + 1) % n])) for i in range(n if closed else n - 1)]
    if any(e == (0, 0, 0) for e in E): return False
    for i in range(len(E) if closed else len(E) - 1):
        a, b = E[i], E[(i + 1) % len(E)]
        d = sum(x * y for x, y in zip(a, b)); c = sum(x * x for x in a) * sum(x * x for x in b)
        if d < 0 and d * d == c: return False
    return True

def strand(vt, closed): return f"{len(vt)} {0 if closed else 1} " + " ".join("%d %d %d" % v for v in vt)

def spread(rng, n, closed, box):
    while True:
        vt = [tuple(rng.randint(-box, box) for _ in range(3)) for _ in range(n)]
        if steps_ok(vt, closed): return strand(vt, closed)

def walk(rng, n, closed, box, step):
    """a long strand of short edges; closed ones go out and come back"""
    while True:
        vt = [tuple(rng.randint(-box // 2, box // 2) for _ in range(3))]; vel = [rng.choice([-1, 1]) for _ in range(3)]
        while len(vt) < n:
            if rng.random() < .3: vel[rng.randrange(3)] = rng.randint(-step, step)
            q = tuple(a + v + rng.choice([0, 0, 0, 1, -1]) for a, v in zip(vt[-1], vel))
            if max(map(abs, q)) > box: vel = [-(a > 0) + (a < 0) for a in vt[-1]]; continue
            if q != vt[-1]: vt.append(q)
        if closed:
            while max(abs(a - b) for a, b in zip(vt[-1], vt[0])) > step:
                vt.append(tuple(a + max(-step, min(step, b - a)) for a, b in zip(vt[-1], vt[0])))
        if len(vt) >= 3 and steps_ok(vt, closed): return strand(vt, closed)

AX = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
PY = [(2, 1, 2), (1, 2, 2), (-2, 2, 1), (0, 3, 4), (3, 0, -4), (0, 0, 2), (2, 3, 6), (0, 2, 0), (-1, 0, 0), (2, -1, -2), (-1, 2, -2)]
def integral(rng, n, closed, steps, box=12):
    while True:
        s = [rng.choice(steps) for _ in range(n)]
        if closed: s = s + [tuple(-a for a in x) for x in s]; rng.shuffle(s)
        vt = [tuple(rng.randint(-3, 3) for _ in range(3))]
        for x in (s[:-1] if closed else s): vt.append(tuple(a + b for a, b in zip(vt[-1], x)))
        if max(abs(a) for v in vt for a in v) <= box and (not closed or len(vt) >= 3) and steps_ok(vt, closed): return strand(vt, closed)

def p25(ctx):
    exe = build.driver("rope"); rng = ctx.rng; Q = ctx.quick
    ctx.model("RopeMC", "Side = 3 Size = 3", "Reversal Shortest Local", simulate=200 if Q else 4000, depth=8)
    ctx.model("RopeMC", "Side = 5 Size = 4", "Reversal Shortest Local", simulate=150 if Q else 4000, depth=10)
    L = []
    def asks():
        lv = rng.choice([0, 0, 0, 1, 2, 3, 5]); mem = rng.choice([0, 0, 100, 3000, 200000])
        yield f"struts 0 {rng.choice([0, .1, 1, 2.3, 50])} 400 {lv} {mem}"
        yield f"struts {rng.choice([.37, 1.3, 2.7, 5.21, 60])} 0 400 {lv} 0"
        yield f"struts {rng.choice([0, 0, 2.7, 60])} {rng.choice([.5, 3, 50])} {rng.choice([1, 2, 3, 5])} 0 0"
        yield f"struts {rng.choice([0, 3.3])} {rng.choice([0, 1.7])} 0 0 0"
    for i in range(260 if Q else 4000):
        nc = rng.choice([1, 1, 2, 2, 3]); cs = []
        for _ in range(nc):
            cl = rng.random() < .6; cs.append(spread(rng, rng.randint(3 if cl else 2, 7), cl, rng.choice([2, 3, 5])))
        L += [f"ep r{i}", f"curve {nc} " + " ".join(cs)] + list(asks())
    ctx.conform(exe, "RopeTrace", L, "small")
    L = []
    for i in range(24 if Q else 250):
        nc = rng.choice([1, 1, 2]); cs = [walk(rng, rng.randint(15, 60 if nc > 1 else 90), rng.random() < .6, rng.choice([5, 8, 11]), rng.choice([1, 2, 3])) for _ in range(nc)]
        L += [f"ep w{i}", f"curve {nc} " + " ".join(cs)]
        L += [f"struts 0 {rng.choice([0, .5, 2])} 9000 {rng.choice([0, 0, 1, 4, 7, 12])} {rng.choice([0, 100000])}", f"struts {rng.choice([1.3, 2.2, 3.3])} 0 9000 0 0",
              f"struts {rng.choice([0, 4.4])} 1 7 0 0", f"struts 40 0 9000 {rng.choice([0, 2])} 0"]
    ctx.conform(exe, "RopeTrace", L, "large")
    L = []
    for i in range(200 if Q else 3000):
        nc = rng.choice([1, 1, 2, 3]); cs = []
        for _ in range(nc):
            cl = rng.random() < .6; cs.append(integral(rng, rng.randint(2, 5), cl, rng.choice([AX, PY, AX + PY])))
        L += [f"ep i{i}", f"curve {nc} " + " ".join(cs)]
        L += [f"minrad 0 {rng.choice([0, .1, 1.3, 40])} {rng.choice([0, 100, 100, 1, 3])}", f"minrad {rng.choice([.41, 1.2, 7.7])} 0 {rng.choice([100, 2, 4])}"]
        if rng.random() < .5: L += [f"struts 0 {rng.choice([.3, 4])} 200 0 0", "file"]
        for _ in range(2):
            lam = rng.choice(["0 1", "1 1", "2 1", "1 2", "4 1", "1 4"]); c = rng.choice([0, 0, 0.0625, 1.7, 30]); mc = rng.choice([0, 0, .6, 30])
            L.append(f"all {lam} {mc} {rng.choice([0, .7, 20])} {rng.choice([0, 100, 2])} {c} {rng.choice([0, .7, 20])} {rng.choice([0, 200, 2])} {rng.choice([0, 0, 2])} {rng.choice([0, 5000])} {rng.choice([31, 31, 1, 2, 4, 8, 16, 3, 30])}")
    ctx.conform(exe, "RopeTrace", L, "thick")
    L = []
    for i in range(60 if Q else 600):
        cs = [spread(rng, 4, True, 3), spread(rng, 3, False, 3)]
        recs = [["0 1 2 0", "1 0 1 3", "0 0 0 2"][rng.randrange(3)] + " 0.5 0.25 1.5 0" for _ in range(2)]; mrs = ["0 2 1.25 0", "1 1 .5 2"]
        txt = "STRUTS \n2 2 \n" + "\n".join(recs + mrs) + "\n"
        L += [f"ep d{i}", "curve 2 " + " ".join(cs)]
        for _ in range(12):
            t = txt.split(" "); k = rng.randrange(len(t)); o = rng.randint(0, 4)
            if o == 0: t = t[:k]
            elif o == 1: t[k] = rng.choice(["-1", "7", "-2147483648", "1000001", "99999999999", "x", "3", "2", "-5", "#", "1e9", "nan"])
            elif o == 2: del t[k]
            elif o == 3: t.insert(k, rng.choice(["4", "-3", "#c", "z"]))
            else: t = ["".join(" ".join(t)[:rng.randrange(len(txt))])]
            s = " ".join(t)
            L.append("damaged " + "".join(c if c.isalnum() or c in ".-" else "%%%02x" % ord(c) for c in s) if s else "damaged %20")
    ctx.conform(exe, "RopeTrace", L, "files")
