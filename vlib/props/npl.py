"""P34 curves of any dimension and their files, P35 vectors of any dimension."""
import json
from .. import build
from .plc import pct

def exe_():
    return build.driver("npl", extra_sources=tuple("src/" + s for s in build.npl_sources()))

def newc(rng, r, dim=None, nc=None, big=False):
    dim = dim or rng.choice([1, 2, 3, 4, 4, 5, 6, 9]); nc = nc or rng.choice([1, 2, 3, 4])
    sh = []
    for _ in range(nc):
        n = rng.randint(20, 60) if big else rng.choice([1, 2, 3, 3, 4, 5, 8])
        sh.append((n, rng.randint(0, 1), rng.choice([0, 0, 1, n, n + 2])))
    g = lambda: rng.randint(-12, 12)
    line = f"new {r} {dim} {nc} " + " ".join("%d %d %d" % s for s in sh) + " " + " ".join(str(g()) for s in sh for _ in range(s[0] * dim)) + " " + " ".join(str(rng.randint(0, 8)) for s in sh for _ in range(4 * s[2]))
    return line.strip(), dim, sh

def meas(rng, r, sh):
    q = []
    for c, s in enumerate(sh):
        for _ in range(4): q += [c, rng.randrange(s[0]), rng.randrange(s[0])]
    return f"meas {r} " + " ".join(map(str, q))

def text(rng, damage=None):
    dim = rng.choice([1, 2, 3, 3, 4, 5, 6]); nc = rng.randint(1, 3); nv = [rng.choice([1, 2, 3, 3, 4, 5]) for _ in range(nc)]
    sg = [rng.choice([1, -1]) for n in nv]; cc = [rng.choice([0, 0, 1, n]) for n in nv]
    com = lambda: " # " + rng.choice(["note", "a b c", "", "Component 0", "see 12 above", "# twice", "4VECT"]) if rng.random() < .3 else ""
    nl = lambda: rng.choice(["\n", "\n", "\n", " \n", "\n\n", "\r\n", "\n# note\n", "\n#\n"]); sep = lambda: rng.choice([" ", " ", "  ", "\t"])
    def num(v): return rng.choice(["%d", "%d", "%d", "%.3e", "%.2f", "%.0f."]) % v
    key = rng.choice(["", "3", " "]) + "VECT" if dim == 3 else rng.choice(["", "", " ", "+"]) + "%dVECT" % dim
    kn = rng.choice(["\n", " ", "\n\n", " # keyword\n"])
    out = [key + kn, sep().join(map(str, [nc, sum(nv), sum(cc)])) + com() + nl(), sep().join(str(a * b) for a, b in zip(sg, nv)) + com() + nl(), sep().join(map(str, cc)) + com() + nl()]
    for n in nv:
        for _ in range(n): out.append(sep().join(num(rng.randint(-30, 30)) for _ in range(dim)) + com() + nl())
    for c in cc:
        for _ in range(c): out.append(sep().join(num(rng.randint(0, 9)) for _ in range(4)) + com() + nl())
    t = "".join(out)
    if damage == "drop":
        i = rng.choice([i for i, ch in enumerate(t) if not ch.isspace()]); j = i
        while j < len(t) and not t[j].isspace(): j += 1
        t = t[:i] + t[j:]
    elif damage == "swap":
        i = rng.randrange(len(t)); t = t[:i] + rng.choice("09-.#x \nVe") + t[i + 1:]
    elif damage == "cut": t = t[:rng.randrange(len(t))]
    elif damage == "head":
        i = rng.randrange(1, 4); w = out[i].split("#")[0].split(); k = rng.randrange(len(w)); w[k] = rng.choice(["0", "-1", "-3", "x", "1000", "2.5", ""]); out[i] = " ".join(w) + "\n"; t = "".join(out)
    elif damage == "key": t = t.replace("VECT", rng.choice(["VEC", "VECTT", "vect", "", "OFF", "V ECT", " VECT", "SKEL", "4nVECT"]), 1) if rng.random() < .6 else rng.choice(["0", "-2", "# x\n", "7 ", "x"]) + t
    return t

def p34(ctx):
    exe = exe_(); rng = ctx.rng; Q = ctx.quick
    h = [json.loads(x) for x in ctx.model("NCurveMC", "Dims = {1, 2, 4} MaxC = 2 MaxV = %d Depth = %d" % ((4, 3) if Q else (5, 4)), "Law_Text Law_Reverse Law_Cut Law_Length Emit", prefix="HIST", **(dict(simulate=400, depth=5) if Q else dict(simulate=6000, depth=6)))]
    L = []
    for i in range(400 if Q else 6000):
        nw, dim, sh = newc(rng, 0); L += [f"ep h{i}", f"unit {rng.randrange(7)}", nw, meas(rng, 0, sh)]; cur = list(sh); r = 0
        for w in (rng.choice(h) if rng.random() < .8 else [[rng.choice(["rev", "copy", "wr"])] for _ in range(6)]):
            if w[0] == "rev": L += [f"rev {r}"]
            elif w[0] == "set":
                c = (w[1] - 1) % len(cur); j = rng.choice([0, cur[c][0] - 1, rng.randrange(cur[c][0])]); L += [f"set {r} {c} {j} " + " ".join(str(rng.randint(-12, 12)) for _ in range(dim))]
            else:
                s = rng.choice([x for x in range(4) if x != r]) if rng.random() < .8 else r
                if w[0] == "comp": c = rng.randrange(len(cur)); cur = [cur[c]]; L += [f"comp {s} {r} {c}"]
                else: L += [f"{w[0]} {s} {r}"]
                if s != r and rng.random() < .3: L += [f"free {r}"]
                r = s
            if rng.random() < .5: L.append(meas(rng, r, cur))
        L.append(meas(rng, r, cur)); L.append(f"free {r}")
    for i, (d, n) in enumerate([(40, 2), (100, 1), (7, 12), (300, 1)] if Q else [(40, 2), (100, 1), (7, 30), (300, 1), (500, 2)]):
        nw, dim, sh = newc(rng, 0, d, n, big=d < 10); L += [f"ep big{i}", f"unit {i + 1}", nw, "wr 1 0", "copy 2 1", "rev 2", "wr 3 2"]
        if d < 10: L.append(meas(rng, 3, sh))
    ctx.conform(exe, "NCurveTrace", L, "histories")
    L = []
    for i in range(400 if Q else 5000): L += [f"ep t{i}", "rd 0 " + pct(text(rng)), "wr 1 0"]
    for i in range(1200 if Q else 15000): L += [f"ep x{i}", "rd 0 " + pct(text(rng, rng.choice(["drop", "swap", "swap", "cut", "head", "head", "key"])))]
    for i in range(4 if Q else 30):
        nw, dim, sh = newc(rng, 0, rng.choice([2, 3, 4]), 2)
        for j, pos in enumerate(range(i % 7, 1000, 7)): L += [f"ep m{i}.{j}", nw] + [f"mut 1 0 {pos} {b}" for b in (0, rng.choice([ord(ch) for ch in "09-.#x \nVC"]))]
    ctx.conform(exe, "NCurveTrace", L, "files")

def p35(ctx):
    exe = exe_(); rng = ctx.rng; Q = ctx.quick
    ctx.model("NVectMC", "Dims = {1, 2, 3%s} Grid = {0, 1, 2}" % ("" if Q else ", 4"), "Law_Norm Law_Line Law_Part", **(dict(simulate=2000, depth=3) if Q else {}))
    L = []
    for i in range(1200 if Q else 20000):
        n = rng.choice([1, 2, 3, 4, 4, 5, 6, 8, 12]) if i % 60 else rng.choice([17, 33, 65, 101, 130, 260]); k = rng.choice([1, 2, 3]) if n < 13 else 1; v = [[rng.randint(-k, k) for _ in range(n)] for _ in range(2)]; m = rng.random()
        if m < .1: v[1] = list(v[0])
        elif m < .2: v[1] = [rng.choice([-1, 2]) * x for x in v[0]]
        elif m < .3: v[rng.randrange(2)] = [0] * n
        elif m < .5: v[1] = [x or 1 for x in v[1]]
        elif m < .6: v[1] = list(v[0]); v[1][rng.randrange(n)] += 1
        if i % 10 == 0: L.append(f"ep v{i}")
        L.append(f"vec {n} {rng.randint(-5, 5)} {rng.randint(-5, 5)} " + " ".join(str(x) for w in v for x in w))
    for i, n in enumerate([1, 2, 3, 4, 5, 7, 12, 30, 60]): L += [f"ep r{i}", f"rnd {n} {4000 if Q else 40000} {i + 1}"]
    ctx.conform(exe, "NCurveTrace", L, "vectors")
