"""P14 curves -> diagrams."""
from fractions import Fraction
from .. import build

def ori(a, b, c): return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])

def bigpoly(rng, shape, g=60, z=10):
    """A large curve in general position: vertices are redrawn until nothing coincides."""
    v = [randpoly(rng, n, g, z) for n in shape]
    E = [(i, j) for i in range(len(v)) for j in range(len(v[i]))]
    end = lambda e: (v[e[0]][e[1]], v[e[0]][(e[1]+1) % len(v[e[0]])])
    par = lambda e, f: (e[0] == f[0] and (e[1]-f[1]) % len(v[e[0]]) in (1, len(v[e[0]])-1))
    def cross(e, f):          # None: apart; False: something coincides; else the places on e and f
        p, q = end(e); r, s = end(f)
        if par(e, f):
            a, b, c = (p, q, s) if q == r else (r, s, q)
            return None if ori(a, b, c) != 0 and q[:2] != p[:2] and r[:2] != s[:2] else False
        o = ori(p, q, r), ori(p, q, s), ori(r, s, p), ori(r, s, q)
        if o[0]*o[1] < 0 and o[2]*o[3] < 0:
            t, u = Fraction(o[2], o[2]-o[3]), Fraction(o[0], o[0]-o[1])
            return False if p[2] + t*(q[2]-p[2]) == r[2] + u*(s[2]-r[2]) else (t, u)
        return False if o[0]*o[1] <= 0 and o[2]*o[3] <= 0 else None
    at = {e: {} for e in E}
    def redo(e):
        for f in E:
            if f == e: continue
            c = cross(e, f)
            at[e].pop(f, None); at[f].pop(e, None)
            if c is not None: at[e][f] = c and c[0]; at[f][e] = c and c[1]
    for e in E: redo(e)
    def bad():
        for e in E:
            x = list(at[e].values())
            if False in x or len(set(x)) < len(x): return e
    while True:
        e = bad()
        if e is None: return v
        c = v[e[0]]; n = len(c); k = rng.choice((e[1], (e[1]+1) % n)); c[k] = (rng.randrange(g), rng.randrange(g), rng.randrange(z))
        redo((e[0], k)); redo((e[0], (k-1) % n))

def facts(v, room=Fraction(1, 8)):
    """(embedded with room to spare, general position, number of crossings, connected) -- used only to choose inputs."""
    E = [(i, j) for i in range(len(v)) for j in range(len(v[i]))]
    end = lambda e: (v[e[0]][e[1]], v[e[0]][(e[1]+1) % len(v[e[0]])])
    gen, emb, nx = True, True, 0
    par = list(range(len(v))); at = set()
    def find(x):
        while par[x] != x: x = par[x]
        return x
    for a in range(len(E)):
        for b in range(a+1, len(E)):
            e, f = E[a], E[b]
            adj = e[0] == f[0] and ((e[1]-f[1]) % len(v[e[0]]) in (1, len(v[e[0]])-1))
            if adj: continue
            p, q = end(e); r, s = end(f)
            o = ori(p, q, r), ori(p, q, s), ori(r, s, p), ori(r, s, q)
            if o[0]*o[1] < 0 and o[2]*o[3] < 0:
                t, u = Fraction(o[2], o[2]-o[3]), Fraction(o[0], o[0]-o[1])
                if abs(p[2] + t*(q[2]-p[2]) - r[2] - u*(s[2]-r[2])) <= room: emb = False
                for k in ((e, t), (f, u)):
                    if k in at: gen = False
                    at.add(k)
                nx += 1; par[find(e[0])] = find(f[0])
            elif o[0]*o[1] <= 0 and o[2]*o[3] <= 0: gen = False
    return emb, gen, nx, len({find(i) for i in range(len(v))}) == 1

def segdist(p, q, r, s):
    """Distance of two segments in space (choosing inputs only)."""
    sub = lambda a, b: [x-y for x, y in zip(a, b)]; dot = lambda a, b: sum(x*y for x, y in zip(a, b))
    def pt(x, a, b):
        d = sub(b, a); t = min(1, max(0, dot(sub(x, a), d) / dot(d, d))); y = [u + t*w for u, w in zip(a, d)]; e = sub(x, y); return dot(e, e)
    best = min(pt(p, r, s), pt(q, r, s), pt(r, p, q), pt(s, p, q))
    u, v, w = sub(q, p), sub(s, r), sub(p, r); a, b, c, d, e = dot(u, u), dot(u, v), dot(v, v), dot(u, w), dot(v, w); D = a*c - b*b
    if D > 1e-9:
        t, z = (b*e - c*d)/D, (a*e - b*d)/D
        if 0 <= t <= 1 and 0 <= z <= 1:
            g = [w[i] + t*u[i] - z*v[i] for i in range(3)]; best = min(best, dot(g, g))
    return best ** .5

def apart(v, m=.2):
    E = [(i, j) for i in range(len(v)) for j in range(len(v[i]))]
    for a in range(len(E)):
        for b in range(a+1, len(E)):
            e, f = E[a], E[b]; n = len(v[e[0]])
            if e[0] == f[0] and (e[1]-f[1]) % n in (1, n-1): continue
            if segdist(v[e[0]][e[1]], v[e[0]][(e[1]+1) % n], v[f[0]][f[1]], v[f[0]][(f[1]+1) % len(v[f[0]])]) < m: return False
    return True

def line(cmd, v, e2=0, r=0):
    return f"{cmd} {r} {e2} {len(v)} " + " ".join(f"{len(c)} " + " ".join("%d %d %d" % tuple(p) for p in c) for c in v)

def randpoly(rng, n, g, z):
    while True:
        c = [(rng.randrange(g), rng.randrange(g), rng.randrange(z)) for _ in range(n)]
        ok = all(c[i][:2] != c[(i+1) % n][:2] for i in range(n))
        ok = ok and all(ori(c[i], c[(i+1) % n], c[(i+2) % n]) != 0 for i in range(n))
        if ok: return c

def grid(X, O):
    """Arc presentation on n rows/columns: column i runs from row O[i] to row X[i] at height 1, rows at height 0."""
    n = len(X); byO = {O[i]: i for i in range(n)}; left, comps = set(range(n)), []
    while left:
        i0 = i = min(left); pts = []
        while i in left:
            left.discard(i)
            st = 1 if X[i] > O[i] else -1
            pts += [(i, r, 1) for r in range(O[i], X[i] + st, st)]
            j = byO[X[i]]; st = 1 if j > i else -1        # the row continues to the column that starts there
            pts += [(c, X[i], 0) for c in range(i, j + st, st)]
            i = j
        comps.append(pts)
    return comps

def torus_grid(p, q):
    n = p + q
    return grid([(i + p) % n for i in range(n)], list(range(n)))

def tilt(v, k, a, b): return [[(k*p[0]+a*p[2], k*p[1]+b*p[2], p[2]) for p in c] for c in v]

def linking(v):
    """Twice the linking number of the first two components (general position assumed)."""
    s = 0
    for i in range(len(v[0])):
        for j in range(len(v[1])):
            p, q = v[0][i], v[0][(i+1) % len(v[0])]; r, t = v[1][j], v[1][(j+1) % len(v[1])]
            o = ori(p, q, r), ori(p, q, t), ori(r, t, p), ori(r, t, q)
            if o[0]*o[1] < 0 and o[2]*o[3] < 0:
                za = p[2] + Fraction(o[2], o[2]-o[3])*(q[2]-p[2]); zb = r[2] + Fraction(o[0], o[0]-o[1])*(t[2]-r[2])
                c = (q[0]-p[0])*(t[1]-r[1]) - (q[1]-p[1])*(t[0]-r[0])
                s += 1 if (c > 0) == (za > zb) else -1
    return s

def bfacf(rng, comps, moves, box=7):
    """Random local lattice moves (they keep the link type); coordinates stay in a small box."""
    comps = [list(c) for c in comps]
    occ = {p for c in comps for p in c}
    U = [(1,0,0), (-1,0,0), (0,1,0), (0,-1,0), (0,0,1), (0,0,-1)]
    add = lambda p, q: (p[0]+q[0], p[1]+q[1], p[2]+q[2])
    done = 0
    for _ in range(moves * 20):
        if done >= moves: break
        c = rng.choice(comps); n = len(c); i = rng.randrange(n); d = rng.choice(U)
        p, q = c[i], c[(i+1) % n]
        e = tuple(b-a for a, b in zip(p, q))
        if d == e or tuple(-x for x in d) == e: continue
        a, b = add(p, d), add(q, d)
        pv, nx = c[i-1], c[(i+2) % n]
        if max(map(abs, a)) > box or max(map(abs, b)) > box: continue
        if a == pv and b == nx and n > 4:                 # shorten
            occ -= {p, q}; c[:] = [x for k, x in enumerate(c) if k not in (i, (i+1) % n)]
        elif a == pv and b not in occ:                    # corner flip
            occ.discard(p); occ.add(b); c[i] = b
        elif b == nx and a not in occ:
            occ.discard(q); occ.add(a); c[(i+1) % n] = a
        elif a not in occ and b not in occ and n < 44:    # lengthen
            k = i + 1; c[k:k] = [a, b]; occ |= {a, b}
        else: continue
        done += 1
    return comps

def usable(v, maxx=11):
    """Some fine tilt is in general position, not too large, and the components are forced to meet."""
    for a, b in ((1, 2), (-1, 3), (2, -3), (3, 1), (5, 7)):
        w = tilt(v, 12, a, b); emb, gen, nx, conn = facts(w)
        if gen and nx <= maxx: return len(v) == 1 or (len(v) == 2 and linking(w) != 0)
    return False

def p14(ctx):
    exe = build.driver("pd"); rng = ctx.rng
    r = ctx.model("PDProjMC", f"G = 6 Z = 5 MaxLen = 9 MaxN = 9", "Planar Directions", simulate=800 if ctx.quick else 6000, depth=10)
    # curves in general position: the diagram itself is determined
    L, k = [], 0
    want = 260 if ctx.quick else 3000
    while k < want:
        shape = rng.choice(([5], [6], [7], [8], [9], [11], [14], [4, 4], [3, 5], [5, 6], [3, 3, 4], [6, 6], [3, 4, 5], [3, 3, 3, 3]))
        g = rng.choice((4, 6, 9, 12)); v = [randpoly(rng, n, g, rng.choice((5, 9))) for n in shape]
        emb, gen, nx, conn = facts(v)
        if not (emb and gen and conn) or nx > 40 or (len(v) > 1 and nx == 0): continue
        k += 1
        L += [f"ep g{k}", line("curve", v, rng.choice((0, 0, 0, -4, 3, 6, -1)))]
        if nx <= 9 and k % 2: L += ["chomfly"] + (["cclassify"] if len(v) == 1 else [])
    ctx.conform(exe, "PDProjTrace", L, "general")
    # curves with projections full of coincidences: lattice curves
    L, k = [], 0
    want = 60 if ctx.quick else 700
    known = [(torus_grid(2, 3), (3, 1)), (torus_grid(2, 5), (5, 1)), ([[(0,0,0),(1,0,0),(1,1,0),(0,1,0)]], (0, 1))]
    while k < want:
        if k % 2:
            v, nm = rng.choice(known); v = bfacf(rng, v, rng.choice((0, 3, 20, 60)))
        else:
            n = rng.choice((3, 4, 5, 6)); X = list(range(n)); O = list(range(n)); rng.shuffle(X); rng.shuffle(O); nm = None
            if any(a == b for a, b in zip(X, O)): continue
            v = bfacf(rng, grid(X, O), rng.choice((0, 2, 15)))
        perm = rng.choice(((0, 1, 2), (1, 2, 0), (2, 0, 1))); v = [[tuple(p[i] for i in perm) for p in c] for c in v]
        if not usable(v): continue
        k += 1
        L += [f"ep l{k}", line("curve", v, rng.choice((0, 0, -2, 3))), "chomfly"]
        if len(v) == 1: L += ["cclassify" + (" %d %d" % nm if nm else "")]
    # three strands through one point of the projection, vertices on edges
    for j in range(40 if ctx.quick else 400):
        while True:
            v = [randpoly(rng, rng.choice((6, 7, 8)), rng.choice((3, 4)), 7)]
            emb, gen, nx, conn = facts(v)
            if apart(v): break
        L += [f"ep t{j}", line("curve", v)]
    ctx.conform(exe, "PDProjTrace", L, "special")
    # more crossings than any table starts with
    L, k = [], 0
    for shape in ([30], [96], [104], [50, 52], [140], [30, 40, 41]) if ctx.quick else ([30], [60], [96], [100], [104], [50, 52], [140], [30, 40, 41], [70, 70, 3], [180]):
        while True:
            v = bigpoly(rng, shape); emb, gen, nx, conn = facts(v, 0)
            if conn: break
        k += 1; L += [f"ep b{k}", line("bigcurve", v)]
    ctx.conform(exe, "PDProjTrace", L, "big")
