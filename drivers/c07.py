"""C07: boundary objects (zoidberg/boundary.py)"""
import math
import numpy as np
from zoidberg.boundary import NoBoundary, PolygonBoundaryXZ, RectangularBoundaryXZ

MC = "MCRegion"
TRACE = "TraceRegion"
ASSUMPTIONS = ["polygons are simple; points exactly on the polygon are not judged", "coordinates are exactly representable"]
SCALES = [1.0, 0.5, 2.0**-22, 256.0]
OFFS = [(0.0, 0.0), (3.0, -5.0), (-64.0, 16.0)]

def star(rng):
    n = rng.randint(4, 14)
    dirs = set()
    while len(dirs) < n:
        a, b = rng.randint(-6, 6), rng.randint(-6, 6)
        if math.gcd(a, b) == 1:
            dirs.add((a, b))
    d = sorted(dirs, key=lambda v: math.atan2(v[1], v[0]))
    ang = [math.atan2(v[1], v[0]) for v in d]
    gaps = [(ang[(i + 1) % n] - ang[i]) % (2 * math.pi) for i in range(n)]
    if max(gaps) >= math.pi - 1e-6:
        return star(rng)
    return [[v[0] * m, v[1] * m] for v in d for m in [rng.randint(1, 3)]]

def comb(rng):
    """rectilinear histogram polygon: many vertical edges, concave"""
    n = rng.randint(2, 6)
    x, top, bot, hs = 0, [], [], None
    for _ in range(n):
        w, h = rng.randint(1, 4), rng.randint(1, 7)
        if h == hs:
            h += 1
        top += [[x, h], [x + w, h]]; x += w; hs = h
    return [[0, 0]] + top + [[x, 0]]

def scenarios(mc, rng, tier):
    scs = []
    seen = [c["P"] for c in mc]
    want = 900 if tier == "quick" else 20000
    if len(seen) > want:
        seen = rng.sample(seen, want)
    for P in seen:
        scs.append(dict(kind="poly", P=[list(p) for p in P], dense=1))
    for _ in range(120 if tier == "quick" else 2000):
        P = star(rng) if rng.random() < 0.5 else comb(rng)
        if rng.random() < 0.5:
            P = P[::-1]
        k = rng.randrange(len(P)); P = P[k:] + P[:k]
        scs.append(dict(kind="poly", P=[[2 * p[0], 2 * p[1]] for p in P], dense=0))
    for sc in scs:
        sc["scale"] = rng.choice(SCALES); sc["off"] = rng.choice(OFFS) if sc["scale"] != SCALES[2] else (0.0, 0.0)
        sc["dup"] = rng.random() < 0.25; sc["aslist"] = rng.random() < 0.3; sc["seed"] = rng.randrange(10**6)
        sc["dt"] = "i" if sc["scale"] in (1.0, 256.0) and rng.random() < 0.2 else "f"
    for _ in range(60):
        b = sorted(rng.sample(range(-8, 9), 2)) + sorted(rng.sample(range(-8, 9), 2))
        scs.append(dict(kind="rect", b=b, scale=rng.choice(SCALES), off=(0.0, 0.0), seed=rng.randrange(10**6)))
    scs.append(dict(kind="none"))
    return scs

def b01(v, k):
    v = np.asarray(v).reshape(-1)
    if k >= len(v) or v.dtype != bool:
        return -1
    return int(v[k])

def shapes(rng, n):
    divs = [d for d in range(1, n + 1) if n % d == 0]
    d = int(rng.choice(divs))
    return [(n,), (d, n // d), (n // d, 1, d)][int(rng.integers(3))]

def execute(sc):
    if sc["kind"] == "none":
        evs = []
        for shp in [(3,), (2, 2), ()]:
            x = np.full(shp, 1e6) if shp else np.float64(3.0)
            r = NoBoundary().outside(x, 0.0, x)
            evs.append(dict(ev="none", out=[b01(r, k) for k in range(max(1, np.size(x)))], shape=list(np.shape(r)), qshape=list(shp)))
        return evs
    rng = np.random.default_rng(sc["seed"])
    s, (ox, oz) = sc["scale"], sc["off"]
    if sc["kind"] == "rect":
        b = sc["b"]
        qs = [[x, z] for x in range(-9, 10, 1) for z in (b[2] - 1, b[2], b[2] + 1, b[3] - 1, b[3], b[3] + 1)] + [[x, z] for z in range(-9, 10) for x in b[:2]]
        bd = RectangularBoundaryXZ(b[0] * s, b[1] * s, b[2] * s, b[3] * s)
    else:
        P = sc["P"]
        if sc["dense"]:
            qs = [[x, z] for x in range(-1, 8) for z in range(-1, 6)]
        else:
            xs = sorted({p[0] for p in P}); zs = sorted({p[1] for p in P})
            qs = [[int(rng.choice(xs) + rng.integers(-1, 2)), int(rng.choice(zs) + rng.integers(-1, 2))] for _ in range(40)] \
               + [[int(rng.integers(xs[0] - 3, xs[-1] + 4)), int(rng.integers(zs[0] - 3, zs[-1] + 4))] for _ in range(40)]
        V = P + [P[0]] if sc["dup"] else P
        tp = (lambda a: (np.array(a) * int(s)).tolist() if sc["aslist"] else np.array(a) * int(s)) if sc["dt"] == "i" and ox == 0 \
            else (lambda a: list(map(float, a)) if sc["aslist"] else np.array(a, dtype=float))
        if sc["dt"] == "i" and ox == 0:
            xv, zv = tp([p[0] for p in V]), tp([p[1] for p in V])
        else:
            xv, zv = tp([p[0] * s + ox for p in V]), tp([p[1] * s + oz for p in V])
        bd = PolygonBoundaryXZ(xv, zv)
    X = np.array([q[0] for q in qs], dtype=float) * s + ox
    Z = np.array([q[1] for q in qs], dtype=float) * s + oz
    if sc.get("dt") == "i" and ox == 0:
        X, Z = X.astype(int), Z.astype(int)
    shp = shapes(rng, len(qs))
    x, z = X.reshape(shp), Z.reshape(shp)
    x0, z0 = x.copy(), z.copy()
    r = bd.outside(x, float(rng.integers(-3, 3)), z)
    out = [b01(r, k) for k in range(len(qs))]
    kept = bool(np.array_equal(x, x0) and np.array_equal(z, z0))
    single = [b01(bd.outside(X[k:k + 1], 0.0, Z[k:k + 1]), 0) for k in range(len(qs))]
    ev = dict(ev=sc["kind"], qs=qs, out=out, shape=list(np.shape(r)), qshape=list(shp), single=single, kept=kept)
    if sc["kind"] == "rect":
        ev["b"] = sc["b"]
        return [ev]
    perm = rng.permutation(len(qs))
    shp2 = shapes(rng, len(qs))
    r2 = np.asarray(bd.outside(X[perm].reshape(shp2), 1.5, Z[perm].reshape(shp2)))
    other = [-1] * len(qs)
    for j, k in enumerate(perm):
        other[int(k)] = b01(r2, j)
    ev.update(P=V, other=other, oshape=list(r2.shape), osq=list(shp2))
    return [ev]
