"""C17: closed R-Z lines"""
import numpy as np
import shapely
from vf import fx, fxa, ints, call
from zoidberg.rzline import RZline, circle, shaped_line

MC = "MCRZLine"
TRACE = "TraceRZLine"
ASSUMPTIONS = ["points are distinct and enclose an area", "equal spacing of spline lines is judged on smooth curves with at least 30 points"]
TWO_PI = 2 * np.pi

def star(rng, n, big=40):
    """simple lattice polygon, random orientation and start"""
    while True:
        th = sorted(rng.uniform(0, 6.283) for _ in range(n))
        pts = [[round(rng.uniform(0.4, 1) * big * np.cos(t)), round(rng.uniform(0.4, 1) * big * np.sin(t))] for t in th]
        if len({tuple(p) for p in pts}) == n:
            pg = shapely.Polygon(pts)
            if pg.is_valid and pg.area > 1:
                k = rng.randrange(n)
                pts = pts[k:] + pts[:k]
                return pts[::-1] if rng.random() < 0.5 else pts

def scenarios(mc, rng, tier):
    scs = [dict(kind="pts", P=m["P"], anti=m["anti"], order=o) for m in (mc if tier != "quick" else rng.sample(mc, min(len(mc), 300))) for o in (1, None)]
    for _ in range(60 if tier == "quick" else 2000):
        n = rng.choice([3, 4, 5, 7, 12, 19, 20, 38])
        scs.append(dict(kind="pts", P=star(rng, n), anti=rng.random() < 0.7, order=rng.choice([1, None, 3])))
    for _ in range(60 if tier == "quick" else 1500):
        n = rng.choice([3, 4, 5, 8, 13, 19, 20, 38, 53])
        scs.append(dict(kind="equal1", P=star(rng, n), n=rng.choice([None, 3, 5, 16, 40])))
    for _ in range(40 if tier == "quick" else 1500):
        scs.append(dict(kind="smooth", n=rng.choice([30, 41, 64]), a=[rng.uniform(-0.06, 0.06) for _ in range(4)], el=rng.uniform(0.7, 1.5), m=rng.choice([None, 10, 25, 100]), wt=rng.choice([[2.0, 0.0, 0.0], [1.0, 0.5, rng.uniform(0, 6)]]), rev=rng.random() < 0.5, R0=rng.uniform(-3, 6), roll=rng.randrange(30)))
    for _ in range(60 if tier == "quick" else 2000):
        scs.append(dict(kind="closest", n=rng.choice([3, 4, 5, 12, 18, 19, 20, 37, 38, 53, 73]), seed=rng.randrange(10**6), first=rng.random() < 0.6))
    for _ in range(10):
        scs.append(dict(kind="shapes", R0=rng.randint(-3, 5), r=rng.randint(1, 4), n=rng.choice([4, 6, 20, 33])))
    return scs

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def pts_of(l):
    return [[a, b] for a, b in zip(ints(l.R), ints(l.Z))]

def do_pts(sc):
    P = np.array(sc["P"], float)
    r, z = P[:, 0].copy(), P[:, 1].copy()
    l = RZline(r, z, anticlockwise=sc["anti"], spline_order=sc["order"])
    n = len(r)
    L = pts_of(l)
    evs = [dict(ev="line", P=sc["P"], anti=sc["anti"], out=L, th=fxa(l.theta * n / TWO_PI, 1000), unchanged=bool(np.array_equal(r, P[:, 0]) and np.array_equal(z, P[:, 1])))]
    K = 8
    q = np.concatenate([np.arange(-3 * n, 3 * n + 1) * K, np.arange(-n * K, n * K + 1, 3), [1000 * n * K + 3, -1000 * n * K - 5]])
    # away from the corners by a little, so that rounding cannot move across one
    R, Z = l.positionPolygon(q * TWO_PI / n / K)
    evs.append(dict(ev="poly", L=L, K=K, q=ints(q), R=fxa(R * K, 1000), Z=fxa(Z * K, 1000)))
    R, Z = l.positionPolygon(float(q[5]) * TWO_PI / n / K)
    evs.append(dict(ev="poly", L=L, K=K, q=[int(q[5])], R=[fx(R * K, 1000)], Z=[fx(Z * K, 1000)]))
    R, Z = l.positionPolygon()
    evs.append(dict(ev="same", a=[ints(R), ints(Z)], b=[[p[0] for p in L], [p[1] for p in L]], what="polygon_default"))
    for m in (0, 1, -2, 7):
        R, Z = l.position(l.theta + m * TWO_PI)
        evs.append(dict(ev="spl", L=L, R=fxa(R, 1000), Z=fxa(Z, 1000)))
    R, Z = l.position()
    evs.append(dict(ev="spl", L=L, R=fxa(R, 1000), Z=fxa(Z, 1000)))
    t = np.array([0.1, 1.0, 2.5, 4.0, 6.2])
    for d in (0, 1):
        evs.append(dict(ev="same", a=[fxa(l.Rvalue(t, deriv=d), 1000), fxa(l.Zvalue(t, deriv=d), 1000)], b=[[x + (x == y + 1) - (x == y - 1) for x, y in zip(fxa(f(t - 3 * TWO_PI, deriv=d), 1000), fxa(f(t, deriv=d), 1000))] for f in (l.Rvalue, l.Zvalue)], what="spline_periodic"))
    if sc["order"] == 1:
        for w in (None, [1] * n, [2] * n, [1 + (i % 3) for i in range(n)]):
            d = l.distance(weights=None if w is None else np.array(w, float))
            evs.append(dict(ev="dist", L=L, d=fxa(d, 100), exact=True, w=w or [1] * n))
    else:
        evs.append(arcs(l, L))
    return evs

def arcs(l, L, wt=None):
    n = len(l.R)
    m = 400
    t = np.linspace(0, TWO_PI, n * m + 1)
    R, Z = l.position(t)
    w = np.ones(n * m) if wt is None else wt((t[1:] + t[:-1]) / 2)
    seg = (w * np.hypot(np.diff(R), np.diff(Z))).reshape(n, m).sum(axis=1)
    ch = np.hypot(np.roll(l.R, -1) - l.R, np.roll(l.Z, -1) - l.Z)
    d = l.distance() if wt is None else l.distance(weights=wt(l.theta))
    return dict(ev="dist", L=L, d=fxa(d, 1000), exact=False, chord=[int(c * 1000 * 0.98) if wt is None else 0 for c in ch], arc=fxa(seg, 1000), total=fx(seg.sum(), 1000))

def do_equal1(sc):
    """resampling a polygon"""
    P = np.array(sc["P"], float)
    l = RZline(P[:, 0], P[:, 1], spline_order=1)
    e = l.equallySpaced(sc["n"])
    n = sc["n"] or len(P)
    ring = shapely.LineString([*zip(l.R, l.Z), (l.R[0], l.Z[0])])
    al = [ring.project(shapely.Point(a, b), normalized=True) for a, b in zip(e.R, e.Z)]
    off = [ring.distance(shapely.Point(a, b)) for a, b in zip(e.R, e.Z)]
    # a resampled polygon may be so coarse that it turns the other way round: then it is reversed
    A = np.sum(e.R * np.roll(e.Z, -1) - np.roll(e.R, -1) * e.Z)
    same = bool(np.hypot(e.R[0] - l.R[0], e.Z[0] - l.Z[0]) < 1e-9)
    if not same and n <= 5:
        al, off = al[::-1], off[::-1]
        same = bool(np.hypot(e.R[-1] - l.R[0], e.Z[-1] - l.Z[0]) < 1e-9)
    return [dict(ev="equal", n=n, along=fxa(al, 100000), off=fxa(off, 1000000), tol=3, otol=3, start=same),
            dict(ev="same", a=bool(A > 0), b=True, what="resampled_anticlockwise")]

def do_smooth(sc):
    n = sc["n"]
    t = np.linspace(0, TWO_PI, n, endpoint=False)
    r = 1 + sum(a * np.cos((k + 2) * t + k) for k, a in enumerate(sc["a"]))
    R, Z = np.roll(sc["R0"] + r * np.cos(t), sc["roll"]), np.roll(sc["el"] * r * np.sin(t), sc["roll"])
    if sc["rev"]:
        R, Z = R[::-1], Z[::-1]
    l = RZline(R, Z)
    # with weights, which count some parts of the line more than others
    wt = lambda t: sc["wt"][0] + sc["wt"][1] * np.cos(t - sc["wt"][2])
    evs = [arcs(l, [[0, 0]] * n), arcs(l, [[0, 0]] * n, wt)]
    ew = l.equallySpaced(sc["m"], weights=wt(l.theta))
    e = l.equallySpaced(sc["m"])
    tt = np.linspace(0, TWO_PI, 20001)
    cr, cz = l.position(tt)
    ring = shapely.LineString(np.array([cr, cz]).T)
    al = [ring.project(shapely.Point(a, b), normalized=True) for a, b in zip(e.R, e.Z)]
    off = [ring.distance(shapely.Point(a, b)) for a, b in zip(e.R, e.Z)]
    full = np.concatenate([[0], np.cumsum(wt((tt[1:] + tt[:-1]) / 2) * np.hypot(np.diff(cr), np.diff(cz)))])
    plain = np.concatenate([[0], np.cumsum(np.hypot(np.diff(cr), np.diff(cz)))])
    alw = [np.interp(ring.project(shapely.Point(a, b)), plain, full / full[-1]) for a, b in zip(ew.R, ew.Z)]
    offw = [ring.distance(shapely.Point(a, b)) for a, b in zip(ew.R, ew.Z)]
    evs.append(dict(ev="equal", n=sc["m"] or n, along=fxa(alw, 100000), off=fxa(offw, 100000), tol=500, otol=50, start=bool(np.hypot(ew.R[0] - l.R[0], ew.Z[0] - l.Z[0]) < 1e-9)))
    evs.append(dict(ev="equal", n=sc["m"] or n, along=fxa(al, 100000), off=fxa(off, 100000), tol=300, otol=50, start=bool(np.hypot(e.R[0] - l.R[0], e.Z[0] - l.Z[0]) < 1e-9)))
    return evs

def do_closest(sc):
    rng = np.random.default_rng(sc["seed"])
    n = sc["n"]
    t = np.linspace(0, TWO_PI, n, endpoint=False)
    r = 1 + 0.05 * np.cos(3 * t) if n > 10 else 1 + 0 * t
    ph = 0.0 if sc["first"] else rng.uniform(0, 6)
    l = RZline(2 + r * np.cos(t + ph), r * np.sin(t + ph))
    ring = shapely.LineString([*zip(l.R, l.Z), (l.R[0], l.Z[0])])
    evs = []
    qs = [(2 + s * np.cos(a), s * np.sin(a)) for a, s in zip(rng.uniform(0, 6.3, 6), rng.uniform(0.9, 1.15, 6))]
    qs += [(l.R[k] + s * (l.R[k] - 2), l.Z[k] * (1 + s)) for k in (0, n - 1, int(rng.integers(n))) for s in (0.0, 0.2, -0.05)]
    qs += [(l.R[0], l.Z[0] + 1e-12), (l.R[0], l.Z[0] - 1e-12), (5.0, 7.0), (-4.0, 0.3)]
    for k, (a, b) in enumerate(qs):
        for kw in ({}, dict(niter=1), dict(niter=5, subdivide=10)):
            th = l.closestPoint(a, b, **kw)
            # own polygon evaluation
            pos = (th / TWO_PI * n) % n; i = int(pos); f = pos - i
            pr, pz = (1 - f) * l.R[i % n] + f * l.R[(i + 1) % n], (1 - f) * l.Z[i % n] + f * l.Z[(i + 1) % n]
            near = np.hypot(l.R - a, l.Z - b).min()
            best = ring.distance(shapely.Point(a, b))
            evs.append(dict(ev="closest", inrange=bool(0 <= th < TWO_PI), dist=fx(np.hypot(pr - a, pz - b), 100000), nearest=fx(near, 100000), best=fx(best, 100000), simple=bool(n > 10 and k < 6 and not kw), btol=10))
    return evs

def do_shapes(sc):
    """the ready-made lines"""
    R0, r, n = sc["R0"], sc["r"], sc["n"]
    l = circle(R0=R0, r=r, n=n)
    s = shaped_line(R0=R0, a=r, n=n)
    e = shaped_line(R0=R0, a=r, elong=0.5, triang=0.2, indent=0.1, n=n)
    t = np.linspace(0, TWO_PI, n, endpoint=False)
    want = [fxa(R0 + r * np.cos(t), 1000), fxa(r * np.sin(t), 1000)]
    A = 0.5 * np.sum(e.R * np.roll(e.Z, -1) - np.roll(e.R, -1) * e.Z)
    return [dict(ev="same", a=[fxa(x.R, 1000), fxa(x.Z, 1000)], b=want, what="circle") for x in (l, s)] + \
        [dict(ev="same", a=[fx(e.Z.max(), 1000) <= 1500 * r + 1, bool(A > 0), len(e.R)], b=[True, True, n], what="shaped_line")]
