"""C18: ordering clouds of points"""
import itertools
import numpy as np
from vf import call
from zoidberg import rzline
import zoidberg.rzline as rz

MC = "MCOrder"
TRACE = "TraceRZLine"
ASSUMPTIONS = ["points in general position (no three collinear)", "alphashape is not installed, so its routine is not exercised"]
ROUT = ["fast", "hull", "two_opt", "nn", "poly"]

def scenarios(mc, rng, tier):
    scs = []
    perms = sorted({tuple(m["perm"]) for m in mc})
    for p in perms:
        scs.append(dict(kind="convex", perm=list(p), n=len(p), el=1.15, ph=0.3, uneven=0.07, rout=ROUT))
    for _ in range(60 if tier == "quick" else 2000):
        n = rng.choice([6, 7, 8, 10, 13, 20, 21, 30])
        p = list(range(1, n + 1)); rng.shuffle(p)
        rout = ["fast", "hull"] + (["nn"] if n <= 20 else []) + ["poly"] + (["two_opt"] if n <= 13 else [])
        scs.append(dict(kind="convex", perm=p, n=n, el=rng.uniform(0.6, 1.7), ph=rng.uniform(0, 6), uneven=rng.choice([0.03, 0.1, 0.35]), rout=rout))
    for _ in range(80 if tier == "quick" else 2000):
        n = rng.choice([4, 5, 6, 8, 12])
        scs.append(dict(kind="cloud", n=n, seed=rng.randrange(10**6), rout=ROUT if n <= 8 else ["fast", "hull", "nn", "poly"]))
    # points on a lattice: many at the same angle or distance, or in a row
    for _ in range(60 if tier == "quick" else 2000):
        n = rng.choice([4, 5, 6, 8])
        pts = [(i, j) for i in range(4) for j in range(4)]
        rng.shuffle(pts)
        pts = pts[:n]
        if any((pts[1][0] - pts[0][0]) * (c[1] - pts[0][1]) != (pts[1][1] - pts[0][1]) * (c[0] - pts[0][0]) for c in pts[2:]):
            scs.append(dict(kind="lattice", pts=pts, rout=["fast", "hull", "two_opt"]))
    for _ in range(60 if tier == "quick" else 2000):
        scs.append(dict(kind="greedy", n=rng.choice([4, 5, 6, 7, 9, 12]), seed=rng.randrange(10**6), so=rng.choice([None, None, 1, 2])))
    # rotated lists of an anticlockwise circle, one point extra next to the first: insertion at the seam
    for n in (18, 19, 20, 37, 38, 53):
        for k in range(3):
            scs.append(dict(kind="seam", n=n, k=k, tail=rng.randint(0, 2)))
    return scs

def run(name, r, z, **kw):
    f = dict(fast=rz.line_from_points_fast, hull=rz.line_from_points_convex_hull, two_opt=rz.line_from_points_two_opt, nn=rz.line_from_points, poly=rz.line_from_points_poly)[name]
    return f(r, z, **kw)

def judge(name, r, z, ids, ordered, **kw):
    r0, z0 = r.copy(), z.copy()
    l, exc = call(run, name, r, z, **kw)
    e = dict(ev="order", exc=exc, m=len(r), what=name, ordered=ordered, res=[], area=0, unchanged=bool(np.array_equal(r, r0) and np.array_equal(z, z0)))
    if exc == "none":
        num = {(a, b): i for a, b, i in zip(r0, z0, ids)}
        e["res"] = [num.get((a, b), 0) for a, b in zip(l.R, l.Z)]
        A = np.sum(l.R * np.roll(l.Z, -1) - np.roll(l.R, -1) * l.Z)
        e["area"] = 1 if A > 0 else -1
    return e

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def do_convex(sc):
    n = sc["n"]
    k = np.arange(n)
    th = (k + sc["uneven"] * np.sin(2.7 * k)) * 2 * np.pi / n + sc["ph"]
    R, Z = 3 + np.cos(th), sc["el"] * np.sin(th)
    ix = np.array(sc["perm"]) - 1
    evs = []
    for name in sc["rout"]:
        # nearest neighbours follow the curve only when the points are roughly evenly spaced
        d = np.hypot(np.roll(R, -1) - R, np.roll(Z, -1) - Z)
        ordered = name in ("fast", "hull", "two_opt") or (name == "nn" and d.max() < 1.3 * d.min())
        evs.append(judge(name, R[ix].copy(), Z[ix].copy(), sc["perm"], ordered))
    # a list already in order can be taken as it is
    l = rz.line_from_points(R, Z, is_sorted=True)
    evs.append(dict(ev="same", a=bool(np.array_equal(l.R, R) and np.array_equal(l.Z, Z)), b=True, what="is_sorted"))
    return evs

def do_cloud(sc):
    rng = np.random.default_rng(sc["seed"])
    n = sc["n"]
    R, Z = rng.uniform(1, 3, n), rng.uniform(-1, 1, n)
    evs = []
    for name in sc["rout"]:
        for kw in ({},) if name in ("hull",) else ({}, dict(spline_order=1)):
            if name == "two_opt" and kw:
                continue
            evs.append(judge(name, R.copy(), Z.copy(), list(range(1, n + 1)), False, **kw))
    return evs

def do_seam(sc):
    n = sc["n"]
    th = np.arange(n) * 2 * np.pi / n
    R, Z = np.cos(th), np.sin(th)
    ex = [(1.5, 0.0), (1.2, 1e-9), (0.9, -1e-9)][sc["k"]]
    R, Z = np.append(R, ex[0]), np.append(Z, ex[1])
    for j in range(sc["tail"]):
        R, Z = np.append(R, 3.0 + j), np.append(Z, 0.2 * j)
    return [judge("poly", R, Z, list(range(1, len(R) + 1)), False)]

def do_lattice(sc):
    P = np.array(sc["pts"], float)
    return [judge(name, P[:, 0].copy(), P[:, 1].copy(), list(range(1, len(P) + 1)), False) for name in sc["rout"]]

def do_greedy(sc):
    rng = np.random.default_rng(sc["seed"])
    n = sc["n"]
    P = rng.integers(0, 9000, (n, 2))
    d2 = ((P[:, None] - P[None]) ** 2).sum(-1)
    if len(set(d2[np.triu_indices(n, 1)].tolist())) < n * (n - 1) // 2:
        return []
    tours = []
    for s in range(n):
        t = [s]
        while len(t) < n:
            t.append(min((j for j in range(n) if j not in t), key=lambda j: d2[t[-1], j]))
        tours.append(t)
    R, Z = P[:, 0] / 1000, P[:, 1] / 1000
    ln = lambda l: int(np.floor(l.distance()[-1] * 1000))
    lens = [ln(rz.RZline(R[t], Z[t], spline_order=sc["so"])) for t in tours]
    l, exc = call(rz.line_from_points, R, Z, spline_order=sc["so"])
    evs = [dict(ev="greedy", exc=exc, pts=P.tolist(), tours=[[i + 1 for i in t] for t in tours], lens=lens, got=ln(l) if exc == "none" else 0)]
    per = lambda l: int(np.hypot(np.roll(l.R, -1) - l.R, np.roll(l.Z, -1) - l.Z).sum() * 1000)
    if n <= 9:
        evs.append(dict(ev="shorter", a=per(rz.line_from_points_two_opt(R, Z)), b=per(rz.line_from_points_fast(R, Z)), what="two_opt_no_longer_than_by_angle"))
    return evs
