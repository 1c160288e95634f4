"""C22: smoothing of closed curves"""
import numpy as np
from vf import fx, fxa, call
from zoidberg.smooth import smooth

MC = ["MCSmooth", "MCCurves"]
TRACE = "TraceSmooth"
ASSUMPTIONS = ["curves with more than four times as many points as the search range", "a curve that cannot be smoothed may be given up on (None) or refused (ValueError); which one must not depend on the start"]
D = {"E": (1, 0), "N": (0, 1), "W": (-1, 0), "S": (0, -1), "NE": (1, 1), "NW": (-1, 1), "SW": (-1, -1), "SE": (1, -1)}

def curve(mv):
    p, pts = [0, 0], []
    for d, k in mv:
        for _ in range(k):
            pts.append(tuple(p)); p = [p[0] + D[d][0], p[1] + D[d][1]]
    return np.array(pts, float)

def scenarios(mc, rng, tier):
    cs = [m for m in mc if "mv" in m and sum(k for _, k in m["mv"]) > 4 * m["find"]]
    clean = [m for m in cs if m["clean"]]
    n = (150, 60) if tier == "quick" else (2500, 800)
    scs = []
    for m in rng.sample(clean, min(n[0], len(clean))) + rng.sample(cs, min(n[1], len(cs))):
        L = sum(k for _, k in m["mv"])
        v = [0]
        for _, k in m["mv"]:
            v.append(v[-1] + k)
        # start at a vertex, next to one, or anywhere
        s = (rng.choice(v) + rng.choice([0, 0, 1, -1, 2, m["b"], -m["b"]])) % L if rng.random() < 0.7 else rng.randrange(L)
        scs.append(dict(kind="lat", mv=m["mv"], b=m["b"], find=m["find"], cut=m["cut"], clean=m["clean"], s=s, s2=rng.randrange(L), scale=rng.choice([1.0, 0.1, 0.02]), r0=rng.uniform(1, 6), ints=rng.random() < 0.1, dflt=rng.random() < 0.5))
    for _ in range(60 if tier == "quick" else 1500):
        scs.append(dict(kind="free", n=rng.choice([40, 60, 97, 128]), b=rng.choice([3, 5, 7, 10]), find=rng.choice([None, 2, 4]), cut=rng.choice([0.75, 0.75, 0.5, 0.9]), seed=rng.randrange(10**6), s=rng.randrange(40), noise=rng.choice([0.0, 0.0, 0.02, 0.1])))
    return scs

def run(r, z, sc, b, find, cut):
    return call(smooth, r, z, cutoff=cut, bounds=b, bounds_find=find)

def flat(res, exc, s, n):
    """rotated back to the start s"""
    if exc != "none" or res is None:
        return []
    return fxa(np.concatenate([np.roll(np.asarray(res[0], float), s), np.roll(np.asarray(res[1], float), s)]), 1e6)

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def do_lat(sc):
    base = curve(sc["mv"]); n = len(base); h = sc["scale"]
    find = None if sc["dflt"] and sc["find"] == sc["b"] else sc["find"]
    outs = []
    for s in (sc["s"], sc["s2"]):
        c = np.roll(base, -s, axis=0)
        r, z = h * c[:, 0] + sc["r0"], h * c[:, 1] - 0.3
        outs.append((s, r, z) + tuple(run(r.copy(), z.copy(), sc, sc["b"], find, sc["cut"] / 100.0)))
    s, r, z, res, exc = outs[0]
    ev = dict(ev="smooth", mv=sc["mv"], s=s, b=sc["b"], find=sc["find"], cut=sc["cut"], clean=sc["clean"], exc=exc, gaveup=exc == "none" and res is None, n=0, moved=[], same=[])
    if exc == "none" and res is not None:
        R, Z = np.asarray(res[0]), np.asarray(res[1])
        ev["n"] = int(len(R)) if len(R) == len(Z) else -1
        if ev["n"] == n:
            ev["moved"] = fxa(np.hypot(R - r, Z - z) / h, 1000)
            ev["same"] = [bool(a) for a in (R == r) & (Z == z)]
    o = outs[1]
    return [ev, dict(ev="shift", exc1=exc, exc2=o[4], gu1=ev["gaveup"], gu2=o[4] == "none" and o[3] is None, a=flat(res, exc, s, n), c=flat(o[3], o[4], o[0], n))]

def do_free(sc):
    rng = np.random.default_rng(sc["seed"])
    n = sc["n"]
    t = np.sort(rng.uniform(0, 2 * np.pi, n)) if sc["noise"] else np.linspace(0, 2 * np.pi, n, endpoint=False)
    k = rng.integers(2, 5)
    rad = 1 + 0.35 * np.abs(np.sin(0.5 * k * t)) * rng.uniform(0, 1.5)
    r, z = 4 + rad * np.cos(t), rad * np.sin(t)
    r = r + sc["noise"] * rng.normal(size=n) * 0.3
    r0, z0 = r.copy(), z.copy()
    res, exc = run(r, z, sc, sc["b"], sc["find"], sc["cut"])
    kept = bool(np.all(r == r0) and np.all(z == z0))
    gu = exc == "none" and res is None
    ok = exc == "none" and not gu
    evs = [dict(ev="free", exc=exc, gaveup=gu, n=n, len=int(len(res[0])) if ok else 0, finite=bool(ok and np.all(np.isfinite(res[0])) and np.all(np.isfinite(res[1]))), inputkept=kept)]
    s = sc["s"]
    res2, exc2 = run(np.roll(r0, -s), np.roll(z0, -s), sc, sc["b"], sc["find"], sc["cut"])
    evs.append(dict(ev="shift", exc1=exc, exc2=exc2, gu1=gu, gu2=exc2 == "none" and res2 is None, a=flat(res, exc, 0, n), c=flat(res2, exc2, s, n)))
    return evs
