"""C08: index <-> coordinate conversion of poloidal grids"""
import numpy as np
from vf import fx, fxa, call
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid

MC = "MCCoord"
TRACE = "TraceCoord"
ASSUMPTIONS = ["annuli have moderately elongated cells; positions are multiples of a quarter cell",
               "positions exactly on the half-cell line of an annulus are not judged"]
S = 10000
RC = 4000.0

def build(g):
    if g["kind"] == "rect":
        nx, nz, dx, dz = g["nx"], g["nz"], g["dx"], g["dz"]
        m = g.get("mxg", 2 if nx > 4 else 1)
        return RectangularPoloidalGrid(nx, nz, float(dx * (nx - 2 * m)), float(dz * nz), g["x0"] + dx * (nx - 1) / 2.0, g["z0"] + dz * (nz - 1) / 2.0, MXG=m)
    i, k = np.meshgrid(np.arange(g["nx"]), np.arange(g["nz"]), indexing="ij")
    return StructuredPoloidalGrid(*to_rz(g, 4 * i, 4 * k))

def to_rz(g, xq, zq):
    xq, zq = np.asarray(xq, dtype=float), np.asarray(zq, dtype=float)
    if g["kind"] == "rect":
        return g["x0"] + xq * g["dx"] / 4, g["z0"] + zq * g["dz"] / 4
    r = g["x0"] + xq * g["dx"] / 4
    th = g["z0"] * 0.1 + zq * 2 * np.pi / (4 * g["nz"])
    return RC + r * np.cos(th), r * np.sin(th)

def from_rz(g, R, Z):
    if g["kind"] == "rect":
        return np.asarray(R), np.asarray(Z)
    R = np.asarray(R) - RC
    th = (np.arctan2(Z, R) - g["z0"] * 0.1) * 4 * g["nz"] / (2 * np.pi)
    return np.hypot(R, Z), np.remainder(th, 4 * g["nz"])

def scenarios(mc, rng, tier):
    scs = [dict(kind="conv", g={k: c[k] for k in ("kind", "nx", "nz", "x0", "dx", "z0", "dz")}, seed=rng.randrange(10**6)) for c in mc]
    n = 60 if tier == "quick" else 800
    for _ in range(n):
        if rng.random() < 0.5:
            g = dict(kind="rect", nx=rng.randint(5, 12), nz=rng.randint(1, 9), x0=4 * rng.randint(-20, 20), dx=4 * rng.randint(1, 6), z0=4 * rng.randint(-20, 20), dz=4 * rng.randint(1, 6))
        else:
            g = dict(kind="ann", nx=rng.randint(5, 9), nz=rng.choice([20, 24, 32]), x0=4 * rng.randint(90, 150), dx=64, z0=rng.randint(0, 60), dz=4)
        scs.append(dict(kind="conv", g=g, seed=rng.randrange(10**6)))
    der = list(scs)
    for sc in der[:: (3 if tier == "quick" else 1)]:
        for a, b in [(1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1), (1, 2), (3, 0), (0, 3)]:
            if sc["g"]["kind"] == "ann" and a + b > 2:
                continue
            scs.append(dict(kind="der", g=sc["g"], a=a, b=b, seed=rng.randrange(10**6)))
    for _ in range(30 if tier == "quick" else 400):
        scs.append(dict(kind="free", seed=rng.randrange(10**6)))
        scs.append(dict(kind="concave", seed=rng.randrange(10**6)))
    for _ in range(40 if tier == "quick" else 400):
        mxg = rng.randint(0, 3)
        nx = 2 * mxg + rng.randint(2, 7)
        scs.append(dict(kind="rectreal", nx=nx, nz=rng.randint(1, 8), mxg=mxg if mxg != 2 or rng.random() < 0.5 else None, Lx=rng.randint(50, 9000), Lz=rng.randint(50, 9000), rc=rng.randint(-5000, 5000), zc=rng.randint(-5000, 5000), seed=0))
    return scs

def norm(g, x, z):
    """indices found for points in the edge half cells: z is not judged"""
    return [[fx(a, S), fx(b, S)] for a, b in zip(np.ravel(x), np.ravel(z))]

def execute(sc):
    rng = np.random.default_rng(sc["seed"])
    if sc["kind"] == "free":
        return free(rng)
    if sc["kind"] == "concave":
        return concave(rng)
    if sc["kind"] == "rectreal":
        return rectreal(sc)
    g = sc["g"]
    pol = build(g)
    if sc["kind"] == "der":
        return der(pol, g, sc["a"], sc["b"], rng)
    evs = []
    nx, nz = g["nx"], g["nz"]
    if g["kind"] == "rect":
        ps = [[int(x), int(z)] for x, z in zip(rng.integers(-6, 4 * nx + 3, 40), rng.integers(-9, 4 * nz + 10, 40))]
    else:
        ps = [[int(x), int(z)] for x, z in zip(rng.integers(-3, 4 * nx + 3, 60), rng.integers(0, 4 * nz, 60))]
        ps += [[x, int(rng.integers(0, 4 * nz))] for x in (0, 1, 3, 4, 4 * nx - 8, 4 * nx - 7, 4 * nx - 5, 4 * nx - 4)]
        ps = [p for p in ps if p[0] not in (2, 4 * nx - 6)]
    n = len(ps)
    P = np.array(ps)
    R, Z = to_rz(g, P[:, 0], P[:, 1])
    shp = (n,) if rng.random() < 0.5 or n % 2 else (2, n // 2)
    R0, Z0 = R.reshape(shp).copy(), Z.reshape(shp).copy()
    a, b = pol.findIndex(R.reshape(shp), Z.reshape(shp))
    kept = bool(np.array_equal(R.reshape(shp), R0) and np.array_equal(Z.reshape(shp), Z0))
    shapes = np.shape(a) == shp and np.shape(b) == shp
    fi = norm(g, a, b)
    inside = np.ones(n, bool) if g["kind"] == "rect" else (P[:, 0] >= 0) & (P[:, 0] <= 4 * (nx - 1))
    co = [[0, 0]] * n
    rt = [[0, 0]] * n
    zo = P[:, 1] / 4.0 + (nz * rng.integers(-2, 3, n) if g["kind"] == "ann" else 0)
    idx = np.flatnonzero(inside)
    cr, cz = pol.getCoordinate(P[idx, 0] / 4.0, zo[idx])
    shapes = shapes and np.shape(cr) == (len(idx),) and np.shape(cz) == (len(idx),)
    fr, fz = from_rz(g, cr, cz)
    rx, rz = pol.findIndex(cr, cz)
    for j, k in enumerate(idx):
        co[k] = [fx(fr[j], S), fx(fz[j], S)]
        rt[k] = [fx(rx[j], S), fx(rz[j], S)]
    alone = []
    for k in range(n):
        x, z = pol.findIndex(float(R[k]), float(Z[k])) if k % 2 else pol.findIndex(R[k:k + 1], Z[k:k + 1])
        shapes = shapes and np.shape(x) == (() if k % 2 else (1,))
        alone.append([fx(np.ravel(x)[0], S), fx(np.ravel(z)[0], S)])
    perm = rng.permutation(n)
    half = n // 3
    batch = [None] * n
    for part in (perm[:half], perm[half:]):
        x, z = pol.findIndex(R[part], Z[part])
        for j, k in enumerate(part):
            batch[k] = [fx(x[j], S), fx(z[j], S)]
    evs.append(dict(ev="conv", g=g, ps=ps, co=co, fi=fi, rt=rt, alone=alone, batch=batch, shapes=bool(shapes), kept=kept))
    # every grid point
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    cr, cz = pol.getCoordinate(i, k)
    maxdev = fx(np.max(np.abs(cr - pol.R) + np.abs(cz - pol.Z)), S)
    wrapdev, rtdev, refused = 0, 0, True
    if g["kind"] == "ann":
        for m in (-2, -1, 1, 3):
            wr, wz = pol.getCoordinate(i, k + m * nz)
            wrapdev = max(wrapdev, fx(np.max(np.abs(wr - pol.R) + np.abs(wz - pol.Z)), S))
        x, z = pol.findIndex(pol.R, pol.Z)
        d = np.abs(x - i)[1:-1] + np.abs(np.remainder(z - k + 0.5, nz) - 0.5)[1:-1]
        rtdev = fx(np.max(d), S)
        rtdev = max(rtdev, fx(np.max(np.abs(x[0] + 1)) + np.max(np.abs(x[-1] - nx)), S))
        refused = all(call(pol.getCoordinate, np.array([v]), np.array([0.0]))[1] == "ValueError" for v in (-0.01, nx - 0.99, -5.0, nx + 3.0))
    else:
        x, z = pol.findIndex(pol.R, pol.Z)
        rtdev = fx(np.max(np.abs(x - i) + np.abs(z - k)), S)
    evs.append(dict(ev="pts", maxdev=maxdev, wrapdev=wrapdev, rtdev=rtdev, refused=bool(refused)))
    return evs

def der(pol, g, a, b, rng):
    n = 12
    h = 1 / 64
    if g["kind"] == "rect":
        x, z = rng.integers(-2, g["nx"] + 2, n) * 1.0, rng.integers(-2, g["nz"] + 2, n) * 1.0
    else:
        x, z = rng.integers(1, g["nx"] - 1, n) + rng.choice([0.0, 0.25, 0.5]), rng.integers(-g["nz"], 2 * g["nz"], n) + rng.choice([0.25, 0.5])
        x = np.minimum(x, g["nx"] - 1.5)
    shp = (n,) if rng.random() < 0.5 else (3, 4)
    v = pol.getCoordinate(x.reshape(shp), z.reshape(shp), dx=a, dz=b)
    shapes = all(np.shape(q) == shp for q in v)
    if a > 0:
        up, dn = (pol.getCoordinate(x + s * h, z, dx=a - 1, dz=b) for s in (1, -1))
    else:
        up, dn = (pol.getCoordinate(x, z + s * h, dx=a, dz=b - 1) for s in (1, -1))
    tol = 200 if g["kind"] == "rect" else 300
    if a + b > 1 and g["kind"] == "ann":
        tol = 6000     # second derivatives of a cubic spline have kinks of the size of the third derivative step
    return [dict(ev="der", g=g, a=a, b=b, val=[fxa(np.ravel(q), S) for q in v], up=[fxa(q, S) for q in up], dn=[fxa(q, S) for q in dn], tol=tol, shapes=bool(shapes))]

def free(rng):
    nx, nz = int(rng.integers(6, 10)), int(rng.choice([20, 28, 36]))
    el, tri, sh = 1 + 0.4 * rng.random(), 0.15 * rng.random(), 0.05 * rng.random()
    a0, a1 = 0.35 + 0.1 * rng.random(), 0.9
    i, k = np.meshgrid(np.linspace(0, 1, nx), np.arange(nz) * 2 * np.pi / nz, indexing="ij")
    r = a0 + (a1 - a0) * i
    th = k + 0.2 * i
    pol = StructuredPoloidalGrid(3 + r * np.cos(th + tri * np.sin(th)) - sh * i, el * r * np.sin(th))
    n = 60
    x, z = rng.uniform(0.55, nx - 1.55, n), rng.uniform(0, nz, n)
    R, Z = pol.getCoordinate(x, z)
    a, b = pol.findIndex(R, Z)
    return [dict(ev="free", nx=nx, nz=nz, x=fxa(x, S), z=fxa(z, S), rx=fxa(a, S), rz=fxa(b, S))]

def concave(rng):
    """grids whose radial lines are concave in places: searches overshoot at either edge"""
    coarse = rng.random() < 0.5
    nx, nz, lobes = int(rng.choice([6, 8, 9, 14, 20])), int(rng.choice([24, 30, 36])), int(rng.integers(2, 4))
    am = (0.38 if lobes == 2 else 0.22) * rng.uniform(0.6, 1)
    if coarse:          # thin, long cells
        nx, nz, lobes, top = [(20, 12, 3, 0.36), (14, 12, 3, 0.36), (8, 16, 3, 0.36), (40, 24, 3, 0.25), (20, 16, 2, 0.4), (20, 24, 4, 0.33)][rng.integers(6)]
        am = top * rng.uniform(0.5, 1)
    i, k = np.meshgrid(np.linspace(0, 1, nx), np.arange(nz) * 2 * np.pi / nz, indexing="ij")
    r0 = rng.uniform(0.2, 0.9) if coarse else 0.9
    r = (r0 + 0.7 * i) * (1 + am * np.cos(lobes * k))
    pol = StructuredPoloidalGrid(5 + r * np.cos(k), r * np.sin(k))
    n = 160 if coarse else 80
    x = np.concatenate((rng.uniform(0.55, nx - 1.55, n // 2), rng.uniform(nx - (3 if coarse else 1.9), nx - 1.55, n // 4), rng.uniform(0.55, 0.9, n // 4)))
    z = rng.uniform(0, nz, n)
    R, Z = pol.getCoordinate(x, z)
    a, b = pol.findIndex(R, Z)
    evs = [dict(ev="free", nx=nx, nz=nz, x=fxa(x, S), z=fxa(z, S), rx=fxa(a, S), rz=fxa(b, S))]
    # the last half cells, on the grid
    e = np.concatenate((rng.uniform(0.0, 0.45, 20), rng.uniform(nx - 1.45, nx - 1.0, 20)))
    R, Z = pol.getCoordinate(e, rng.uniform(0, nz, 40))
    a, b = pol.findIndex(R, Z)
    evs.append(dict(ev="edge", nx=nx, x=fxa(e, S), rx=fxa(a, S)))
    # and beyond either edge
    th = rng.uniform(0, 2 * np.pi, 40)
    far = rng.random(40) < 0.5
    ro = np.where(far, (r0 + 0.7) * rng.uniform(1.1, 3, 40), r0 * rng.uniform(0, 0.9, 40)) * (1 + am * np.cos(lobes * th))
    a, b = pol.findIndex(5 + ro * np.cos(th), ro * np.sin(th))
    evs.append(dict(ev="edge", nx=nx, x=fxa(np.where(far, nx, -1), S), rx=fxa(a, S)))
    return evs

def rectreal(sc):
    kw = {} if sc["mxg"] is None else dict(MXG=sc["mxg"])
    pol = RectangularPoloidalGrid(sc["nx"], sc["nz"], sc["Lx"] / 1000.0, sc["Lz"] / 1000.0, sc["rc"] / 1000.0, sc["zc"] / 1000.0, **kw)
    m = 2 if sc["mxg"] is None else sc["mxg"]
    x, z = pol.findIndex(pol.R, pol.Z)
    return [dict(ev="rect", nx=sc["nx"], nz=sc["nz"], mxg=m, Lx=sc["Lx"], Lz=sc["Lz"], rc=sc["rc"], zc=sc["zc"], R=fxa(pol.R, 100000), Z=fxa(pol.Z, 100000), x=fxa(x, S), z=fxa(z, S))]
