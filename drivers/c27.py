"""C27: vacuum fields from Dommaschk potentials"""
import numpy as np
from vf import fx, fxa, ints, call
from zoidberg.field import DommaschkPotentials

MC = "MCDommaschk"
TRACE = "TraceDommaschk"
ASSUMPTIONS = ["toroidal mode numbers up to five, poloidal ones up to nine", "divergence and curl by finite differences of fourth order"]
HP = np.pi / 2

def scenarios(mc, rng, tier):
    scs = []
    pick = rng.sample(mc, min(len(mc), 100 if tier == "quick" else 3000))
    for m in pick:
        scs.append(dict(A=m["A"], R0=rng.choice([1, 2, 5]), B0=rng.choice([1, 3, -2]), seed=rng.randrange(10**6)))
    for _ in range(80 if tier == "quick" else 2500):
        ml = rng.sample([(m, l) for m in range(6) for l in range(6)], rng.randint(0, 4))
        A = [dict(m=m, l=l, **{c: rng.choice([0, rng.randint(-3, 3)]) for c in "abcd"}) for m, l in ml]
        if 1 + sum(q["m"] * q["b"] for q in A if q["l"] == 0) == 0:
            continue
        scs.append(dict(A=A, R0=rng.choice([1, 2, 5]), B0=rng.choice([1, 3, -2]), seed=rng.randrange(10**6)))
    # high modes, one coefficient at a time
    high = [(m, l, c) for m in range(6) for l in range(5, 10) for c in "abcd"]
    for m, l, c in high if tier == "thorough" else [h for h in high if h[0] in (0, 1) and h[1] >= 8 and h[2] in "ad"] + rng.sample(high, 12):
        scs.append(dict(A=[dict(dict(m=m, l=l, a=0, b=0, c=0, d=0), **{c: rng.choice([1, 2, -3])})], R0=rng.choice([1, 2, 5]), B0=rng.choice([1, 3, -2]), seed=rng.randrange(10**6)))
    return scs

def build(A, R0, B0, pad=0):
    M = np.zeros((max([q["m"] for q in A], default=0) + 1 + pad, max([q["l"] for q in A], default=0) + 1 + pad, 4))
    for q in A:
        M[q["m"], q["l"]] = [q[c] for c in "abcd"]
    return DommaschkPotentials(M, R_0=float(R0), B_0=float(B0))

def whole(v, n):
    v = np.broadcast_to(np.asarray(v, float), (n,))
    return fxa(np.where(np.abs(v - np.round(v)) < 0.05, np.round(v), np.nan), 1)

def execute(sc):
    A, R0, B0 = sc["A"], sc["R0"], sc["B0"]
    rng = np.random.default_rng(sc["seed"])
    f = build(A, R0, B0)
    norm = 1 + sum(q["m"] * q["b"] for q in A if q["l"] == 0)
    pts = [[int(z), int(k)] for z in (-2, -1, 0, 1, 2) for k in range(-2, 5)]
    pts = [pts[i] for i in rng.choice(len(pts), 12, replace=False)] + [[0, 0]]
    P = np.array(pts, float); n = len(pts)
    R, Z, phi = np.full(n, float(R0)), P[:, 0] * R0, P[:, 1] * HP
    ev = dict(ev="cyl", A=A, B0=B0, norm=norm, pts=pts, cyl=bool(np.all(np.asarray(f.Rfunc(R, Z, phi)) == R)))
    for c, g in (("BR", f.Bxfunc), ("BP", f.Byfunc), ("BZ", f.Bzfunc)):
        ev[c] = whole(np.asarray(g(R, Z, phi)) * norm * 362880, n)
    evs = [ev]
    # away from the cylinder
    n = 6
    R, Z, phi = R0 * rng.uniform(0.7, 1.3, n), R0 * rng.uniform(-0.6, 0.6, n), rng.uniform(-4, 7, n)
    h = 4e-3
    def comp(g):
        return lambda r, z, p: np.broadcast_to(np.asarray(g(r, z, p), float), (n,))
    b = [comp(g) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)]
    def d(g, axis):
        s = h * (R0 if axis != 2 else 1)
        def at(t):
            q = [R, Z, phi]; q[axis] = q[axis] + t * s
            return g(*q)
        return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * s)
    rb = lambda i: (lambda r, z, p: r * b[i](r, z, p))
    div = d(rb(0), 0) / R + d(b[1], 2) / R + d(b[2], 1)
    curl = np.concatenate([d(b[2], 2) / R - d(b[1], 1), d(b[0], 1) - d(b[2], 0), d(rb(1), 0) / R - d(b[0], 2) / R])
    # relative to the variation of the field
    scale = max(sum(np.abs(d(b[i], a)).max() for i in range(3) for a in (0, 1, 2)) , max(np.abs(g(R, Z, phi)).max() for g in b) / R0)
    evs.append(dict(ev="vac", div=fxa(div / scale, 100000), curl=fxa(curl / scale, 100000), tol=20))
    # one more turn; a larger coefficient matrix filled with zeros; twice the field
    val = lambda g, p=phi: np.concatenate([np.broadcast_to(np.asarray(t, float), (n,)) for t in (g.Bxfunc(R, Z, p), g.Byfunc(R, Z, p), g.Bzfunc(R, Z, p))])
    v0 = val(f); m = max(np.abs(v0).max(), 1e-300)
    evs.append(dict(ev="same", what="periodic", a=fxa(v0 / m, 10**6), b=fxa(val(f, phi + 2 * np.pi) / m, 10**6)))
    evs.append(dict(ev="same", what="zero_coefficients", a=fxa(v0 / m, 10**6), b=fxa(val(build(A, R0, B0, pad=1)) / m, 10**6)))
    evs.append(dict(ev="same", what="linear_in_B_0", a=fxa(2 * v0 / m, 10**6), b=fxa(val(build(A, R0, 2 * B0)) / m, 10**6)))
    # superposition: fields before scaling add up
    if len(A) > 1:
        def raw(A):
            g = build(A, R0, 1)
            return val(g) * (1 + sum(q["m"] * q["b"] for q in A if q["l"] == 0))
        def ok(A):
            return 1 + sum(q["m"] * q["b"] for q in A if q["l"] == 0) != 0
        A1, A2 = A[:1], A[1:]
        if ok(A1) and ok(A2):
            s = raw(A1) + raw(A2) - raw([]); w = raw(A); m2 = np.abs(w).max()
            evs.append(dict(ev="same", what="superposition", a=fxa(s / m2, 10**6), b=fxa(w / m2, 10**6)))
    return evs
