"""C10: field line tracing (FieldTracer, FieldTracerReversible)"""
import numpy as np
from vf import fx, call
from flow import FlowField, rec, rand_flow
from zoidberg.field import CurvedSlab, RotatingEllipse, Screwpinch, Slab, StraightStellarator
from zoidberg.fieldtracer import FieldTracer, FieldTracerReversible

MC = "MCFlow"
TRACE = "TraceFlow"
ASSUMPTIONS = ["the y positions of one request are monotonic", "positions agree within the integrator's tolerance (1e-3 of a lattice unit)"]
SHAPES = [("1", (1,)), ("v", (3,)), ("m", (2, 3)), ("t", (2, 1, 2)), ("s", ())]

def scenarios(mc, rng, tier):
    scs = []
    base = [dict(f=m["f"], ys=list(m["ys"])) for m in mc]
    if tier == "quick":
        base = rng.sample(base, min(len(base), 420))
    for b in base:
        scs.append(dict(kind="trace", shp=rng.choice(SHAPES)[0], bc=rng.choice(["no", "no", "x", "z"]), tracer=rng.choice(["ode", "rev"]), dt=rng.choice(["f", "f", "i", "list"]),
                        seed=rng.randrange(10**6), **b))
    for _ in range(60 if tier == "quick" else 600):
        ys = sorted(rng.sample(range(-5, 6), rng.randint(2, 5)))
        if rng.random() < 0.5:
            ys = ys[::-1]
        scs.append(dict(kind="trace", f=rand_flow(rng), ys=ys, shp=rng.choice(SHAPES)[0], bc=rng.choice(["no", "x", "z"]), tracer=rng.choice(["ode", "rev"]), dt=rng.choice(["f", "i", "list"]), seed=rng.randrange(10**6)))
    for n in ([999, 1000, 1001, 1999, 2001, 2503, 3000, (40, 41), (2, 700), (3, 5, 99)] if tier == "quick" else [999, 1000, 1001, 1500, 1998, 1999, 2000, 2001, 2500, 2999, 3001, 4100, 5003, (40, 41), (2, 700), (3, 5, 99), (10, 10, 21), (1234, 2)]):
        for tr in ("ode", "rev"):
            scs.append(dict(kind="big", n=n, f=rand_flow(rng), ys=rng.choice([[0, 1], [0, 1, 3], [2, 0], [1, 0, -2]]), tracer=tr, seed=rng.randrange(10**6)))
    for _ in range(30 if tier == "quick" else 300):
        scs.append(dict(kind="real", fld=rng.choice(["slab", "curved", "stell", "ellipse", "screw"]), tracer=rng.choice(["ode", "rev"]), seed=rng.randrange(10**6)))
    for _ in range(60 if tier == "quick" else 600):
        scs.append(dict(kind="reversible", seed=rng.randrange(10**6)))
    shp = [(), (1,), (2,), (3,), (2, 3), (3, 2), (6,)]
    for sx in shp:
        for sz in shp:
            for ny in (1, 2, 3):
                if (sx, sz) == ((1,), (2, 3)) or (sx, sz) == ((2, 3), (1,)) or (ny != 2 and sx != sz):
                    continue
                scs.append(dict(kind="refuse", sx=list(sx), sz=list(sz), ny=ny, tracer=rng.choice(["ode", "rev"])))
    return scs

def tracer(kind, field, ys=(0, 1)):
    """the reversible tracer takes nsteps steps per interval: keep its step length, whatever the interval"""
    longest = max([1] + [abs(b - a) for a, b in zip(ys[:-1], ys[1:])] + [abs(ys[-1] - ys[0])])
    return FieldTracer(field) if kind == "ode" else FieldTracerReversible(field, nsteps=160 * int(longest))

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def mk(a, dt):
    a = np.asarray(a)
    if dt == "i":
        return a.astype(int)
    if dt == "list":
        return a.astype(float).tolist()
    return a.astype(float)

def layout(a, rng):
    """the same numbers, laid out differently in memory"""
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    k = rng.integers(0, 5)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a[::-1].copy()[::-1]
    if k == 2:
        big = np.full(tuple(2 * n for n in a.shape), 99, a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == 3:
        return np.moveaxis(np.moveaxis(a, 0, -1).copy(), -1, 0)
    return a

class Curved(FlowField):
    """a field whose direction is not linear in the position; the origin is a line of the field"""
    def __init__(self):
        pass
    def Bxfunc(self, x, z, phi):
        return np.asarray(z) * (1 + 0.5 * np.asarray(x)**2) + 0.3 * np.sin(2 * np.asarray(x)) * np.cos(phi)
    def Bzfunc(self, x, z, phi):
        return -np.asarray(x) * (1 + np.asarray(z)**2) + 0.2 * np.asarray(z)**3

def do_reversible(sc):
    """the reversible tracer comes back to the start to rounding, however long its steps are"""
    rng = np.random.default_rng(sc["seed"])
    f = Curved()
    shp = [(5,), (2, 4), (1,)][rng.integers(3)]
    x, z = rng.uniform(-0.6, 0.6, shp), rng.uniform(-0.6, 0.6, shp)
    if rng.random() < 0.7 and x.size > 1:
        x.flat[0] = z.flat[0] = 0.0
    n = int(rng.integers(4, 9))
    ys = [0.0, 1.0] if rng.random() < 0.5 else [0.3, 0.9, 1.4]
    if rng.random() < 0.5:
        tr, kw = FieldTracerReversible(f, rtol=1e-22, nsteps=n), {}
    else:
        tr, kw = FieldTracerReversible(f), dict(rtol=1e-22, nsteps=n)
    if rng.random() < 0.5:
        ys = ys[::-1]
    r = tr.follow_field_lines(layout(x, rng), layout(z, rng), ys, **kw)
    b = tr.follow_field_lines(r[-1, ..., 0], r[-1, ..., 1], ys[::-1], **kw)
    evs = [dict(ev="pair", a=rec((b[-1] - r[0]) * 1e4), b=rec(0 * b[-1]), tol=10, what="returns_exactly"), dict(ev="pair", a=rec((b[1] - r[-2]) * 1e4), b=rec(0 * b[-1]), tol=10, what="returns_exactly")]
    i = int(rng.integers(0, x.size))
    one = tr.follow_field_lines(x.flat[i], z.flat[i], ys, **kw)
    evs.append(dict(ev="pair", a=rec((one[-1] - r[-1].reshape(-1, 2)[i:i + 1]) * 1e4), b=[[0, 0]], tol=10, what="company"))
    # every point of one call is as accurate as the tolerance asks for: the default one against the tight one
    d = FieldTracerReversible(f, nsteps=n).follow_field_lines(x, z, ys)
    evs.append(dict(ev="pair", a=rec(d[-1]), b=rec(r[-1]), tol=5, what="tolerance"))
    return evs

def do_trace(sc):
    rng = np.random.default_rng(sc["seed"])
    shp = dict((k, v) for k, v in SHAPES)[sc["shp"]]
    x, z = rng.integers(-4, 5, shp), rng.integers(-4, 5, shp)
    sx, sz = x, z
    if sc["bc"] == "x" and shp:
        sx = np.asarray(int(rng.integers(-4, 5))); x = np.full(shp, int(sx))
    if sc["bc"] == "z" and shp:
        sz = np.asarray(int(rng.integers(-4, 5))); z = np.full(shp, int(sz))
    X, Z, Y = mk(sx, sc["dt"]), mk(sz, sc["dt"]), mk(sc["ys"], "list" if sc["dt"] == "list" else rng.choice(["f", "i"]))
    X, Z = layout(X, rng), layout(Z, rng)
    keep = [np.array(v, copy=True) for v in (X, Z, Y)]
    tr = tracer(sc["tracer"], FlowField(sc["f"]), sc["ys"])
    kw = dict(rtol=1e-10) if rng.random() < 0.3 else {}
    res = tr.follow_field_lines(X, Z, Y, **kw)
    kept = all(np.array_equal(k, np.asarray(v)) for k, v in zip(keep, (X, Z, Y)))
    want = [len(sc["ys"])] + list(shp if shp else (1,)) + [2]
    ps = [[2 * int(a), 2 * int(b)] for a, b in zip(np.ravel(x), np.ravel(z))]
    evs = [dict(ev="trace", f=sc["f"], ys=sc["ys"], ps=ps, res=[rec(r) for r in res], shape=list(np.shape(res)), want=want, tol=10, kept=bool(kept))]
    # back to the start from the last position
    back = tr.follow_field_lines(res[-1][..., 0], res[-1][..., 1], [sc["ys"][-1], sc["ys"][0]], **kw)
    evs.append(dict(ev="pair", a=rec(back[1]), b=[[p[0] * 5000, p[1] * 5000] for p in ps], tol=10, what="returns"))
    # the result array belongs to the caller: using it does not change a later identical request
    r0 = np.array(res); res[...] = 7.0
    again = tr.follow_field_lines(X, Z, Y, **kw)
    evs.append(dict(ev="pair", a=rec(r0), b=rec(again), tol=0, what="repeatable"))
    return evs

def do_big(sc):
    rng = np.random.default_rng(sc["seed"])
    shp = (sc["n"],) if isinstance(sc["n"], int) else tuple(sc["n"])
    N = int(np.prod(shp))
    x, z = rng.integers(-4, 5, shp).astype(float), rng.integers(-4, 5, shp).astype(float)
    x0, z0 = x.copy(), z.copy()
    fld = FlowField(sc["f"])
    tr = tracer(sc["tracer"], fld, sc["ys"])
    res = tr.follow_field_lines(x, z, sc["ys"])
    kept = bool(np.array_equal(x, x0) and np.array_equal(z, z0))
    want = [len(sc["ys"])] + list(shp) + [2]
    idx = sorted({0, 1, N // 3, N // 2 - 1, N // 2, N // 2 + 1, N - 2, N - 1, min(N - 1, 999), min(N - 1, 1000), min(N - 1, 1001)} | {int(v) for v in rng.integers(0, N, 40)})
    ps = [[2 * int(x0.flat[i]), 2 * int(z0.flat[i])] for i in idx]
    flat = np.asarray(res).reshape(len(sc["ys"]), -1, 2) if np.size(res) == np.prod(want) else np.zeros((len(sc["ys"]), 0, 2))
    sel = flat[:, idx] if flat.shape[1] == N else flat
    evs = [dict(ev="trace", f=sc["f"], ys=sc["ys"], ps=ps, res=[rec(r) for r in sel], shape=list(np.shape(res)), want=want, tol=10, kept=kept)]
    part = idx[::7]
    alone = tr.follow_field_lines(x0.flat[part], z0.flat[part], sc["ys"])
    evs.append(dict(ev="pair", a=rec(alone[-1]), b=rec(flat[-1][part]) if flat.shape[1] == N else [], tol=10, what="company"))
    perm = rng.permutation(N)[: max(3, N // 2)]
    other = tr.follow_field_lines(x0.flat[perm], z0.flat[perm], sc["ys"])
    pick = rng.integers(0, len(perm), 40)
    evs.append(dict(ev="pair", a=rec(other[-1][pick]), b=rec(flat[-1][perm[pick]]) if flat.shape[1] == N else [], tol=10, what="order"))
    return evs

def field(name, rng):
    if name == "slab":
        return Slab(By=1.0, Bz=0.3, Bzprime=0.5), (-1, 1), (-1, 1)
    if name == "curved":
        return CurvedSlab(By=1.0, Bz=0.2, Bzprime=0.5, Rmaj=2.0), (-0.3, 0.3), (-1, 1)
    if name == "stell":
        return StraightStellarator(), (-0.2, 0.2), (-0.2, 0.2)
    if name == "ellipse":
        return RotatingEllipse(xcentre=2.0, I_coil=0.3), (1.85, 2.15), (-0.15, 0.15)
    return Screwpinch(shear=0.1), (1.3, 1.7), (-0.2, 0.2)

def do_real(sc):
    rng = np.random.default_rng(sc["seed"])
    f, xr, zr = field(sc["fld"], rng)
    x, z = rng.uniform(*xr, 6), rng.uniform(*zr, 6)
    tr = FieldTracer(f) if sc["tracer"] == "ode" else FieldTracerReversible(f, nsteps=200)
    a, b, c = rng.choice([0.0, 0.3]), 0.7, 1.3
    if rng.random() < 0.5:
        a, b, c = c, b, a
    res = tr.follow_field_lines(x, z, [a, b, c])
    two = tr.follow_field_lines(res[1][:, 0], res[1][:, 1], [b, c])
    direct = tr.follow_field_lines(x, z, [a, c])
    back = tr.follow_field_lines(res[2][:, 0], res[2][:, 1], [c, b, a])
    one = tr.follow_field_lines(x[2], z[2], [a, c])
    xs = rng.permutation(6)
    p = tr.follow_field_lines(x[xs], z[xs], [a, c])
    t = 5
    # a step of the flow itself: central difference of the traced line against the field direction
    h = 1e-3
    st = tr.follow_field_lines(x, z, [a, a + h]) - tr.follow_field_lines(x, z, [a, a - h])
    d = np.array(f.field_direction((x, z), a)).T * 2 * h
    return [dict(ev="pair", a=rec(two[1]), b=rec(res[2]), tol=t, what="composes"), dict(ev="pair", a=rec(direct[1]), b=rec(res[2]), tol=t if sc["tracer"] == "ode" else 20, what="intermediate"),
            dict(ev="pair", a=rec(back[2]), b=rec(np.array([x, z]).T), tol=t, what="returns"), dict(ev="pair", a=rec(back[1]), b=rec(res[1]), tol=t, what="returns"),
            dict(ev="pair", a=rec(one[1]), b=rec(direct[1][2:3]), tol=t, what="company"), dict(ev="pair", a=rec(p[1]), b=rec(direct[1][xs]), tol=t, what="order"),
            dict(ev="pair", a=rec(st[1] * 200), b=rec(d * 200), tol=40, what="tangent")]

def do_refuse(sc):
    f = FlowField(dict(kind="poly", a=1, b=0, s=0, k=0))
    x, z = np.ones(sc["sx"]), np.zeros(sc["sz"])
    _, exc = call(tracer(sc["tracer"], f).follow_field_lines, x, z, np.arange(sc["ny"], dtype=float))
    return [dict(ev="refuse", sx=sc["sx"], sz=sc["sz"], ny=sc["ny"], exc=exc)]
