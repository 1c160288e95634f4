"""C11: Poincare layout (trace_poincare)"""
import numpy as np
from vf import fx, call
from flow import FlowField, rec, rand_flow
from zoidberg.fieldtracer import trace_poincare

MC = "MCPoincare"
TRACE = "TraceFlow"
ASSUMPTIONS = ["at least two positions are asked for in total", "the start positions belong to the first slice", "positions agree within the integrator's tolerance"]
SHAPES = [(), (1,), (3,), (2, 2), (4,), (2, 1, 2)]

def scenarios(mc, rng, tier):
    scs = []
    for m in mc:
        if len(m["req"]) * m["revs"] < 2 or (tier == "quick" and rng.random() > 0.5):
            continue
        scs.append(dict(kind="layout", per=m["per"], req=m["req"], revs=m["revs"], nover=m["nover"], f=rand_flow(rng), shp=rng.choice(SHAPES), dt=rng.choice(["list", "i", "f"]), seed=rng.randrange(10**6)))
    for _ in range(50 if tier == "quick" else 600):
        per = rng.randint(1, 7)
        req = rng.sample(range(0, per + 1), rng.randint(1, min(6, per + 1)))
        scs.append(dict(kind="layout", per=per, req=req, revs=rng.randint(1 if len(req) > 1 else 2, 6), nover=rng.choice([1, 3, 5, 20, 31]), f=rand_flow(rng), shp=rng.choice(SHAPES), dt=rng.choice(["list", "i", "f"]), seed=rng.randrange(10**6)))
    for n in range(1, 9):
        scs.append(dict(kind="spacing", nplot=n, per=rng.choice([1, 2, 7]), how=rng.choice(["kw", "float"]), revs=rng.randint(2, 3)))
        scs.append(dict(kind="even", n=n, per=n * rng.randint(1, 2), revs=rng.randint(2, 4), nover=rng.choice([1, 2, 7]), f=rand_flow(rng), shp=rng.choice(SHAPES), seed=rng.randrange(10**6)))
    for req in [[0, 5], [5], [-1], [-1, 2], [0], [4], [0, 4], [4, 0], [1, 2, 4.001], [-0.001, 2], [3.999], [0.0, 2.5]]:
        for dt in ("list", "f"):
            scs.append(dict(kind="refuse", per=4, req=req, dt=dt))
    scs.append(dict(kind="none"))
    return scs

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def as_req(r, dt):
    return list(r) if dt == "list" else np.array(r, dtype=float if dt == "f" else int)

def run(sc, ys, slices_kw, ps_shape):
    rng = np.random.default_rng(sc["seed"])
    shp = tuple(ps_shape)
    x, z = rng.integers(-3, 4, shp).astype(float), rng.integers(-3, 4, shp).astype(float)
    if not shp:
        x, z = float(x), float(z)
    x0, z0 = np.array(x), np.array(z)
    res, sl = trace_poincare(FlowField(sc["f"]), x, z, sc["per"], revs=sc["revs"], nover=sc["nover"], **slices_kw)
    kept = bool(np.array_equal(x0, x) and np.array_equal(z0, z))
    n = len(ys)
    want = [sc["revs"], n] + list(shp if shp else (1,)) + [2]
    res = np.asarray(res)
    ok = list(res.shape) == want
    r = [[rec(res[v, s]) for s in range(n)] for v in range(sc["revs"])] if ok else []
    # the starting position belongs to the first slice
    return dict(ev="poin", f=sc["f"], ys=[int(1000 * y) for y in ys], per=sc["per"], revs=sc["revs"], ps=[[2 * int(a), 2 * int(b)] for a, b in zip(np.ravel(x0), np.ravel(z0))],
                res=r, shape=list(res.shape), want=want, slices=[fx(s, 1000) for s in sl], tol=40, kept=kept)

def do_layout(sc):
    req = as_req(sc["req"], sc["dt"])
    keep = np.array(req)
    e = run(sc, sorted(sc["req"]), dict(y_slices=req), sc["shp"])
    e["kept"] = bool(e["kept"] and np.array_equal(keep, np.array(req)))
    # the same slices asked for in another order, without oversampling
    e2 = run(dict(sc, nover=1), sorted(sc["req"]), dict(y_slices=as_req(sc["req"][::-1], sc["dt"])), sc["shp"])
    return [e, e2]

def do_even(sc):
    step = sc["per"] // sc["n"]
    return [run(sc, [i * step for i in range(sc["n"])], dict(nplot=sc["n"]), sc["shp"])]

def do_spacing(sc):
    _, sl = trace_poincare(FlowField(dict(kind="poly", a=1, b=0, s=0, k=0)), 0.0, 0.0, float(sc["per"]), nplot=sc["nplot"] if sc["how"] == "kw" else float(sc["nplot"]), revs=sc["revs"], nover=2)
    return [dict(ev="poinspacing", nplot=sc["nplot"], per=sc["per"], slices=[fx(s, 1000) for s in sl])]

def do_refuse(sc):
    bad = any(y < 0 or y > sc["per"] for y in sc["req"])
    req = as_req(sc["req"], sc["dt"])
    _, exc = call(trace_poincare, FlowField(dict(kind="poly", a=1, b=0, s=0, k=0)), np.zeros(2), np.zeros(2), sc["per"], y_slices=req, revs=2, nover=2)
    return [dict(ev="poinrefuse", bad=bad, exc=exc)]

def do_none(sc):
    _, exc = call(trace_poincare, FlowField(dict(kind="poly", a=1, b=0, s=0, k=0)), 0.0, 0.0, 1.0, nplot=None, y_slices=None)
    return [dict(ev="poinrefuse", bad=True, exc=exc)]
