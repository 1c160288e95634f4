"""C19: finite differences"""
import numpy as np
from vf import fxa, ints
from zoidberg.diff import c2, c4

MC = "MCDiff"
TRACE = "TraceDiff"
ASSUMPTIONS = ["at least 5 points along the axis for the fourth order difference, 3 for the second"]

def scenarios(mc, rng, tier):
    scs = [dict(kind="poly", c=m["c"], n=m["n"], off=m["off"], ndim=1, axis=0, dtype="float", pre=[], post=[]) for m in mc]
    if tier == "quick":
        scs = rng.sample(scs, 250)
    for _ in range(150 if tier == "quick" else 4000):
        nd = rng.randint(1, 4)
        axis = rng.randrange(nd)
        scs.append(dict(kind="poly", c=[rng.randint(-3, 3) for _ in range(5)], n=rng.choice([5, 6, 8, 11]), off=rng.choice([-6, -3, 0]), ndim=nd, axis=axis, neg=rng.random() < 0.3,
                        dtype=rng.choice(["float", "float32", "int", "complexish"]), pre=[rng.randint(1, 4) for _ in range(axis)], post=[rng.randint(1, 4) for _ in range(nd - axis - 1)], rev=rng.random() < 0.3))
    return scs

def execute(sc):
    n, axis = sc["n"], sc["axis"]
    dt = dict(float=float, float32=np.float32, int=int, complexish=float)[sc["dtype"]]
    ax = axis - sc["ndim"] if sc.get("neg") else axis
    evs = []
    x = np.arange(1, n + 1) + sc["off"]
    shape = tuple(sc["pre"]) + (n,) + tuple(sc["post"])
    rng = np.random.default_rng(abs(sum(sc["c"])) + n)
    oth = tuple(sc["pre"]) + (1,) + tuple(sc["post"])
    a = rng.integers(1, 4, oth); b = rng.integers(-9, 9, oth)
    for deg in (2, 3, 5):
        c = sc["c"][:deg]
        p = sum(ck * x**k for k, ck in enumerate(c)).reshape((1,) * axis + (n,) + (1,) * (sc["ndim"] - axis - 1))
        f = (a * p + b).astype(dt)
        if sc.get("rev"):
            f = np.asfortranarray(f)
        keep = f.copy()
        for name, op, fac in (("c2", c2, 2), ("c4", c4, 12)):
            if name == "c2" and deg == 5:
                continue
            for per in (False, True):
                d = op(f, ax, periodic=per)
                evs.append(dict(ev="same", a=[bool(np.array_equal(f, keep)), list(d.shape)], b=[True, list(shape)], what="input_kept_and_shape"))
                lines = np.moveaxis(np.asarray(d, float) * fac, axis, -1).reshape(-1, n)
                am = np.broadcast_to(np.moveaxis(a, axis, -1), np.moveaxis(np.zeros(oth), axis, -1).shape).reshape(-1)
                for k in sorted({0, len(lines) - 1, len(lines) // 2}):
                    # rounding: the periodic sum and single precision
                    mx = float(np.abs(np.asarray(f, float)).max()) + 1
                    tol = 2 if dt is not np.float32 else 2 + int(mx * 24 * 1e-7 * 50 * 1000)
                    evs.append(dict(ev="line", op=name, c=c, n=n, off=sc["off"], per=per, a=int(am[k]), d=fxa(lines[k], 1000), tol=tol))
                if per:
                    ds = op(np.roll(f, -2, axis=axis), ax, periodic=True)
                    q = np.moveaxis(np.asarray(ds, float) * fac, axis, -1).reshape(-1, n)
                    evs.append(dict(ev="shift", d=fxa(lines[0], 1000), ds=fxa(q[0], 1000), s=2))
                # all other lines follow: the whole array is the same operation on each line
                one = np.stack([op(r, 0, periodic=per) for r in np.moveaxis(f, axis, -1).reshape(-1, n)[:40]])
                evs.append(dict(ev="same", a=bool(np.allclose(one, np.moveaxis(np.asarray(d), axis, -1).reshape(-1, n)[:40], rtol=1e-4 if dt is np.float32 else 1e-12, atol=1e-2 if dt is np.float32 else 1e-9)), b=True, what="axes_do_not_mix"))
    return evs
