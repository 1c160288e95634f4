"""C24: volume elements, lengths and fields of the cells"""
import numpy as np
from vf import fx, fxa, ints, call
from zoidberg import field as zf
from zoidberg.diff import field_line_length
from zoidberg.field import MagneticField
from zoidberg.grid import Grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, grid_annulus
from zoidberg.rzline import circle
from zoidberg.zoidberg import make_maps

MC = "MCFluxTube"
TRACE = "TraceFluxTube"
ASSUMPTIONS = ["equally spaced planes, lengths of lines followed towards increasing y", "cylindrical geometry (a straight stellarator's J and Ly are not judged)"]
NZ = 3

def scenarios(mc, rng, tier):
    scs = []
    for m in rng.sample(mc, 120 if tier == "quick" else 2500):
        scs.append(dict(kind="tube", q=m["q"], k=m["k"], dy=rng.choice([20, 31, 50, 110]), sgn=rng.choice([1, 1, -1]), dz=rng.choice([1.0, 0.5, 3.0]), nslice=rng.choice([1, 1, 2]), rtol=rng.choice([None, 1e-5, 1e-9]), per=rng.random() < 0.6, off=rng.choice([0, 1])))
    for _ in range(24 if tier == "quick" else 300):
        scs.append(dict(kind="chunks", f=rng.choice(["ellipse", "pinch", "curved"]), g=rng.choice(["rect", "ann"]), per=rng.random() < 0.7, nx=rng.randint(5, 9), ny=rng.randint(2, 3), ks=[1, rng.randint(2, 12)], r=rng.choice([2, 5, 20])))
    for _ in range(6 if tier == "quick" else 60):
        scs.append(dict(kind="slab", nx=rng.randint(5, 7), k=rng.choice([1, 3, 8]), r=rng.choice([1, 4]), cls=rng.choice(["slab", "curved"])))
    for _ in range(12 if tier == "quick" else 100):
        scs.append(dict(kind="area", nx=rng.randint(5, 8), nz=rng.randint(6, 12), k=rng.choice([1, 2, 4, 9]), r=rng.choice([1, 3]), dR=round(rng.uniform(-0.1, 0.1), 3), el=round(rng.uniform(0, 0.4), 3), ny=2))
    for _ in range(60 if tier == "quick" else 2000):
        scs.append(dict(kind="len", n=rng.randint(4, 30), R0=rng.uniform(1, 6), a=rng.choice([0, 0, 1]) * rng.uniform(-1, 1), c=rng.uniform(-2, 2), y0=rng.uniform(-3, 9), dy=rng.uniform(0.2, 6.0), shape=rng.choice([[], [3], [2, 3]]), nonuni=rng.random() < 0.3))
    return scs

class Field(MagneticField):
    def __init__(self, sc, sub):
        self.q, self.sgn, self.sub = sc["q"], sc["sgn"], sub
    def Byfunc(self, x, z, phi):
        q = self.q
        Y = np.rint(np.asarray(phi) / self.sub).astype(int)
        lab = np.rint(np.asarray(x) - q["a"] * Y).astype(int)
        return self.sgn * np.array(q["tab"], float)[np.mod(Y + lab, len(q["tab"]))]
    def Rfunc(self, x, z, phi):
        return x

class Tracer:
    def __init__(self, q, sub):
        self.q, self.sub, self.seen = q, sub, set()
    def follow_field_lines(self, x_values, z_values, y_values, rtol=None):
        self.seen.add(rtol)
        x = np.array(x_values, float); z = np.array(z_values, float); y = np.asarray(y_values, float)
        m = (y - y[0]) / self.sub
        m = m.reshape((-1,) + (1,) * x.ndim)
        return np.stack([x[None] + self.q["a"] * m, z[None] + self.q["cz"] * m], axis=-1)

def reflen(R0, a, cz, sub, lo, hi):
    """length of R = R0 + a m, Z = cz m, phi = sub m"""
    m = np.linspace(lo, hi, 20001)
    R = R0 + a * m
    f = np.sqrt(a * a + cz * cz + (R * sub) ** 2)
    return np.sum((f[1:] + f[:-1]) / 2) * (hi - lo) / 20000

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def do_tube(sc):
    q = sc["q"]; nx, ny, r = q["nx"], q["ny"], q["r"]
    dy = sc["dy"] / 100.0; sub = dy / (2 * r)
    pol = RectangularPoloidalGrid(nx, NZ, float(q["dx"] * (nx - 2)), sc["dz"] * NZ, q["R0"] + q["dx"] * (nx - 1) / 2.0, 0.0, MXG=1)
    g = Grid(pol, dy * (np.arange(ny) + sc["off"] / 2), dy * ny, yperiodic=sc["per"])
    tr = Tracer(q, sub)
    kw = {} if sc["rtol"] is None else dict(rtol=sc["rtol"])
    res, exc = call(make_maps, g, Field(sc, sub), nslice=sc["nslice"], quiet=True, field_tracer=tr, refine_parallel_integral=r, n_chunks=sc["k"], **kw)
    evs = [dict(ev="tol", seen=sorted(str(v) for v in tr.seen), asked=str(sc["rtol"]))]
    for j in range(ny):
        ev = dict(ev="tube", q=q, exc=exc, j=j, nz=NZ, sgn=sc["sgn"], off=sc["off"], per=sc["per"])
        if exc == "none":
            at = lambda n: np.asarray(res[n])[:, j, :]
            S = 1000
            ev.update(J=[fxa(v, 100) for v in at("J")], By=[ints(v) for v in at("By")], Bl=[ints(v) for v in at("By_cell_ylow")], Bh=[ints(v) for v in at("By_cell_yhigh")],
                      L=[fxa(v, S) for v in at("Ly")], Ll=[fxa(v, S) for v in at("Ly_cell_ylow")], Lh=[fxa(v, S) for v in at("Ly_cell_yhigh")])
            R = q["R0"] + q["dx"] * np.arange(nx)
            w = lambda lo, hi: [fx(reflen(R_, q["a"], q["cz"], sub, lo, hi), S) for R_ in R]
            ev.update(wm=w(-r, r), wl=w(-2 * r, 0), wh=w(0, 2 * r), arc=fxa(R * dy, 100), rise=fx(2 * r * q["cz"], 100), tol=5)
            if q["a"] == 0:        # the spec squares these
                ev["L100"] = 1
                ev.update(L=[fxa(v, 100) for v in at("Ly")], wm=[fx(reflen(R_, 0, q["cz"], sub, -r, r), 100) for R_ in R])
                ev["tol"] = 5
        evs.append(ev)
    return evs

def flatmaps(m, names):
    return fxa(np.concatenate([np.ravel(m[n]) for n in names]), 100000)

def grids(sc):
    ny = sc["ny"]; ys = np.linspace(0, 2 * np.pi, ny, endpoint=False); per = sc["per"]
    if sc["g"] == "rect":
        return Grid(RectangularPoloidalGrid(sc["nx"], 6, 1.0, 1.0, 3.0, 0.0), ys, 2 * np.pi, yperiodic=per)
    return Grid(grid_annulus(circle(R0=3.0, r=0.2, n=20), circle(R0=3.0, r=0.6, n=20), sc["nx"], 8, show=False), ys, 2 * np.pi, yperiodic=per)

def fields(n):
    if n == "ellipse":
        return zf.RotatingEllipse(xcentre=3.0, I_coil=0.02, radius=1.2, yperiod=2 * np.pi, Btor=2.5)
    if n == "pinch":
        return zf.Screwpinch(xcentre=3.0, shear=0.02, Btor=2.5)
    return zf.CurvedSlab(By=1.0, Bz=0.05, xcentre=3.0, Bzprime=0.02, Rmaj=3.0)

def do_chunks(sc):
    g, f = grids(sc), fields(sc["f"])
    a, ea = call(make_maps, g, f, quiet=True, n_chunks=sc["ks"][0], refine_parallel_integral=sc["r"])
    b, eb = call(make_maps, g, f, quiet=True, n_chunks=sc["ks"][1], refine_parallel_integral=sc["r"])
    names = ["J"] + [n + p for n in ("Ly", "By") for p in ("", "_cell_ylow", "_cell_yhigh")]
    # lines of a chunk are integrated together, so the step sizes and rounding differ a little
    return [dict(ev="same", what="chunk_independent", exca=ea, excb=eb, a=flatmaps(a, names) if ea == "none" else [], b=flatmaps(b, names) if eb == "none" else [], tol=20)]

def do_slab(sc):
    g = Grid(RectangularPoloidalGrid(sc["nx"], 4, 1.0, 1.0, 2.0, 0.0), np.linspace(0, 4, 4, endpoint=False) + 0.5, 4.0, yperiodic=True)
    f = zf.Slab(By=2.0, Bz=0.1) if sc["cls"] == "slab" else fields("curved")
    m, e = call(make_maps, g, f, quiet=True, n_chunks=sc["k"], refine_parallel_integral=sc["r"])
    if e != "none":
        return [dict(ev="exc", exc=e, detail="slab")]
    has = sorted(n for n in m if n.split("_")[0] in ("J", "Ly", "By"))
    want = ["By", "By_cell_ylow", "By_cell_yhigh"] + (["J", "Ly", "Ly_cell_ylow", "Ly_cell_yhigh"] if sc["cls"] != "slab" else [])
    evs = [dict(ev="names", has=has, want=want)]
    By = fxa(np.concatenate([np.ravel(m[n]) for n in ("By", "By_cell_ylow", "By_cell_yhigh")]), 1000)
    evs.append(dict(ev="same", what="uniform_field", exca="none", excb="none", a=By, b=[2000 if sc["cls"] == "slab" else 1000] * len(By), tol=1))
    return evs

def do_len(sc):
    n = sc["n"]
    s = np.linspace(0, 1, n)
    if sc["nonuni"]:
        s = 0.7 * s + 0.3 * s**2
    y = sc["y0"] + sc["dy"] * s
    t = y - y[0]
    sh = tuple(sc["shape"])
    k = 1 + np.arange(int(np.prod(sh))).reshape(sh) * 0.3 if sh else np.array(1.0)
    tt = t.reshape((-1,) + (1,) * len(sh))
    R = sc["R0"] + 0.5 * np.ones(sh) + sc["a"] * 0.1 * k * tt; Z = sc["c"] * k * tt
    got, e = call(field_line_length, np.stack([R, Z], axis=-1), y)
    u = np.linspace(0, t[-1], 20001)
    want = []
    for kk in np.ravel(k):
        Ru = sc["R0"] + 0.5 + sc["a"] * 0.1 * kk * u
        f = np.sqrt((sc["a"] * 0.1 * kk) ** 2 + (sc["c"] * kk) ** 2 + Ru**2)
        want.append(np.sum((f[1:] + f[:-1]) / 2) * abs(t[-1]) / 20000)
    return [dict(ev="same", what="line_length", exca=e, excb="none", a=fxa(np.ravel(got), 10000) if e == "none" else [], b=fxa(want, 10000), tol=20)]

def do_area(sc):
    """uniform field along circles: the volume element is R times the area element"""
    from zoidberg.rzline import shaped_line
    pols = [grid_annulus(circle(R0=3.0 + sc["dR"], r=0.2 + 0.05 * j, n=20), shaped_line(R0=3.0, a=0.8, elong=sc["el"], n=30), sc["nx"], sc["nz"], show=False) for j in range(sc["ny"])]
    dy = np.pi / 2
    g = Grid(pols, dy * np.arange(sc["ny"]), dy * sc["ny"], yperiodic=True)
    class F(MagneticField):
        def Byfunc(self, x, z, phi): return 2.0 + 0 * np.asarray(x)
        def Rfunc(self, x, z, phi): return x
    m, e = call(make_maps, g, F(), quiet=True, n_chunks=sc["k"], refine_parallel_integral=sc["r"], field_tracer=Tracer(dict(a=0, cz=0), 1.0))
    if e != "none":
        return [dict(ev="exc", exc=e, detail="area")]
    evs = []
    for j, p in enumerate(pols):
        mt = p.metric()
        want = np.sqrt(mt["g_xx"] * mt["g_zz"] - mt["g_xz"] ** 2) * p.R
        evs.append(dict(ev="same", what="area_element", exca="none", excb="none", a=fxa(np.ravel(m["J"][:, j, :]), 100000), b=fxa(np.ravel(want), 100000), tol=2))
        evs.append(dict(ev="same", what="circle_length", exca="none", excb="none", a=fxa(np.ravel(m["Ly"][:, j, :]), 10000), b=fxa(np.ravel(p.R) * dy, 10000), tol=3))
    return evs
