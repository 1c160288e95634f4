"""C09: metrics (Grid.metric, get_metric, PoloidalGrid.metric)"""
import numpy as np
from vf import fx, fxa
from zoidberg.field import MagneticField
from zoidberg.grid import Grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
from zoidberg.zoidberg import get_metric

MC = "MCMetric"
TRACE = "TraceMetric"
ASSUMPTIONS = ["planes are equally spaced in y", "annuli are regular; their z derivatives carry the grid's own spline error (tolerance 1/400)"]

class F(MagneticField):
    def __init__(self, f):
        self.f = f
    def Bxfunc(self, x, z, phi):
        return np.full(np.shape(x), float(self.f["bx"]))
    def Byfunc(self, x, z, phi):
        return np.full(np.shape(x), float(self.f["by0"] + self.f["by1"] * phi))
    def Bzfunc(self, x, z, phi):
        return self.f["bz0"] + self.f["bz1"] * np.asarray(x)
    def Rfunc(self, x, z, phi):
        f = self.f
        return f["r0"] + f["rx"] * np.asarray(x) + f["ry"] * phi + 0.0 * np.asarray(x) if f["cyl"] else None
    def pressure(self, x, z, phi):
        return np.full(np.shape(x), self.f["p"] + float(phi))

def rand_cfg(rng):
    ny = rng.randint(1, 3)
    if rng.random() < 0.5:
        nz = rng.randint(1, 3)
        pl = [dict(x0=rng.randint(0, 1), dx=rng.choice([1, 1, 2]), dz=rng.randint(1, 5), sh=0) for _ in range(ny)]
        c = dict(kind="rect", nx=5, nz=nz, ny=ny, pl=pl)
    else:
        c = dict(kind="ann", nx=6, nz=rng.choice([20, 24, 32]), ny=ny, pl=[dict(x0=rng.randint(10, 16), dx=rng.randint(2, 4), dz=0, sh=rng.choice([0, 0, 1])) for _ in range(ny)])
    return c

def rand_field(rng, c, k):
    r = c["kind"] == "rect"
    cyl = k != 1 and rng.random() < 0.8
    return dict(bx=rng.randint(-1, 1), by0=rng.choice([1, 2]), by1=rng.choice([0, 1]), bz0=rng.randint(-1, 1), bz1=rng.choice([0, 1]) if r and not cyl else 0,
                cyl=cyl, r0=rng.randint(1, 2), rx=1 if r and rng.random() < 0.5 else 0, ry=rng.choice([0, 1]), p=k * 10)

def scenarios(mc, rng, tier):
    scs = []
    hist = [list(m["ops"]) for m in mc]
    if tier == "quick":
        hist = [h for h in hist if len(h) < 4] + rng.sample([h for h in hist if len(h) >= 4], 60)
    for h in hist:
        c = rand_cfg(rng)
        scs.append(dict(c=c, ops=h, fs=[rand_field(rng, c, k) for k in (1, 2, 3)], per=rng.random() < 0.5, same=rng.random() < 0.3))
    return scs

def plane(c, p):
    nx, nz = c["nx"], c["nz"]
    if c["kind"] == "rect":
        return RectangularPoloidalGrid(nx, nz, float(p["dx"] * (nx - 4)), float(p["dz"] * nz), p["x0"] + p["dx"] * (nx - 1) / 2.0, 0.0)
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    r = p["x0"] + i * p["dx"]; th = (k + p["sh"] * i) * 2 * np.pi / nz
    return StructuredPoloidalGrid(100 + r * np.cos(th), r * np.sin(th))

def mm(a, scale):
    """[y][x] -> [min, max] over z"""
    a = np.asarray(a, dtype=float)
    return [[[fx(np.min(a[i, j, :]), scale), fx(np.max(a[i, j, :]), scale)] for i in range(a.shape[0])] for j in range(a.shape[1])]

def execute(sc):
    c = sc["c"]
    if sc["same"]:
        c = dict(c, pl=[c["pl"][0]] * c["ny"])
        pols = plane(c, c["pl"][0])
    else:
        pols = [plane(c, p) for p in c["pl"]]
    g = Grid(pols, np.arange(c["ny"], dtype=float), float(c["ny"]), yperiodic=sc["per"])
    fields = [F(f) for f in sc["fs"]]
    shape = (c["nx"], c["ny"], c["nz"])
    evs = []
    for o in sc["ops"]:
        if o == 0:
            m = g.metric()
        else:
            m, _ = get_metric(g, fields[o - 1])
        m = {k: np.array(v, dtype=float) for k, v in m.items()}
        shapes = all(v.shape == shape for v in m.values())
        ev = dict(ev="ans", c=c, op=o, f=sc["fs"][max(o - 1, 0)], shapes=bool(shapes))
        dx, dz = m["dx"], m["dz"]
        ev["sxx"] = mm(dx * dx * m["g_xx"], 1000); ev["szz"] = mm(dz * dz * m["g_zz"], 1000); ev["sxz"] = mm(dx * dz * m["g_xz"], 1000)
        G = np.array([[m["g_xx"], m["g_xz"]], [m["g_xz"], m["g_zz"]]]); H = np.array([[m["gxx"], m["gxz"]], [m["gxz"], m["gzz"]]])
        I = np.einsum("ij...,jk...->ik...", G, H) - np.eye(2).reshape(2, 2, 1, 1, 1)
        ev["invdev"] = fx(np.max(np.abs(I)), 1000000)
        ev["posdef"] = bool(np.all(m["g_xx"] > 0) and np.all(m["g_zz"] > 0) and np.all(m["g_xx"] * m["g_zz"] > m["g_xz"]**2) and np.all(m["gxx"] > 0) and np.all(m["gzz"] > 0) and np.all(dx > 0) and np.all(dz > 0))
        ev["dy"] = mm(m["dy"], 1000000)
        ev["gyy"] = mm(m["g_yy"], 1000); ev["cyy"] = mm(m["gyy"], 1000000)
        ev["extra"] = bool(set(m) & {"B", "Bxy", "pressure"})
        if o:
            ev["b2"] = mm(m["B"]**2, 1000); ev["p"] = mm(m["pressure"], 1000)
            if not np.array_equal(m["B"], m["Bxy"]):
                ev["b2"] = mm(m["B"] * 0 - 1, 1000)
        evs.append(ev)
    return evs
