"""C14: contents of grid files (MapWriter, write_maps)"""
import os, shutil, tempfile
import numpy as np
from vf import fx, fxa, call
from zoidberg.field import MagneticField, Slab
from zoidberg.grid import Grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
from zoidberg.zoidberg import MapWriter, get_metric, make_maps, write_maps

MC = "MCWriter"
TRACE = "TraceWriter"
HEAP = "3g"
ASSUMPTIONS = ["planes are equally spaced in y", "landing positions of a parallel slice form a z-periodic curvilinear grid",
               "slices across the end of an open domain are not judged"]
SCALE = 100000

class F(MagneticField):
    """y dependent (periodic over Ly), with attributes and pressure; Cartesian or cylindrical"""
    def __init__(self, k, Ly, cyl):
        self.k, self.Ly, self.cyl = k, Ly, cyl
        self.attributes = {"psi": lambda x, z, phi: x + 2 * z + k + 0.1 * np.cos(2 * np.pi * phi / Ly)}
        if k == 2:
            self.attributes["extra_attr"] = lambda x, z, phi: x * z + phi
    def Bxfunc(self, x, z, phi):
        return 0.02 * self.k * np.cos(2 * np.pi * phi / self.Ly) + 0.0 * np.asarray(x)
    def Bzfunc(self, x, z, phi):
        return 0.03 * np.sin(2 * np.pi * phi / self.Ly) + 0.01 * self.k + 0.0 * np.asarray(x)
    def Byfunc(self, x, z, phi):
        return 1.0 + 0.5 * self.k + 0.02 * np.asarray(x) + 0.1 * np.cos(2 * np.pi * phi / self.Ly)
    def Rfunc(self, x, z, phi):
        return np.asarray(x) * 1.0 if self.cyl else None
    def pressure(self, x, z, phi):
        return 0.1 * np.asarray(x) ** 2 + 0.3 * self.k + 0.05 * np.sin(2 * np.pi * phi / self.Ly)

_cache = {}
def world(kind, nslice, per):
    """grid, fields, two sets of maps, and everything the file should contain"""
    key = (kind, nslice, per)
    if key in _cache:
        return _cache[key]
    ny, Ly = 4, 2 * np.pi
    nx, nz = 6, 8
    ys = np.linspace(0, Ly, ny, endpoint=False) if per else (np.arange(ny) + 0.5) * Ly / ny
    if kind == "rect":
        pols = [RectangularPoloidalGrid(nx, nz, 2.0, 4.0, 5.0 + 0.1 * j, 0.0) for j in range(ny)]
    else:
        i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
        pols = []
        for j in range(ny):
            r = 0.5 + 0.1 * i + 0.01 * j; th = (k + 0.1 * i) * 2 * np.pi / nz
            pols.append(StructuredPoloidalGrid(3.0 + r * np.cos(th), r * np.sin(th) + 0.02 * j))
    grid = Grid(pols, ys, Ly, yperiodic=per)
    fields = {1: F(1, Ly, kind != "rect"), 2: F(2, Ly, kind != "rect"), 3: Slab(By=1.3, Bz=0.1, Bzprime=0.02)}
    maps = {n: make_maps(grid, fields[n if kind != "slab" else 1], nslice=nslice, quiet=True, refine_parallel_integral=2, n_chunks=2) for n in (1, 2)}
    for n in maps:
        maps[n]["my_map"] = np.random.default_rng(n).uniform(-1, 1, grid.shape)
    # --- expected: metric of (maps m, field f)
    metric, slices = {}, {}
    for m in (1, 2):
        metric[m], slices[m] = {}, {}
        for f in (1, 2):
            g = {}
            met, _ = get_metric(Grid(list(pols), ys, Ly, yperiodic=per), fields[f])
            met = {k: np.array(v) for k, v in met.items()}
            lst = []
            for k in ("dx", "dy", "dz", "gyy", "gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz", "Bxy", "B", "pressure"):
                lst.append(dict(comp=k, post="", v=fxa(met[k], SCALE)))
            L = maps[m]
            for post in ("", "_cell_ylow", "_cell_yhigh"):
                lst.append(dict(comp="g_yy", post=post, v=fxa((L["Ly" + post] / met["dy"]) ** 2, SCALE)))
            metric[m][f] = lst
            sl = []
            for off in [o for a in range(1, nslice + 1) for o in (a, -a)]:
                suffix = "" if abs(off) == 1 else f"_{abs(off)}"
                pre = ("forward_" if off > 0 else "backward_")
                R, Z = L[pre + "R" + suffix], L[pre + "Z" + suffix]
                planes = [j + 1 for j in range(ny) if per or 0 <= j + off < ny]
                vals = {k: np.zeros(grid.shape) for k in ("B", "Bxy", "pressure", "g_yy", "gyy", "g_xx", "g_xz", "g_zz", "gxx", "gxz", "gzz", "dx", "dz")}
                for j in range(ny):
                    jj = (j + off) % ny
                    B, By = fields[f].Bmag(R[:, j], Z[:, j], ys[jj]), fields[f].Byfunc(R[:, j], Z[:, j], ys[jj])
                    R2 = fields[f].Rfunc(R[:, j], Z[:, j], ys[jj])
                    R2 = 1.0 if R2 is None else R2**2
                    vals["B"][:, j] = vals["Bxy"][:, j] = B
                    vals["pressure"][:, j] = fields[f].pressure(R[:, j], Z[:, j], ys[jj])
                    vals["g_yy"][:, j] = R2 * (B / By) ** 2
                    vals["gyy"][:, j] = 1.0 / (R2 * (B / By) ** 2)
                    pm = StructuredPoloidalGrid(R[:, j], Z[:, j]).metric()
                    for k in ("g_xx", "g_xz", "g_zz", "gxx", "gxz", "gzz", "dx", "dz"):
                        vals[k][:, j] = pm[k]
                for k, v in vals.items():
                    sl.append(dict(comp=k, off=off, planes=planes, v=fxa(v, SCALE)))
            slices[m][f] = sl
    w = dict(grid=grid, fields=fields, maps=maps, metric=[[metric[m][f] for f in (1, 2)] for m in (1, 2)],
             slices=[[slices[m][f] for f in (1, 2)] for m in (1, 2)], ys=ys, pols=pols,
             attrs=[{k: fxa(np.stack([fields[f].attributes[k](p.R, p.Z, y) for p, y in zip(pols, ys)], axis=1), SCALE) for k in fields[f].attributes} for f in (1, 2)],
             extra=[fxa(np.arange(np.prod(grid.shape)).reshape(grid.shape) * n * 0.01, SCALE) for n in (1, 2)],
             jmaps=[{k: fxa(v, SCALE) for k, v in maps[m].items() if isinstance(v, np.ndarray) and v.ndim == 3} for m in (1, 2)])
    _cache[key] = w
    return w

def scenarios(mc, rng, tier):
    scs = []
    full = [m for m in mc if "maps" in [o["a"] for o in m["ops"]]]
    hs = rng.sample(full, 90) + rng.sample(mc, 40) if tier == "quick" else rng.sample(full, 1500) + rng.sample(mc, 700)
    for k, h in enumerate(hs):
        ops = list(h["ops"])
        scs.append(dict(kind="hist", ops=ops, newn=h["newn"], m2d=rng.random() < 0.4, world=rng.choice([("ann", 1, True), ("ann", 2, True), ("ann", 1, False), ("rect", 1, True)]), finish=rng.random() < 0.7, seed=rng.randrange(10**6)))
    for m2d in (True, False, None):
        for newn in (True, False):
            for w in [("ann", 1, True), ("ann", 2, False), ("rect", 2, True)]:
                scs.append(dict(kind="plain", world=w, m2d=m2d, newn=newn))
    scs.append(dict(kind="slab", key="rectpar"))
    return scs

def execute(sc):
    d = tempfile.mkdtemp(prefix="writer_", dir=os.environ.get("VF_WORK"))
    old = os.getcwd()
    try:
        os.chdir(d)
        return globals()["do_" + sc["kind"]](sc, d)
    finally:
        os.chdir(old)
        shutil.rmtree(d)

def copymaps(m):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()}

def read(fn, w, m2d, nslice, otherids, pure):
    from netCDF4 import Dataset
    with Dataset(fn) as f:
        vs = {}
        for k, v in f.variables.items():
            a = np.asarray(v[...])
            if a.dtype.kind in "iuf":
                vs[k] = int(a) if a.ndim == 0 and a.dtype.kind in "iu" else fxa(a, SCALE)
        at = {k: f.getncattr(k) for k in f.ncattrs()}
    g = w["grid"]
    return dict(ev="read", vars=vs, R=fxa(np.stack([p.R for p in w["pols"]], axis=1), SCALE), Z=fxa(np.stack([p.Z for p in w["pols"]], axis=1), SCALE), metric=w["metric"], slices=w["slices"], attrs=w["attrs"],
                extra=w["extra"], maps=w["jmaps"], m2d=bool(m2d), shape=list(g.shape), id=str(at.get("grid_id", "")), id2=str(at.get("id", "")), software=str(at.get("software_name", "")), otherids=otherids, nslice=nslice, pure=pure)

def do_hist(sc, d):
    w = world(*sc["world"])
    fn = os.path.join(d, "f.nc")
    evs = [dict(ev="reset", newn=bool(sc["newn"]))]
    mw = MapWriter(fn, new_names=bool(sc["newn"]), metric2d=sc["m2d"], quiet=True)
    mw_open = False
    ops = list(sc["ops"])
    if sc["finish"]:
        # bring the history to an end with complete contents
        ops += [dict(a="open", n=0), dict(a="field", n=1), dict(a="grid", n=0), dict(a="maps", n=1)] if not is_open(ops) else [dict(a="field", n=1), dict(a="grid", n=0), dict(a="maps", n=1)]
    newns = {bool(sc["newn"])}
    opened = False
    rng = np.random.default_rng(sc["seed"])
    for op in ops:
        a, n = op["a"], op["n"]
        exc = "none"
        if a == "open":
            _, exc = call(mw.open); mw_open = opened = True
        elif a == "close":
            if mw_open:
                mw.__exit__(None, None, None); mw_open = False
            else:
                exc = "closed"
        elif a == "field":
            _, exc = call(mw.add_field, w["fields"][n])
        elif a == "grid":
            _, exc = call(mw.add_grid, w["grid"])
        elif a == "write":
            _, exc = call(mw.write_dict, dict(extra=np.arange(np.prod(w["grid"].shape)).reshape(w["grid"].shape) * n * 0.01))
        elif a == "bad":
            v = np.ones(w["grid"].shape); v.flat[int(rng.integers(v.size))] = rng.choice([np.nan, np.inf, -np.inf])
            _, exc = call(mw.write_dict, dict(bad=v))
        elif a == "maps":
            _, exc = call(mw.add_maps, copymaps(w["maps"][n]))
        elif a == "badmaps":
            m = copymaps(w["maps"][1])
            k = sorted(k for k in m if isinstance(m[k], np.ndarray) and m[k].ndim == 3)
            k = k[int(rng.integers(len(k)))]
            m[k].flat[int(rng.integers(m[k].size))] = rng.choice([np.nan, np.inf])
            _, exc = call(mw.add_maps, m)
        elif a == "session":
            mw.__exit__(None, None, None)
            mw = MapWriter(fn, new_names=bool(n), metric2d=sc["m2d"], quiet=True, create=False)
            newns.add(bool(n))
            mw.open()
        evs.append(dict(ev="op", a=a, n=n, exc=exc))
    if mw_open:
        mw.__exit__(None, None, None)
        evs.append(dict(ev="op", a="close", n=0, exc="none"))
    if opened:
        evs.append(read(fn, w, sc["m2d"], sc["world"][1], [], len(newns) == 1))
    return evs

def is_open(ops):
    o = False
    for op in ops:
        o = True if op["a"] in ("open", "session") else False if op["a"] == "close" else o
    return o

def do_plain(sc, d):
    """write_maps = one session; two files get different ids"""
    w = world(*sc["world"])
    evs, ids = [], []
    for k in (1, 2):
        fn = os.path.join(d, f"f{k}.nc")
        kw = {} if sc["m2d"] is None else dict(metric2d=sc["m2d"])
        write_maps(w["grid"], w["fields"][k], copymaps(w["maps"][k]), gridfile=fn, new_names=sc["newn"], quiet=True, **kw)
        evs += [dict(ev="reset", newn=sc["newn"])] + [dict(ev="op", a=a, n=n, exc="none") for a, n in (("open", 0), ("field", k), ("grid", 0), ("maps", k), ("close", 0))]
        r = read(fn, w, True if sc["m2d"] is None else sc["m2d"], sc["world"][1], list(ids), True)
        ids.append(r["id"])
        evs.append(r)
    return evs

def do_slab(sc, d):
    """straight field in a rectangle: every slice has the metric of the rectangle"""
    from zoidberg.grid import rectangular_grid
    from netCDF4 import Dataset
    g = rectangular_grid(8, 4, 8, Ly=4.0, yperiodic=True)
    f = Slab(By=1.0, Bz=0.0, Bzprime=0.0)
    m = make_maps(g, f, quiet=True, refine_parallel_integral=2)
    fn = os.path.join(d, "s.nc")
    write_maps(g, f, m, gridfile=fn, metric2d=False, quiet=True)
    with Dataset(fn) as nc:
        v = {k: np.asarray(nc.variables[k][...]) for k in ("g_33", "dz", "forward_g_33", "forward_dz")}
    a, b = v["g_33"] * v["dz"] ** 2, v["forward_g_33"] * v["forward_dz"] ** 2
    return [dict(ev="uniform", g=[fx(q, 1000) for q in np.ravel(b / a)], want=1000, tol=20, what="slice_metric_of_rectangle")]
