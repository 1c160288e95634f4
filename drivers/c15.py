"""C15: interrupted generation of the perpendicular operator"""
import os, shutil, sys, tempfile
import numpy as np
from netCDF4 import Dataset
from vf import call
import zoidberg.zoidberg as zz
from zoidberg.field import MagneticField, Slab
from zoidberg.grid import Grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
from zoidberg.zoidberg import MapWriter

MC = "MCDagp"
TRACE = "TraceDagp"
ASSUMPTIONS = ["an interruption is an exception at any executed line of the writer (or inside the coefficient calculation) after which the file is closed; killing the process in the middle of an HDF5 write is outside this check"]

class Interrupted(BaseException):
    pass

def planes(np_, kind, cb):
    """distinct planes that tell when they are evaluated"""
    pols = []
    i, k = np.meshgrid(np.arange(5), np.arange(6), indexing="ij")
    for j in range(np_):
        base = RectangularPoloidalGrid if kind == "rect" else StructuredPoloidalGrid
        class P(base):
            which = None
            def getCoordinate(self, *a, **kw):
                if self.which is not None:
                    cb(self.which)
                return super().getCoordinate(*a, **kw)
        if kind == "rect":
            p = P(5, 6, 1.0 + 0.1 * j, 2.0, 3.0, 0.0)
        else:
            r = 0.5 + 0.1 * i + 0.02 * j; th = (k + 0.1 * i) * 2 * np.pi / 6
            p = P(3.0 + r * np.cos(th), (1 + 0.1 * j) * r * np.sin(th))
        p.which = j
        pols.append(p)
    return pols

class Fld(MagneticField):
    def Byfunc(self, x, z, phi):
        return 1.0 + 0 * x

def scenarios(mc, rng, tier):
    scs = []
    for m in mc:
        scs.append(dict(kind="model", crashes=m["crashes"], np=m["np"], grid=rng.choice(["rect", "ann"]), slab=rng.random() < 0.5, seed=rng.randrange(10**6)))
    if tier == "quick":
        scs = rng.sample(scs, min(len(scs), 150))
    # every executed line of the writer as interruption point
    for np_ in ((2, 3) if tier == "quick" else (1, 2, 3, 5)):
        for part in range(8):
            scs.append(dict(kind="lines", np=np_, part=part, parts=8, grid="ann" if np_ == 2 else "rect", slab=np_ == 3, seed=rng.randrange(10**6)))
    for r in range(16 if tier == "quick" else 300):
        scs.append(dict(kind="many", np=rng.randint(2, 6), n=rng.randint(2, 6), grid=rng.choice(["rect", "ann"]), slab=rng.random() < 0.5, seed=rng.randrange(10**6)))
    return scs

def execute(sc):
    d = tempfile.mkdtemp(prefix="dagp_", dir=os.environ.get("VF_WORK"))
    try:
        return globals()["do_" + sc["kind"]](sc, d)
    finally:
        shutil.rmtree(d)

FILE = zz.__file__

class World:
    def __init__(self, sc, d):
        self.sc, self.d = sc, d
        self.evs = []
        self.calls = None
        self.crash_call = None
        self.field = Slab() if sc["slab"] else Fld()
        self.grid = Grid(planes(sc["np"], sc["grid"], self.cb), np.arange(sc["np"]) * 1.0, 1.0 * sc["np"], yperiodic=True)
        self.cur = None
        # reference: uninterrupted, in its own file
        self.n = 0
        self.ref = None
        fn = os.path.join(d, "ref.nc")
        self.go(fn, True)
        self.ref = self.content(fn)
        self.evs = []

    def cb(self, j):
        if j != self.cur:
            self.cur = j
            self.evs.append(dict(ev="plane", p=j))
        if self.calls is not None:
            self.calls += 1
            if self.calls == self.crash_call:
                raise Interrupted()

    def go(self, fn, create, line=None, at=None, dry=False):
        """one run, interrupted at the line-th line executed in the writer, or at (plane, step)"""
        self.evs.append(dict(ev="run"))
        self.cur = None
        cnt = [0]
        log = []
        crashed = False
        def local(frame, event, arg):
            if event == "line" and frame.f_code.co_filename == FILE:
                cnt[0] += 1
                if dry:
                    log.append((self.cur, cnt[0]))
                if line is not None and cnt[0] == line:
                    raise Interrupted()
            return local
        def tr(frame, event, arg):
            return local if frame.f_code.co_filename == FILE else None
        exc = "none"
        try:
            with MapWriter(fn, create=create, quiet=True) as mw:
                mw.add_grid_field(self.grid, self.field)
                self.cur = None
                n0 = len(self.evs)
                sys.settrace(tr)
                try:
                    mw.add_dagp()
                finally:
                    sys.settrace(None)
        except Interrupted:
            crashed = True
        except Exception as e:                                       # noqa
            exc = type(e).__name__
        self.lines = cnt[0]
        self.log = log
        if self.ref is not None:
            c = self.content(fn)
            ok = [all(k in c and c[k].shape == v.shape and np.array_equal(c[k][:, p], v[:, p], equal_nan=True) for k, v in self.ref.items() if k.startswith("dagp")) for p in range(self.sc["np"])]
            other = all(k in c and np.array_equal(c[k], v) for k, v in self.ref.items() if k in ("R", "Z"))
            self.evs.append(dict(ev="stop", crashed=crashed, exc=exc, ok=ok, other=bool(other)))
        return crashed

    def content(self, fn):
        with Dataset(fn) as f:
            f.set_auto_mask(False)
            return {k: np.asarray(v[...]) for k, v in f.variables.items()}

    def fresh(self):
        self.n += 1
        self.evs.append(dict(ev="reset", np=self.sc["np"]))
        return os.path.join(self.d, f"f{self.n}.nc")

    def finish(self, fn, create):
        self.go(fn, create)
        self.go(fn, False)          # once more on a complete file

def do_lines(sc, d):
    w = World(sc, d)
    w.go(os.path.join(d, "dry.nc"), True)
    total = w.lines
    w.evs = []
    for n in range(1 + sc["part"], total + 1, sc["parts"]):
        fn = w.fresh()
        crashed = w.go(fn, True, line=n)
        w.finish(fn, False)
        os.remove(fn)
    return w.evs

def do_model(sc, d):
    """the model's interruption points: (plane, step) -> the lines executed while that plane was current"""
    w = World(sc, d)
    rng = np.random.default_rng(sc["seed"])
    fn = w.fresh()
    create = True
    for c in sc["crashes"]:
        # a dry run on a copy tells which lines belong to the plane
        cp = os.path.join(d, "copy.nc")
        if not create:
            shutil.copy(fn, cp)
        keep = w.evs; w.evs = []
        w.go(cp, create, dry=True)
        w.evs = keep
        os.remove(cp)
        ls = [n for cur, n in w.log if cur == c["plane"]] or [n for cur, n in w.log]
        k = ls[min(len(ls) - 1, (c["step"] * len(ls)) // 7 + int(rng.integers(0, max(1, len(ls) // 7))))]
        w.go(fn, create, line=k)
        create = False
    w.finish(fn, create)
    return w.evs

def do_many(sc, d):
    """several interruptions, some inside the coefficient calculation"""
    w = World(sc, d)
    rng = np.random.default_rng(sc["seed"])
    fn = w.fresh()
    create = True
    for _ in range(sc["n"]):
        if rng.random() < 0.5:
            w.calls, w.crash_call = 0, int(rng.integers(1, 4 * sc["np"] + 1))
            w.go(fn, create)
            w.calls = None
        else:
            w.go(fn, create, line=int(rng.integers(1, 40 * sc["np"])))
        create = False
    w.finish(fn, create)
    return w.evs
