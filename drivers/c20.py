"""C20: magnetic field objects"""
import os, shutil, tempfile
import numpy as np
from vf import fx, fxa, ints, call
from eqdsk import Eq
from zoidberg import field as zf
from zoidberg.field import MagneticField

MC = "MCFields"
TRACE = "TraceFields"
ASSUMPTIONS = ["a user does not write into the attributes dictionary shared by the field classes"]
S = 100000
EXTRA = ["curved", "stellarator", "ellipse", "pinch", "fusionsc"]

def scenarios(mc, rng, tier):
    hs = [m["h"] for m in mc]
    hs = rng.sample(hs, 120) if tier == "quick" else rng.sample(hs, 3000)
    scs = []
    for h in hs:
        h = [dict(o) for o in h]
        # some kinds are replaced by ones the model treats alike
        if rng.random() < 0.5:
            m = {k: rng.choice(EXTRA) for k in ("slab",)}
            h = [dict(o, k=m.get(o["k"], o["k"])) for o in h]
        scs.append(dict(kind="hist", h=h))
    for _ in range(60 if tier == "quick" else 3000):
        n = rng.randint(4, 10)
        ks = ["slab", "geqdsk", "geqdsk2", "custom"] + EXTRA
        h, made = [], 0
        for _ in range(n):
            if made == 0 or (rng.random() < 0.5 and made < 5):
                h.append(dict(a="make", k=rng.choice(ks), p=rng.randint(1, 2))); made += 1
            else:
                h.append(dict(a="ask", k="", p=rng.randint(1, made)))
        scs.append(dict(kind="hist", h=h))
    for _ in range(150 if tier == "quick" else 4000):
        n = rng.randint(1, 7)
        scs.append(dict(kind="dir", n=n, B=[[rng.choice([-7, -2, -1, 0, 1, 3, 9]), rng.choice([-6, -3, -1, 1, 2, 8]), rng.choice([-5, 0, 2, 4])] for _ in range(n)], R=[rng.randint(1, 9) for _ in range(n)],
                        cyl=rng.random() < 0.6, flatten=rng.random() < 0.5, xyz=rng.random() < 0.3, bad=rng.choice([None, None, 0.0, 5e-9, -5e-9]), at=rng.randrange(n), y=rng.randint(-5, 20), shape=rng.choice([0, 0, 1])))
    return scs

class Custom(MagneticField):
    def __init__(self, p):
        self.p = p
        self.attributes = {"mine": lambda x, z, phi: p * x + z}
    def Bxfunc(self, x, z, phi): return self.p * np.asarray(z) + phi
    def Byfunc(self, x, z, phi): return 2.0 + self.p + 0.4 * np.sin(phi) + 0 * np.asarray(x)
    def Bzfunc(self, x, z, phi): return 0.5 * np.asarray(x) * np.cos(phi)
    def Rfunc(self, x, z, phi): return x

class FakeFsc:
    def __init__(self, p): self.p = p
    def interpolateXyz(self, xyz):
        X, Y, Z = [np.asarray(a, float) for a in xyz]
        return np.array([-Y * self.p + 0.3 * X, X * self.p + 0.1 * Z, 0.2 * X - 0.4 * Y])

def coils(x, z, phi, xc0, zc0, rad, per, I):
    Bx = Bz = 0.0
    for i in range(4):
        a = i * np.pi / 2 + 2 * np.pi / per * phi
        xc, zc = xc0 + rad * np.cos(a), zc0 + rad * np.sin(a)
        r2 = (x - xc) ** 2 + (z - zc) ** 2
        c = (-1) ** i * I * 0.2
        Bx, Bz = Bx + c * (z - zc) / r2, Bz - c * (x - xc) / r2
    return Bx, Bz

def make(kind, p, d):
    """-> the field, and a function giving (Bx, By, Bz, attributes, pressure) from formulas"""
    if kind == "slab":
        return zf.Slab(By=1.0 + p, Bz=0.1 * p, xcentre=0.5, Bzprime=0.3 * p), lambda x, z, y: (0 * x, 1.0 + p + 0 * x, 0.1 * p + 0.3 * p * (x - 0.5), None, 0 * x)
    if kind == "curved":
        return zf.CurvedSlab(By=2.0 - p, Bz=0.2 * p, xcentre=-0.5, Bzprime=0.1, Rmaj=2.0 + p) if p != 2 else zf.CurvedSlab(By=3.0, Bz=0.4, xcentre=-0.5, Bzprime=0.1, Rmaj=4.0), \
            (lambda x, z, y: (0 * x, 1.0 + 0 * x, 0.2 + 0.1 * (x + 0.5), None, 0 * x)) if p == 1 else (lambda x, z, y: (0 * x, 3.0 + 0 * x, 0.4 + 0.1 * (x + 0.5), None, 0 * x))
    if kind == "stellarator":
        a = dict(xcentre=0.1 * p, zcentre=0.2, radius=4.0, yperiod=2.0 + p, I_coil=0.3 * p)
        return zf.StraightStellarator(**a), lambda x, z, y: (lambda b: (b[0], 1.0 + 0 * x, b[1], None, 0 * x))(coils(x, z, y, 0.1 * p, 0.2, 4.0, 2.0 + p, 0.3 * p))
    if kind == "ellipse":
        a = dict(xcentre=2.0, zcentre=0.1 * p, radius=3.0, yperiod=3.0, I_coil=0.4, Btor=1.0 + p)
        return zf.RotatingEllipse(**a), lambda x, z, y: (lambda b: (b[0], (1.0 + p) / x, b[1], None, 0 * x))(coils(x, z, y, 2.0, 0.1 * p, 3.0, 3.0, 0.4))
    if kind == "pinch":
        return zf.Screwpinch(xcentre=1.5, zcentre=0.1, shear=0.2 * p, Btor=1.0 + p), lambda x, z, y: (-0.2 * p * np.hypot(x - 1.5, z - 0.1) * (z - 0.1), (1.0 + p) / x, 0.2 * p * np.hypot(x - 1.5, z - 0.1) * (x - 1.5), None, 0 * x)
    if kind in ("geqdsk", "geqdsk2"):
        e = Eq(k=p + (2 if kind == "geqdsk2" else 0), nr=11, nz=15 if kind == "geqdsk" else 13, wall=kind == "geqdsk")
        fn = os.path.join(d, f"{kind}{p}.g")
        e.write(fn)
        f = zf.GEQDSK(fn)
        f._eq = e
        return f, lambda x, z, y: (-e.dZ(x, z) / x, None, e.dR(x, z) / x, e.psi(x, z), None)
    if kind == "fusionsc":
        fk = FakeFsc(p)
        def want(x, z, y):
            B = fk.interpolateXyz([x * np.cos(y), x * np.sin(y), z])
            return B[0] * np.cos(y) + B[1] * np.sin(y), -B[0] * np.sin(y) + B[1] * np.cos(y), B[2], None, 0 * x
        return zf.FusionSCField(fk), want
    return Custom(p), lambda x, z, y: (p * z + y, 2.0 + p + 0.4 * np.sin(y) + 0 * x, 0.5 * x * np.cos(y), p * x + z, 0 * x)

def ask(f, want, kind, rng):
    n = 5
    x, z, y = rng.uniform(1.2, 2.8, n), rng.uniform(-1.0, 1.4, n), float(rng.uniform(-1, 7))
    w = want(x, z, y)
    got = dict(Bx=f.Bxfunc(x, z, y), By=f.Byfunc(x, z, y), Bz=f.Bzfunc(x, z, y))
    if w[4] is not None:
        got["pressure"] = np.broadcast_to(f.pressure(x, z, y), x.shape)
    full = dict(Bx=w[0], By=w[1], Bz=w[2], pressure=w[4])
    wantd = {k: fxa(np.broadcast_to(v, x.shape), S) for k, v in full.items() if v is not None}
    R = f.Rfunc(x, z, y)
    if kind == "curved":
        wantd["R"] = [fx(f._wantR, S)] * n; got["R"] = R
    elif R is not None:
        wantd["R"] = fxa(x, S); got["R"] = np.broadcast_to(R, x.shape)
    # direction and magnitude follow
    dx, dz = f.field_direction([x, z], y)
    if w[1] is not None:
        Rr = 1.0 if R is None else R
        got["dx"] = dx; got["dz"] = dz
        wantd["dx"] = fxa(Rr * w[0] / w[1], S); wantd["dz"] = fxa(Rr * w[2] / w[1], S)
        got["B"] = f.Bmag(x, z, y); wantd["B"] = fxa(np.sqrt(w[0]**2 + w[1]**2 + w[2]**2), S)
    at = sorted(f.attributes)
    ag = fxa(f.attributes[at[0]](x, z, y), S) if at and w[3] is not None else []
    aw = fxa(w[3], S) if w[3] is not None else []
    out = np.broadcast_to(f.boundary.outside(x, y, z), x.shape)
    if kind == "geqdsk":
        import shapely
        pg = shapely.Polygon(np.array([f._eq.rlim, f._eq.zlim]).T)
        ow = [not pg.contains(shapely.Point(a, b)) for a, b in zip(x, z)]
    else:
        ow = [False] * n
    return dict(ev="ask", kind=kind, got={k: fxa(got[k], S) for k in wantd}, want=wantd, attrs=at, attrgot=ag, attrwant=aw, cyl=bool(R is not None), out=[bool(b) for b in out], outwant=ow, tol=2)

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def do_hist(sc):
    d = tempfile.mkdtemp(prefix="fld_", dir=os.environ.get("VF_WORK"))
    rng = np.random.default_rng(len(sc["h"]) * 7 + 1)
    objs, evs = [], []
    try:
        for o in sc["h"]:
            if o["a"] == "make":
                f, w = make(o["k"], o["p"], d)
                if o["k"] == "curved":
                    f._wantR = 3.0 if o["p"] == 1 else 4.0
                objs.append((f, w, o["k"]))
            else:
                f, w, k = objs[o["p"] - 1]
                evs.append(ask(f, w, k, rng))
        for f, w, k in objs:
            evs.append(ask(f, w, k, rng))
    finally:
        shutil.rmtree(d)
    return evs

def do_dir(sc):
    """integer field values at numbered points"""
    n = sc["n"]
    B = np.array(sc["B"], float)
    if sc["bad"] is not None:
        B[sc["at"], 1] = sc["bad"]
    seen = []
    class L(MagneticField):
        def _at(self, x, y, c):
            seen.append(float(np.asarray(y).flat[0]))
            return B[np.asarray(np.rint(x), int), c]
        def Bxfunc(self, x, z, phi): return self._at(x, phi, 0)
        def Byfunc(self, x, z, phi): return self._at(x, phi, 1)
        def Bzfunc(self, x, z, phi): return self._at(x, phi, 2)
        def Rfunc(self, x, z, phi): return np.array(sc["R"], float)[np.asarray(np.rint(x), int)] if sc["cyl"] else None
    if sc["xyz"]:
        class L2(L):
            def Bxyzfunc(self, x, z, phi):
                return tuple(self._at(x, phi, c) for c in range(3))
            def Bxfunc(self, x, z, phi): raise RuntimeError("not this one")
        f = L2()
    else:
        f = L()
    x = np.arange(n) * 1.0; z = -np.arange(n) * 2.0
    if sc["flatten"]:
        pos = np.column_stack((x, z)).flatten()
        keep = pos.copy()
        r, exc = call(f.field_direction, pos, float(sc["y"]), flatten=True)
        dx, dz = (r[0::2], r[1::2]) if exc == "none" else ([], [])
    else:
        xx, zz = (x, z) if not sc["shape"] or n % 2 else (x.reshape(2, -1), z.reshape(2, -1))
        r, exc = call(f.field_direction, [xx, zz], float(sc["y"]))
        if exc == "none" and np.shape(r[0]) != np.shape(xx):
            return [dict(ev="same", a=list(np.shape(r[0])), b=list(np.shape(xx)), what="shape")]
        dx, dz = (np.ravel(r[0]), np.ravel(r[1])) if exc == "none" else ([], [])
    R = sc["R"] if sc["cyl"] else [1] * n
    evs = [dict(ev="dir", small=sc["bad"] is not None, exc=exc, dx=fxa(dx, 1000), dz=fxa(dz, 1000), Bx=[b[0] for b in sc["B"]], By=[b[1] for b in sc["B"]], Bz=[b[2] for b in sc["B"]], R=R, y=ints(seen[0]) if seen else 0, yasked=sc["y"])]
    if sc["bad"] is None and not sc["xyz"]:
        m = f.Bmag(x, z, float(sc["y"]))
        evs.append(dict(ev="mag", B=sc["B"], Bx=[b[0] for b in sc["B"]], By=[b[1] for b in sc["B"]], Bz=[b[2] for b in sc["B"]], B2=fxa(np.asarray(m) ** 2, 1000)))
    return evs
