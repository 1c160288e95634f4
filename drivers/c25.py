"""C25: external services, replaced by stand-ins which record what they are asked"""
import os, shutil, sys, tempfile, types
import numpy as np
from vf import fx, fxa, ints, call
from zoidberg import field as zf
from zoidberg.fieldtracer import FusionSCTracer

MC = "MCService"
TRACE = "TraceService"
ASSUMPTIONS = ["stand-ins for the services (osa, fusionsc) behave like the real ones", "table meshes differ by more than the two decimals in the name of the file", "lines traced by fusionsc stay within one turn"]
HP = np.pi / 2
CUR = None           # the service in use

class ServiceError(Exception):
    pass

class Thing:
    pass

class Client:
    def __init__(self, url, **kw):
        self.types = types.SimpleNamespace(Points3D=Thing, MagneticConfig=Thing)
        self.service = self
    def magneticField(self, *a, osa_timeout=None):
        s = CUR
        s.calls += 1
        if isinstance(a[0], str):
            conf, pos = float(a[0]), a[1]
        else:
            pos, c = a[0], a[1]
            s.config = c
            conf = c.configIds if hasattr(c, "configIds") else 1
        if s.fails > 0:
            s.fails -= 1
            raise ServiceError("no answer")
        p = np.array([pos.x1, pos.x2, pos.x3], float)
        B = np.array(s.M, float) @ p
        B[2] += conf
        f = types.SimpleNamespace(x1=list(B[0]), x2=list(B[1]), x3=list(B[2]))
        return types.SimpleNamespace(field=f)

class Svc:
    def __init__(self, M, fails=0):
        self.M, self.fails, self.calls, self.config = M, fails, 0, None

def use(svc):
    global CUR
    CUR = svc
    m = types.ModuleType("osa"); m.Client = Client
    sys.modules["osa"] = m
    if hasattr(zf, "tracer"):
        zf.tracer = None

# what a table is made for: configuration and mesh (r, number of quarter turns + 1, z)
def keyspec(rng):
    out = {}
    seen = set()
    for k in (1, 2, 3):
        while True:
            v = dict(conf=rng.choice([0, 3, 7]), r0=rng.choice([4, 5]), nr=rng.choice([2, 3]), nphi=rng.choice([3, 5]), z0=rng.choice([-1, 0]), nz=rng.choice([2, 3]))
            if str(v) not in seen:
                seen.add(str(v)); out[str(k)] = v
                break
    # often tables which differ in one thing only
    if rng.random() < 0.7:
        b = dict(out["1"])
        for k, f in (("2", "conf"), ("3", rng.choice(["r0", "z0", "nphi"]))):
            out[k] = dict(b)
            out[k][f] = {"conf": {0: 3, 3: 7, 7: 0}, "r0": {4: 5, 5: 4}, "z0": {-1: 0, 0: -1}, "nphi": {3: 5, 5: 3}}[f][b[f]]
    return out

def mat(rng):
    return [[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)]

def scenarios(mc, rng, tier):
    scs = []
    for m in rng.sample(mc, 60 if tier == "quick" else 1200):
        scs.append(dict(kind="table", h=m["h"], keys=keyspec(rng), M=mat(rng)))
    for _ in range(60 if tier == "quick" else 1000):
        n = rng.randint(1, 6)
        scs.append(dict(kind="demand", M=mat(rng), conf=rng.choice([0, 2, 9]), pts=[[rng.randint(1, 9), rng.randint(0, 7), rng.randint(-5, 5)] for _ in range(n)], same=rng.random() < 0.5, fails=rng.choice([0, 0, 1, 2]), shape=rng.choice([0, 1])))
        scs.append(dict(scs[-1], kind="fsc", fails=0, conf=0, pts=[[p[0], p[1] - 4, p[2]] for p in scs[-1]["pts"]]))
    for _ in range(80 if tier == "quick" else 2000):
        k = rng.randint(1, 5)
        st = [rng.randint(1, 900) for _ in range(k)]
        y = np.cumsum([0] + st).tolist()
        scs.append(dict(kind="line", y0=rng.randint(-3000, 9000), y=y, back=rng.random() < 0.5, shape=rng.choice([[1], [4], [2, 3]]), a=rng.randint(-2, 2), c=rng.randint(-3, 3), opts=rng.choice([{}, {"targetError": 0.5}, {"stepSize": 0.1}]), rtols=[rng.choice([None, 1e-3, 1e-7]) for _ in range(rng.randint(1, 3))], seed=rng.randrange(10**6)))
    for c in (-1, "FMM002"):
        scs.append(dict(kind="conf", c=c))
    for w in ("vac", "vmec"):
        scs.append(dict(kind="range", w=w))
    for _ in range(10 if tier == "quick" else 100):
        scs.append(dict(kind="vmec", M=mat(rng), key=dict(conf=rng.choice([1, 4]), r0=4, nr=rng.choice([2, 3, 4]), nphi=5, z0=-1, nz=rng.choice([2, 3]))))
    return scs

def execute(sc):
    d = tempfile.mkdtemp(prefix="svc_", dir=os.environ.get("VF_WORK"))
    old = os.getcwd()
    os.chdir(d)
    try:
        return globals()["do_" + sc["kind"]](sc)
    finally:
        os.chdir(old)
        sys.modules.pop("osa", None); sys.modules.pop("fusionsc", None)
        shutil.rmtree(d)

def whole(v):
    """values which are integers up to rounding"""
    v = np.asarray(v, float)
    return fxa(np.where(np.abs(v - np.round(v)) < 1e-6, np.round(v), np.nan), 1)

def mesh(k):
    return [[r, p, z] for r in range(k["r0"], k["r0"] + k["nr"]) for p in range(k["nphi"]) for z in range(k["z0"], k["z0"] + k["nz"])]

def comps(f, pts):
    P = np.array(pts, float)
    # a hair below the full turn is the last plane of the mesh
    phi = P[:, 1] * HP
    phi = np.where(phi >= 2 * np.pi, 2 * np.pi - 1e-12, phi)
    g = [f.Bxfunc(P[:, 0], P[:, 2], phi), f.Byfunc(P[:, 0], P[:, 2], phi), f.Bzfunc(P[:, 0], P[:, 2], phi)]
    return [whole(v) for v in np.array(g).T]

def tabev(f, k, M, exc, calls, fails, seen):
    ev = dict(ev="req", exc=exc, calls=calls, fails=fails, seen=seen, M=M, conf=k["conf"], pts=mesh(k), got=[], outside=True, cyl=True)
    if exc == "none":
        ev["got"] = comps(f, ev["pts"])
        o = [float(g(k["r0"] - 1.0, k["z0"] + 0.5, 0.1)) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)]
        ev["outside"] = o == [0.0, 1.0, 0.0]
        ev["cyl"] = float(f.Rfunc(5.0, 0.0, 0.0)) == 5.0
    return ev

def do_table(sc):
    evs, seen = [], set()
    for h in sc["h"]:
        k = sc["keys"][str(h["key"])]
        s = Svc(sc["M"], h["fails"])
        use(s)
        f, exc = call(zf.W7X_vacuum, nx=k["nr"], ny=k["nphi"], nz=k["nz"], x_range=(k["r0"], k["r0"] + k["nr"] - 1), z_range=(k["z0"], k["z0"] + k["nz"] - 1), phimax=HP * (k["nphi"] - 1), configuration=k["conf"])
        evs.append(tabev(f, k, sc["M"], exc, s.calls, h["fails"], str(k) in seen))
        if exc == "none":
            seen.add(str(k))
    return evs

def do_vmec(sc):
    k = sc["key"]; s = Svc(sc["M"])
    use(s)
    f, exc = call(zf.W7X_VMEC, nx=k["nr"], ny=k["nphi"], nz=k["nz"], x_range=[k["r0"], k["r0"] + k["nr"] - 1], z_range=[k["z0"], k["z0"] + k["nz"] - 1], vmec_id=str(k["conf"]))
    return [tabev(f, k, sc["M"], exc, s.calls, 0, False)]

def do_demand(sc):
    s = Svc(sc["M"], sc["fails"])
    use(s)
    f = zf.W7X_vacuum_on_demand(sc["conf"])
    pts = [list(p) for p in sc["pts"]]
    if sc["same"]:
        pts = [[p[0], pts[0][1], p[2]] for p in pts]
    P = np.array(pts, float)
    x, z, phi = P[:, 0], P[:, 2], P[:, 1] * HP
    if sc["same"]:
        phi = float(phi[0])
    if sc["shape"] and len(pts) % 2 == 0:
        x, z = x.reshape(2, -1), z.reshape(2, -1)
        phi = phi.reshape(2, -1) if not sc["same"] else phi
    r, exc = call(f.Bxyzfunc, x, z, phi)
    ev = dict(ev="demand", exc=exc, calls=s.calls, fails=sc["fails"], M=sc["M"], conf=sc["conf"], pts=pts, got=[], mag2=[])
    evs = [ev]
    if exc == "none":
        ev["got"] = [whole(v) for v in np.array([np.ravel(a) for a in r]).T]
        ev["mag2"] = whole(np.ravel(f.Bmag(x, z, phi)) ** 2)
        one = dict(ev, calls=1, fails=0)
        g = [np.ravel(q(x, z, phi)) for q in (f.Bxfunc, f.Byfunc, f.Bzfunc)]
        one["got"] = [whole(v) for v in np.array(g).T]
        evs.append(one)
    return evs

def do_fsc(sc):
    """the same for a field of fusionsc"""
    class F:
        calls = 0
        def interpolateXyz(self, xyz):
            self.calls += 1
            x, y, z = np.broadcast_arrays(*[np.asarray(a, float) for a in xyz])
            return np.tensordot(np.array(sc["M"], float), np.array([x, y, z]), 1)
    b = F()
    f = zf.FusionSCField(b)
    pts = [list(p) for p in sc["pts"]]
    if sc["same"]:
        pts = [[p[0], pts[0][1], p[2]] for p in pts]
    P = np.array(pts, float)
    x, z, phi = P[:, 0], P[:, 2], P[:, 1] * HP
    if sc["same"]:
        phi = float(phi[0])
    if sc["shape"] and len(pts) % 2 == 0:
        x, z = x.reshape(2, -1), z.reshape(2, -1)
        phi = phi.reshape(2, -1) if not sc["same"] else phi
    evs = []
    for fn in ((lambda: f.Bxyzfunc(x, z, phi)), (lambda: [q(x, z, phi) for q in (f.Bxfunc, f.Byfunc, f.Bzfunc)])):
        r, exc = call(fn)
        ev = dict(ev="demand", exc=exc, calls=1, fails=0, M=sc["M"], conf=0, pts=[[p[0], p[1] % 4, p[2]] for p in pts], got=[], mag2=[])
        if exc == "none":
            ev["got"] = [whole(v) for v in np.array([np.ravel(a) for a in r]).T]
            ev["mag2"] = whole(np.ravel(f.Bmag(x, z, phi)) ** 2)
        evs.append(ev)
    return evs

def do_line(sc):
    rec = []
    def poincare(points, field, phis, turns, direction="ccw", **kw):
        X, Y, Z = [np.asarray(p, float) for p in points]
        phi0 = np.arctan2(Y, X); R = np.hypot(X, Y)
        rec.append(dict(kw=dict(kw), field=field, turns=turns, R=R, Z=Z, phi0=phi0))
        out = np.empty((5, len(phis)) + X.shape + (turns,))
        for i, p in enumerate(np.asarray(phis, float)):
            d = np.mod(p - phi0, 2 * np.pi) if direction == "ccw" else -np.mod(phi0 - p, 2 * np.pi)
            # a plane that is (almost) where the line starts
            d = np.where(np.abs(np.abs(d) - 2 * np.pi) < 1e-9, 0.0, d)
            r = R + sc["a"] * d; z = Z + sc["c"] * d
            out[0, i, ..., 0] = r * np.cos(p); out[1, i, ..., 0] = r * np.sin(p); out[2, i, ..., 0] = z
            out[3:, i, ..., 0] = 77.0
        return out
    m = types.ModuleType("fusionsc"); m.flt = types.SimpleNamespace(poincareInPhiPlanes=poincare)
    sys.modules["fusionsc"] = m
    rng = np.random.default_rng(sc["seed"])
    F = object()
    opts = dict(sc["opts"])
    t = FusionSCTracer(F, **opts)
    sh = tuple(sc["shape"])
    evs = []
    y = [sc["y0"] + (-v if sc["back"] else v) for v in sc["y"]]
    for rt in sc["rtols"]:
        x = rng.integers(120000, 160000, sh) / 10000.0; z = rng.integers(-9000, 9000, sh) / 10000.0
        rec.clear()
        r, exc = call(t.follow_field_lines, x, z, np.array(y) / 1000.0, rtol=rt)
        want = dict(sc["opts"])
        if rt is not None:
            want["targetError"] = rt
        ev = dict(ev="line", exc=exc, x=fxa(np.ravel(x), 10000), z=fxa(np.ravel(z), 10000), y=[10 * v for v in y], a=sc["a"], c=sc["c"], sent=[], wanted=sorted(f"{k}={v}" for k, v in want.items()), kept=opts == sc["opts"] and t.kwargs == sc["opts"] if hasattr(t, "kwargs") else True, startok=True, shape=[], wantshape=[len(y), *sh, 2], R=[], Z=[])
        if exc == "none":
            r = np.asarray(r)
            ev["shape"] = list(r.shape)
            ev["sent"] = sorted(f"{k}={v}" for k, v in rec[0]["kw"].items())
            ev["startok"] = bool(rec[0]["field"] is F and np.allclose(rec[0]["R"], x) and np.allclose(rec[0]["Z"], z) and np.allclose(np.cos(rec[0]["phi0"] - y[0] / 1000.0), 1))
            if ev["shape"] == ev["wantshape"]:
                ev["R"] = [fxa(np.ravel(v), 10000) for v in r[..., 0]]; ev["Z"] = [fxa(np.ravel(v), 10000) for v in r[..., 1]]
        evs.append(ev)
    return evs

def do_conf(sc):
    s = Svc([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    use(s)
    f = zf.W7X_vacuum_on_demand(sc["c"])
    f.Bxyzfunc(np.array([5.0]), np.array([0.0]), 0.0)
    c = s.config
    amps = [1] * 7 if sc["c"] == -1 else [13423] * 5 + [-3544] * 2
    return [dict(ev="conf", ids=ints(c.coilsIds), cur=ints(c.coilsIdsCurrents), turns=[108] * 5 + [36] * 2, amps=amps)]

def do_range(sc):
    """default mesh of the tables"""
    s = Svc([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    use(s)
    got = {}
    base = zf.W7X_vacuum if sc["w"] == "vac" else zf.W7X_VMEC
    class C(base):
        def field_values(self, r, phi, z, *a, **k):
            got["r"], got["z"] = (r.min(), r.max()), (z.min(), z.max())
            o = np.ones_like(r)
            return o, o, o
    C(nx=4, ny=4, nz=4)
    return [dict(ev="range", what=n, lo=fx(got[n][0], 100), hi=fx(got[n][1], 100), wantlo=lo, wanthi=hi) for n, lo, hi in (("r", 405, 655), ("z", -135, 135))]
