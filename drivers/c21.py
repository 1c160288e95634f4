"""C21: fields read from equilibrium files"""
import os, shutil, tempfile
import numpy as np
from vf import fx, fxa
from freeqdsk import geqdsk
from zoidberg.field import GEQDSK
from zoidberg.fieldtracer import FieldTracer

MC = "MCEqdsk"
TRACE = "TraceEqdsk"
ASSUMPTIONS = ["near the plasma boundary (within 4 mesh spacings) the profile is interpolated across the edge and not judged", "flux given by a polynomial which cubic splines reproduce, except at the mesh points where any values are used"]

def scenarios(mc, rng, tier):
    fs = rng.sample(mc, 130 if tier == "quick" else 2500)
    scs = [dict(kind="at", F=F, R0=rng.choice([12, 15, 21, 40]), zmid=rng.randint(-4, 4), fp=[rng.randint(1500, 4000), rng.randint(-1200, 2500), rng.randint(-400, 900)], pp=[rng.randint(500, 3000), rng.randint(-2000, 800), rng.randint(-600, 600)],
                n=rng.randint(1, 40), seed=rng.randrange(10**6), order=rng.choice([1, -1]), rep=rng.random() < 0.3, shape=rng.choice([0, 1, 2])) for F in fs]
    for _ in range(40 if tier == "quick" else 600):
        scs.append(dict(kind="mesh", nr=rng.randint(5, 20), nz=rng.randint(5, 20), bdry=rng.random() < 0.5, wall=rng.random() < 0.5, seed=rng.randrange(10**6)))
    for F in rng.sample(mc, 10 if tier == "quick" else 150):
        scs.append(dict(kind="line", F=F, R0=rng.choice([15, 21, 40]), zmid=rng.randint(-4, 4), fp=[rng.choice([-1, 1]) * 3000, 500, 100], pp=[500, 0, 0], seed=rng.randrange(10**6)))
    return scs

def execute(sc):
    d = tempfile.mkdtemp(prefix="eq_", dir=os.environ.get("VF_WORK"))
    try:
        return globals()["do_" + sc["kind"]](sc, os.path.join(d, "g"))
    finally:
        shutil.rmtree(d)

def write(fn, r, z, psi, ax, bd, f, p, bdry, wall, rm, zm):
    nr, nz = psi.shape
    e = np.zeros(0)
    rb, zb = (np.array([b[0] for b in bdry]), np.array([b[1] for b in bdry])) if len(bdry) else (e, e)
    rl, zl = (np.array([b[0] for b in wall]), np.array([b[1] for b in wall])) if len(wall) else (e, e)
    d = dict(comment="test", shot=1, time_slice=1, nx=nr, ny=nz, rdim=r[-1] - r[0], zdim=z[-1] - z[0], rcentr=rm, bcentr=float(f[-1] / rm), rleft=r[0], zmid=0.5 * (z[0] + z[-1]), rmagx=rm, zmagx=zm, simagx=ax, sibdry=bd, cpasma=1e5,
             fpol=f, pres=p, ffprime=np.zeros(nr), pprime=np.zeros(nr), psi=psi, qpsi=np.ones(nr), rbdry=rb, zbdry=zb, rlim=rl, zlim=zl, nbdry=len(rb), nlim=len(rl))
    with open(fn, "w") as fh:
        geqdsk.write(d, fh)

def polyfile(sc, fn):
    F = sc["F"]; R0 = sc["R0"] / 10.0; Z0 = sc["zmid"] / 10.0
    nr, nz = F["mesh"]
    r, z = R0 + np.linspace(-1, 1, nr), Z0 + np.linspace(-1.5, 1.5, nz)
    A, B, C, D = [c / 20.0 for c in F["c"]]
    ax, bd = F["ax"] / 20000.0, F["bd"] / 20000.0
    def psi(R, Z):
        x, y = R - R0, Z - Z0
        return ax + A * x**2 + B * y**2 + C * x**2 * y + D * x * y
    s = np.linspace(0, 1, nr)
    prof = lambda q: (q[0] + q[1] * s + q[2] * s**2) / 1000.0
    tr = lambda P: [(R0 + v[0] / 10.0, Z0 + v[1] / 10.0) for v in P]
    o = sc.get("order", 1)
    b, w = tr(F["bdry"])[::o], tr(F["wall"])[::o]
    if sc.get("rep"):
        b, w = b + b[:1], w + w[:1]
    RR, ZZ = np.meshgrid(r, z, indexing="ij")
    write(fn, r, z, psi(RR, ZZ), ax, bd, prof(sc["fp"]), prof(sc["pp"]), b, w, R0, Z0)
    return R0, Z0, psi, max(2.0 / (nr - 1), 3.0 / (nz - 1))

def do_at(sc, fn):
    R0, Z0, psi, h = polyfile(sc, fn)
    F = sc["F"]
    f = GEQDSK(fn)
    rng = np.random.default_rng(sc["seed"])
    pts = [[int(a), int(b)] for a, b in zip(rng.integers(-9, 10, sc["n"]), rng.integers(-14, 15, sc["n"]))]
    if sc["shape"] == 1 and len(pts) % 2:
        pts = pts + [[0, 0]]
    x, z = R0 + np.array([p[0] for p in pts]) / 10.0, Z0 + np.array([p[1] for p in pts]) / 10.0
    if F["bdry"]:
        import shapely
        ring = shapely.LinearRing([(v[0] / 10.0, v[1] / 10.0) for v in F["bdry"]])
        far = [bool(ring.distance(shapely.Point(p[0] / 10.0, p[1] / 10.0)) > 4 * h) for p in pts]
    else:
        far = [True] * len(pts)
    if sc["shape"] == 1:
        q = lambda g: np.ravel(g(x.reshape(2, -1), z.reshape(2, -1), 0.3))
    elif sc["shape"] == 2:
        q = lambda g: np.array([float(g(float(a), float(b), 0.3)) for a, b in zip(x, z)])
    else:
        q = lambda g: g(x, z, 0.3)
    R = q(f.Rfunc)
    psi_ = q(f.attributes["psi"])
    out = np.broadcast_to(f.boundary.outside(x, 0.3, z), x.shape)
    return [dict(ev="at", F=F, pts=pts, psi=fxa(psi_, 20000), br=fxa(q(f.Bxfunc) * x, 2000), bz=fxa(q(f.Bzfunc) * x, 2000), f=fxa(q(f.Byfunc) * x, 1000), p=fxa(q(f.pressure), 1000), far=far, fp=sc["fp"], pp=sc["pp"], out=[bool(o) for o in out],
                 cyl=bool(np.allclose(R, x)), tol=3 if not F["bdry"] else 25)]

def do_mesh(sc, fn):
    rng = np.random.default_rng(sc["seed"])
    nr, nz = sc["nr"], sc["nz"]
    r, z = np.linspace(1.0, 1.0 + rng.uniform(0.5, 3), nr), np.linspace(-rng.uniform(0.5, 2), rng.uniform(0.3, 2), nz)
    psi = rng.integers(-3000, 3000, (nr, nz)) / 1000.0
    b = [(r[1], z[1]), (r[-2], z[1]), (r[-2], z[-2]), (r[1], z[-2])]
    write(fn, r, z, psi, 0.0, 1.0, np.linspace(1, 2, nr), np.linspace(2, 1, nr), b if sc["bdry"] else [], b if sc["wall"] else [], 1.5, 0.0)
    f = GEQDSK(fn)
    RR, ZZ = np.meshgrid(r, z, indexing="ij")
    RR[-1] -= 1e-9; ZZ[:, -1] -= 1e-9; RR[0] += 1e-9; ZZ[:, 0] += 1e-9     # the file stores 10 digits
    g = f.attributes["psi"](RR, ZZ, 0.0)
    return [dict(ev="mesh", got=fxa(np.ravel(g), 1000), want=fxa(np.ravel(psi), 1000))]

def do_line(sc, fn):
    R0, Z0, psi, h = polyfile(sc, fn)
    f = GEQDSK(fn)
    rng = np.random.default_rng(sc["seed"])
    a = rng.uniform(0, 6.28, 3); rr = rng.uniform(0.05, 0.3, 3)
    y = np.linspace(0, 3.0, 5)
    pos = FieldTracer(f).follow_field_lines(R0 + rr * np.cos(a), Z0 + rr * np.sin(a), y, rtol=1e-9)
    return [dict(ev="line", psi=fxa(psi(pos[:, i, 0], pos[:, i, 1]), 100000), tol=5) for i in range(3)]
