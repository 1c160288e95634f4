"""C26: equilibria read from (generated) VMEC files"""
import os, shutil, tempfile
import numpy as np
from netCDF4 import Dataset
from vf import fx, fxa, ints, call
from zoidberg import field as zf

MC = "MCVmec"
TRACE = "TraceVmec"
HP = np.pi / 2
ASSUMPTIONS = ["stellarator-symmetric equilibria (iasym = 0) whose field has the same modes as the surfaces", "number of toroidal planes given by the caller"]

def write(fn, q, extra):
    with Dataset(fn, "w", format="NETCDF3_CLASSIC" if extra.get("nc3") else "NETCDF4") as f:
        ns, n = len(q["r"]), len(q["mo"])
        f.createDimension("radius", ns); f.createDimension("mn_mode", n)
        for k, v in (("ns", ns), ("mpol", extra["mpol"]), ("ntor", extra["ntor"]), ("nfp", 1)):
            f.createVariable(k, "i4")[...] = v
        if extra.get("iasym"):
            f.createVariable("iasym", "i4")[...] = 0
        for k, j in (("xm", 0), ("xn", 1)):
            f.createVariable(k, "f8", ("mn_mode",))[:] = [m[j] for m in q["mo"]]
        for k, s in (("rmnc", "r"), ("zmns", "z"), ("bsupumnc", "bu"), ("bsupvmnc", "bv")):
            f.createVariable(k, "f8", ("radius", "mn_mode"))[:] = np.array(q[s], float)

def scenarios(mc, rng, tier):
    scs = []
    for m in rng.sample(mc, min(len(mc), 40 if tier == "quick" else 300)):
        mode, co, ns = m["mode"], m["co"], 4
        q = dict(mo=[[0, 0], mode], r=[[9, k * co[0]] for k in range(ns)], z=[[0, k * co[1]] for k in range(ns)], bu=[[0, 0]] + [[2 * k + 1, co[0]] for k in range(2, ns + 1)], bv=[[0, 0]] + [[4 - 2 * k, 1] for k in range(2, ns + 1)])
        scs.append(dict(kind="surf", q=q, nu=5, nv=5, mpol=2, ntor=1, deflt=False))
    for _ in range(120 if tier == "quick" else 3000):
        ns = rng.randint(3, 7)
        mo = [[0, 0]] + rng.sample([[a, b] for a in range(0, 4) for b in range(-4, 5) if [a, b] != [0, 0]], rng.randint(1, 6))
        g = lambda a, b: [[rng.randint(a, b) for _ in mo] for _ in range(ns)]
        q = dict(mo=mo, r=g(-5, 5), z=g(-5, 5), bu=g(-3, 3), bv=g(-3, 3))
        for k in range(ns):
            q["r"][k][0] = 40 + rng.randint(0, 3)
        q["bu"][0] = [0] * len(mo); q["bv"][0] = [0] * len(mo)
        # numbers of points for which the angles are whole quarter turns
        nu, nv = rng.choice([2, 3, 5]), rng.choice([2, 3, 5])
        scs.append(dict(kind="surf", q=q, nu=nu, nv=nv, mpol=nu, ntor=nv - 1, deflt=rng.random() < 0.3, nc3=rng.random() < 0.3, iasym=rng.random() < 0.5))
    for _ in range(60 if tier == "quick" else 1500):
        a = dict(R0=rng.randint(20, 30), d=rng.randint(-3, 3), e=rng.randint(-3, 3), n=rng.choice([-2, -1, 1, 2, 3]), bu=rng.randint(-3, 3), bv=rng.choice([-2, -1, 1, 2, 3]))
        scs.append(dict(kind="lin", a=a, ns=rng.randint(4, 7), fr=rng.choice([1, 1, 2]), fz=rng.choice([1, 1, 2]), turn=rng.choice([0, 0, 1, -2]), seed=rng.randrange(10**6)))
    return scs

def whole(v):
    v = np.asarray(v, float)
    return fxa(np.where(np.abs(v - np.round(v)) < 1e-6, np.round(v), np.nan), 1)

def execute(sc):
    d = tempfile.mkdtemp(prefix="vmec_", dir=os.environ.get("VF_WORK"))
    try:
        return globals()["do_" + sc["kind"]](sc, os.path.join(d, "wout.nc"))
    finally:
        shutil.rmtree(d)

def do_surf(sc, fn):
    q = sc["q"]
    write(fn, q, sc)
    # the surfaces only: the (R, Z) mesh needs non-degenerate ones
    f = zf.VMEC.__new__(zf.VMEC)
    if sc["deflt"]:
        f.read_vmec_file(fn, nzeta=sc["nv"])
    else:
        f.read_vmec_file(fn, sc["nu"], sc["nv"])
    ns, nu, nv = len(q["r"]), sc["nu"], sc["nv"]
    su, sv = 4 // (nu - 1), 4 // (nv - 1)
    ev = dict(ev="surf", q=q, nu=nu, nv=nv, us=[su * i for i in range(nu)], vs=[sv * i for i in range(nv)])
    want = (ns, nu, nv)
    A = dict(R=f.r_stz, Z=f.z_stz, BR=2 * f.br, BP=2 * f.bphi, BZ=2 * f.bz)
    ev["shapeok"] = all(v.shape == want for v in A.values())
    for k, v in A.items():
        ev[k] = [[whole(w) for w in x] for x in v]
    return [ev]

def do_lin(sc, fn):
    a, ns = sc["a"], sc["ns"]
    rng = np.random.default_rng(sc["seed"])
    q = dict(mo=[[0, 0], [0, a["n"]], [1, 0]], r=[[a["R0"], a["d"], k] for k in range(ns)], z=[[0, a["e"], k] for k in range(ns)], bu=[[0, 0, 0]] + [[a["bu"], 0, 0]] * (ns - 1), bv=[[0, 0, 0]] + [[a["bv"], 0, 0]] * (ns - 1))
    write(fn, q, dict(mpol=2, ntor=3))
    s = ns - 1
    v = np.arange(5) * HP
    ra, za = a["R0"] + a["d"] * np.cos(a["n"] * v), -a["e"] * np.sin(a["n"] * v)
    r0, r1, z0, z1 = [int(round(t)) for t in (ra.min() - s, ra.max() + s, za.min() - s, za.max() + s)]
    f = zf.VMEC(fn, ntheta=5, nzeta=5, nr=sc["fr"] * (r1 - r0) + 1, nz=sc["fz"] * (z1 - z0) + 1)
    P = [(R, Z, k) for R in range(r0, r1 + 1) for Z in range(z0, z1 + 1) for k in range(4)]
    P = [P[i] for i in rng.choice(len(P), min(len(P), 150), replace=False)]
    # and some points off the box
    P += [(r0 - 2, 0, 1), (r1 + 3, z1, 2), (r0, z1 + 5, 0)]
    R, Z, k = [np.array(t, float) for t in zip(*P)]
    phi = k * HP + sc["turn"] * 2 * np.pi
    # points on the edge of the box: a hair inside
    Re, Ze = np.clip(R, *((r0 + 1e-9, r1 - 1e-9))) , np.clip(Z, z0 + 1e-9, z1 - 1e-9)
    Re, Ze = np.where((R < r0) | (R > r1), R, Re), np.where((Z < z0) | (Z > z1), Z, Ze)
    b = [f.Bxfunc(Re, Ze, phi), f.Byfunc(Re, Ze, phi), f.Bzfunc(Re, Ze, phi)]
    b = [whole(t) for t in b]
    rf = whole(f.Rfunc(R, Z, phi))
    pts = [dict(R=int(p[0]), Z=int(p[1]), v=int(p[2]), BR=b[0][i], BP=b[1][i], BZ=b[2][i], Rf=rf[i]) for i, p in enumerate(P)]
    return [dict(ev="lin", a=a, s=s, pts=pts)]
