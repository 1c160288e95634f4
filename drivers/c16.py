"""C16: finite-volume perpendicular operator"""
import os, shutil, tempfile
import numpy as np
from vf import fxa, call
import zoidberg.stencil_dagp_fv as st
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid

MC = "MCStencil"
TRACE = "TraceStencil"
ASSUMPTIONS = ["at least four cells in x and three in z; volumes of the outermost radial cells are not judged"]
KEYS = ["dagp_fv_XX", "dagp_fv_XZ", "dagp_fv_ZX", "dagp_fv_ZZ", "dagp_fv_volume"]

def scenarios(mc, rng, tier):
    scs = []
    for m in mc:
        for nx, nz in ((4, 3), (5, 4), (6, 8)):
            scs.append(dict(kind="rect", dR=m["dR"], dZ=m["dZ"], R0=m["R0"], slab=m["slab"], nx=nx, nz=nz, np=1, zc=0.0))
    for r in range(40 if tier == "quick" else 1000):
        scs.append(dict(kind="rect", dR=rng.randint(1, 4), dZ=rng.randint(1, 4), R0=rng.randint(1, 20), slab=rng.random() < 0.5, nx=rng.randint(4, 8), nz=rng.choice([3, 4, 5, 6, 7, 8, 11, 16]), np=rng.randint(1, 3), zc=rng.choice([0.0, 3.5, -7.25, 100.0])))
    for r in range(60 if tier == "quick" else 1500):
        scs.append(dict(kind="curv", nx=rng.randint(5, 8), nz=rng.choice([10, 11, 12, 16]), np=rng.randint(1, 3), slab=rng.random() < 0.4, el=rng.uniform(0.7, 1.5), shear=rng.uniform(-0.25, 0.25), tri=rng.uniform(-0.1, 0.1), R0=rng.uniform(2.0, 3.5), z0=rng.uniform(-2, 2), off=rng.uniform(0, 1)))
    scs.append(dict(kind="mixed"))
    return scs

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def rectgrid(nx, nz, dR, dZ, R0, zc=0.0):
    MXG = 1
    return RectangularPoloidalGrid(nx, nz, dR * (nx - 2.0 * MXG), dZ * nz * 1.0, R0 + dR * (nx - 1) / 2.0, zc, MXG=MXG)

def do_rect(sc):
    nx, nz, dR, dZ = sc["nx"], sc["nz"], sc["dR"], sc["dZ"]
    R0s = [sc["R0"] + j for j in range(sc["np"])]
    pols = [rectgrid(nx, nz, dR, dZ, R0, sc["zc"]) for R0 in R0s]
    ret = st.doit(pols, isSlab=sc["slab"])
    evs = [dict(ev="same", a=sorted(ret), b=sorted(KEYS), what="keys"), dict(ev="same", a=[list(ret[k].shape) for k in KEYS], b=[[nx, len(pols), nz]] * 5, what="shapes")]
    u = 2 * dR * dZ
    for j, R0 in enumerate(R0s):
        evs.append(dict(ev="rect", nx=nx, nz=nz, dR=dR, dZ=dZ, R0=R0, slab=sc["slab"],
                        **{k: fxa(ret["dagp_fv_" + k][:, j] * u, 1000) for k in ("XX", "XZ", "ZX", "ZZ")}, V2=fxa(np.where((np.arange(nx)[:, None] > 0) & (np.arange(nx)[:, None] < nx - 1), 2 * ret["dagp_fv_volume"][:, j], 0), 1000)))
    return evs

def curvgrid(sc, j):
    nx, nz = sc["nx"], sc["nz"]
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    r = 0.4 + 0.12 * i + 0.03 * j
    th = (k + sc["off"] + sc["shear"] * i) * 2 * np.pi / nz
    return StructuredPoloidalGrid(sc["R0"] + 0.1 * j + r * np.cos(th + sc["tri"] * np.sin(th)), sc["z0"] + sc["el"] * r * np.sin(th))

def polygon(g, m=41):
    """outline of the inner cells, their area and int R dA, by a fine polygon"""
    t = np.linspace(-0.5, 0.5, m)
    o = np.full(m, 0.5)
    x = np.arange(1, g.nx - 1)[:, None, None]; z = np.arange(g.nz)[None, :, None]
    xi, zi = np.broadcast_arrays(x + np.concatenate([t, o, -t, -o]), z + np.concatenate([-o, t, o, -t]))
    R, Z = g.getCoordinate(xi.copy(), zi.copy())
    R2, Z2 = np.roll(R, -1, axis=-1), np.roll(Z, -1, axis=-1)
    cr = R * Z2 - R2 * Z
    return abs(cr.sum(axis=-1) / 2), abs(((R + R2) * cr).sum(axis=-1) / 6)

def do_curv(sc):
    pols = [curvgrid(sc, j) for j in range(sc["np"])]
    nx, nz = sc["nx"], sc["nz"]
    ret = st.doit(pols, isSlab=sc["slab"])
    evs = [dict(ev="same", a=[list(ret[k].shape) for k in KEYS], b=[[nx, len(pols), nz]] * 5, what="shapes")]
    for j, g in enumerate(pols):
        area = np.zeros((nx, nz)); vol = np.zeros((nx, nz))
        a, v = polygon(g)
        area[1:-1] = a; vol[1:-1] = a if sc["slab"] else v
        S = 100000
        inn = np.zeros((nx, 1)); inn[1:-1] = 1
        evs.append(dict(ev="plane", nx=nx, nz=nz, slab=sc["slab"], **{k: fxa(ret["dagp_fv_" + k][:, j], S) for k in ("XX", "XZ", "ZX", "ZZ")},
                        R=fxa(g.R - g.R.mean(), 250000), Z=fxa(g.Z - g.Z.mean(), 250000), cmax=int(S * 75), cmax2=int(S * 20), area=fxa(area, S), vol=fxa(np.where(inn > 0, ret["dagp_fv_volume"][:, j], 0), S), vol0=fxa(vol, S), tol=max(40, int(S * area.max() * 0.003)), vtol=max(30, int(S * vol[1:-1].max() * 0.004))))
        one = st.doit([g], isSlab=sc["slab"])
        evs.append(dict(ev="same", a=[bool(np.allclose(ret[k][1:-1, j], one[k][1:-1, 0], rtol=1e-12, atol=1e-13)) for k in KEYS], b=[True] * 5, what="planes_independent"))
    return evs + roundtrip(ret, pols)

def roundtrip(ret, pols):
    """the coefficients read back with load() are the ones returned"""
    from boututils.datafile import DataFile
    d = tempfile.mkdtemp(prefix="st_", dir=os.environ.get("VF_WORK"))
    try:
        fn = os.path.join(d, "a.nc")
        R = np.stack([p.R for p in pols], axis=1); Z = np.stack([p.Z for p in pols], axis=1)
        with DataFile(fn, write=True, create=True) as f:
            f.write("R", R); f.write("Z", Z)
            for k, v in ret.items():
                f.write(k, v)
        RZ, vol, cX, cZ = st.load(fn)
    finally:
        shutil.rmtree(d)
    ok = np.array_equal(RZ, np.array([R, Z])) and np.array_equal(vol[1:-1], ret["dagp_fv_volume"][1:-1]) and all(np.array_equal(cX[..., i], ret["dagp_fv_X" + k][:-1]) and np.array_equal(cZ[..., i], ret["dagp_fv_Z" + k][1:-1]) for i, k in enumerate("XZ"))
    return [dict(ev="same", a=bool(ok), b=True, what="load_reads_back")]

def do_mixed(sc):
    """planes of different z extent are refused, a mixture of grid kinds too"""
    a, b = rectgrid(6, 8, 1, 1, 5), rectgrid(6, 8, 1, 2, 5)
    c = curvgrid(dict(nx=6, nz=8, R0=3, z0=0, el=1, shear=0, tri=0, off=0), 0)
    return [dict(ev="same", a=call(st.doit, p)[1], b="ValueError", what="mixed_planes_refused") for p in ([a, b], [a, c])]
