"""C23: annular and elliptic poloidal grids"""
import numpy as np
from vf import fx, fxa, call
from zoidberg import rzline
from zoidberg import poloidal_grid as pg

MC = "MCAnnulus"
TRACE = "TraceAnnulus"
ASSUMPTIONS = ["a grid object refuses rows folded by extrapolation inwards", "a grid object needs at least four radial points (its splines are cubic)", "lines that are neither aligned nor matched by closest points start at the same side", "nested, mildly shaped lines with a gap between them; folding of the extrapolated rows is not judged", "the elliptic solver may refuse (RuntimeError) when the given tolerance is not reached"]
S = 5000

def shape(rng, lo, hi):
    return dict(dR=round(rng.uniform(-0.1, 0.1), 3), dZ=round(rng.uniform(-0.1, 0.1), 3), a=round(rng.uniform(lo, hi), 3), el=round(rng.uniform(0, 0.4), 3), tr=round(rng.uniform(-0.25, 0.25), 3), ind=round(rng.uniform(0, 0.3), 3) if hi > 0.6 else 0.0, n=rng.choice([18, 25, 40]), roll=rng.choice([0, 0, 5, 11]), rev=rng.random() < 0.3, circ=rng.random() < 0.3)

def scenarios(mc, rng, tier):
    scs = []
    mc = [m for m in mc]
    for m in rng.sample(mc, min(len(mc), 300 if tier == "quick" else 4000)):
        k = rng.random()
        i, o = shape(rng, 0.15, 0.4), shape(rng, 0.9, 1.1)
        if m["al"] == "no" and not m["ort"]:
            i.update(roll=0, rev=False); o.update(roll=0, rev=False)        # the user aligned them
        scs.append(dict(kind="ell", relax=rng.choice([None, None, None, 3.0, 4.0]), q=m, i=i, o=o, tol=rng.choice([1e-8, 1e-8, 1e-9, 1e-10]), mode=rng.choice(["full"] + ["no"] * 3) if m["ort"] else "no",
                        maxfac=rng.choice([1.3, 1.7, 2.5]) if m["ort"] and k < 0.3 else None, var=rng.choice(["coords" if m["nx"] >= 4 and m["ni"] == 0 else "none", "shift", "none", "levels"]), sh=[rng.choice([-0.75, 0.5, 1.25]), rng.choice([-1.5, 0.25])]))
    for m in rng.sample(mc, min(len(mc), 100 if tier == "quick" else 1500)):
        scs.append(dict(kind="lin", q=m, i=shape(rng, 0.15, 0.4), o=shape(rng, 0.9, 1.1), coords=rng.random() < 0.5 or m["nx"] < 4))
    return scs

def line(s, R0=3.0, Z0=0.0):
    if s["circ"]:
        t = np.linspace(0, 2 * np.pi, s["n"], endpoint=False)
        r, z = s["a"] * np.cos(t), s["a"] * np.sin(t)
    else:
        b = rzline.shaped_line(R0=3.0, a=s["a"], elong=s["el"], triang=s["tr"], indent=s["ind"], n=s["n"])
        r, z = b.R - 3.0, np.array(b.Z)
    r, z = np.roll(r, s["roll"]), np.roll(z, s["roll"])
    if s["rev"]:
        r, z = r[::-1], z[::-1]
    return rzline.RZline(r + R0 + (s["dR"] if s["a"] < 0.6 else 0), z + Z0 + (s["dZ"] if s["a"] < 0.6 else 0))

def dense(ln):
    t = np.linspace(0, 2 * np.pi, 40001)
    return t, np.asarray(ln.Rvalue(t)), np.asarray(ln.Zvalue(t))

def onto(ln, R, Z):
    t, r, z = dense(ln)
    d, a = [], []
    for x, y in zip(R, Z):
        q = (r - x) ** 2 + (z - y) ** 2
        k = int(np.argmin(q[:-1]))
        # distance to the chord(s) next to it
        best = np.sqrt(q[k])
        for m in (k - 1, k):
            m %= len(t) - 1
            u = np.array([r[m + 1] - r[m], z[m + 1] - z[m]]); w = np.array([x - r[m], y - z[m]])
            f = np.clip(np.dot(u, w) / np.dot(u, u), 0, 1)
            best = min(best, float(np.hypot(*(w - f * u))))
        d.append(best); a.append(t[k])
    return fxa(d, 1e6), [int(round(v * 10000)) % 62832 for v in a]

def execute(sc):
    return globals()["do_" + sc["kind"]](sc)

def args(sc):
    q = sc["q"]
    kw = dict(nx_outer=q["no"], nx_inner=q["ni"], restrict_size=q["size"], restrict_factor=q["fac"], inner_ort=q["ort"], align=q["al"] != "no", legacy_align=q["al"] == "legacy", tol=sc["tol"])
    if sc["mode"] == "full":
        kw["inner_maxmode"] = q["nz"]
    if sc.get("relax"):
        kw["dz_relax"] = sc["relax"]
    if sc["maxfac"]:
        kw["maxfac_inner"] = sc["maxfac"]
    return kw

def do_ell(sc):
    q = sc["q"]; kw = args(sc)
    inn, out = line(sc["i"]), line(sc["o"])
    res, exc = call(pg.grid_elliptic, inn, out, q["nx"], q["nz"], return_coords=True, **kw)
    ev = dict(ev="ell", q=q, exc=exc, mayfail=sc["tol"] < 5e-9, R=[], Z=[], din=[], dout=[], ain=[], aout=[], maxfac=0)
    # the ratio is guaranteed before the Fourier smoothing; a full set of modes changes nothing
    evs = [ev]
    if exc == "none":
        R, Z = np.asarray(res[0]), np.asarray(res[1])
        ev["R"] = [fxa(r, S) for r in R]; ev["Z"] = [fxa(r, S) for r in Z]
        if R.shape == Z.shape == (q["nx"], q["nz"]):
            ev["din"], ev["ain"] = onto(inn, R[q["ni"]], Z[q["ni"]])
            ev["dout"], ev["aout"] = onto(out, R[q["nx"] - q["no"] - 1], Z[q["nx"] - q["no"] - 1])
            if sc["maxfac"]:
                ev["maxfac"] = int(round(100 * sc["maxfac"]))
    flat = lambda r, e: fxa(np.concatenate([np.ravel(r[0]), np.ravel(r[1])]), S) if e == "none" else []
    if sc["var"] == "coords":
        g, e2 = call(pg.grid_elliptic, inn, out, q["nx"], q["nz"], **kw)
        evs.append(dict(ev="pair", what="coordinates_as_object", exca=exc, excb=e2, a=flat(res, exc), b=flat((g.R, g.Z), e2) if e2 == "none" else [], tol=1))
    if sc["var"] == "shift" and kw["tol"] > 5e-9:
        a, b = sc["sh"]
        r2, e2 = call(pg.grid_elliptic, line(sc["i"], 3.0 + a, b), line(sc["o"], 3.0 + a, b), q["nx"], q["nz"], return_coords=True, **kw)
        evs.append(dict(ev="pair", what="moves_with_the_lines", exca=exc, excb=e2, a=flat(res, exc), b=flat((r2[0] - a, r2[1] - b), e2) if e2 == "none" else [], tol=10))
    if sc["var"] in ("shift", "none") and q["al"] == "no" and kw["tol"] > 5e-9:
        turn = lambda ln: rzline.RZline(3.0 - ln.Z, ln.R - 3.0)
        r2, e2 = call(pg.grid_elliptic, turn(inn), turn(out), q["nx"], q["nz"], return_coords=True, **kw)
        evs.append(dict(ev="pair", what="turns_with_the_lines", exca=exc, excb=e2, a=flat(res, exc), b=flat((r2[1] + 3.0, 3.0 - r2[0]), e2) if e2 == "none" else [], tol=10))
    if exc == "none" and R.shape == (q["nx"], q["nz"]):
        evs.append(dict(ev="bal", res=balance(R[q["ni"]:q["nx"] - q["no"]], Z[q["ni"]:q["nx"] - q["no"]], sc.get("relax") or 10 / 3), tol=int(np.ceil(3 * np.sqrt(sc["tol"]) * 1e6))))
    if sc["mode"] == "full":
        r2, e2 = call(pg.grid_elliptic, inn, out, q["nx"], q["nz"], return_coords=True, **{k: v for k, v in kw.items() if k != "inner_maxmode"})
        evs.append(dict(ev="pair", what="all_modes_change_nothing", exca=exc, excb=e2, a=flat(res, exc), b=flat(r2, e2), tol=10))
    if sc["var"] == "levels" and kw["tol"] > 5e-9:
        kw2 = dict(kw, restrict_size=100, tol=1e-11); kw1 = dict(kw, tol=1e-11)
        r1, e1 = call(pg.grid_elliptic, inn, out, q["nx"], q["nz"], return_coords=True, **kw1)
        r2, e2 = call(pg.grid_elliptic, inn, out, q["nx"], q["nz"], return_coords=True, **kw2)
        if e1 == e2 == "none":
            evs.append(dict(ev="pair", what="coarsening_is_only_a_guess", exca=e1, excb=e2, a=flat(r1, e1), b=flat(r2, e2), tol=S // 50))
    return evs

def balance(R, Z, k):
    """distance of every interior point from the solution of the elliptic equations given its neighbours"""
    n, m = R.shape
    if n < 3:
        return []
    hx, hz = 1.0 / (n - 1), 2 * np.pi / m
    P = R + 1j * Z
    e, w = P[2:], P[:-2]
    N, So = np.roll(P, -1, 1), np.roll(P, 1, 1)
    px, pz = (e - w) / (2 * hx), k * (N - So)[1:-1] / (2 * hz)
    a, b, c = abs(pz) ** 2, (px * np.conj(pz)).real, abs(px) ** 2
    cross = (N[2:] - N[:-2] - So[2:] + So[:-2]) / (2 * hx * hz)
    want = (a * (e + w) / hx ** 2 - b * cross + c * (N + So)[1:-1] / hz ** 2) / (2 * a / hx ** 2 + 2 * c / hz ** 2)
    return fxa(np.max(abs(want - P[1:-1]), axis=1), 1e6)

def do_lin(sc):
    q = dict(sc["q"], ni=0, no=0)
    inn, out = line(sc["i"]), line(sc["o"])
    res, exc = call(pg.grid_annulus, inn, out, q["nx"], q["nz"], show=False, return_coords=sc["coords"])
    ev = dict(ev="lin", q=q, exc=exc, R=[], Z=[])
    t = 2 * np.pi * np.arange(q["nz"]) / q["nz"]
    ev.update(iR=fxa(inn.Rvalue(t), S), iZ=fxa(inn.Zvalue(t), S), oR=fxa(out.Rvalue(t), S), oZ=fxa(out.Zvalue(t), S))
    if exc == "none":
        R, Z = res if sc["coords"] else (res.R, res.Z)
        ev["R"] = [fxa(r, S) for r in R]; ev["Z"] = [fxa(r, S) for r in Z]
    return [ev]
