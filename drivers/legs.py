"""Shared by C04-C06: map dictionaries with chosen sample outcomes for zoidberg.weights."""
import numpy as np
from vf import fx, fxa, ints
from zoidberg import weights as W

DIRS = ("forward", "backward")

def rand_pos(rng, c, hit):
    lo, hi = 4 * c["mxg"], 4 * (c["nx"] - c["mxg"] - 1)
    if hit:
        opts = [-4, 4 * c["nx"], lo - 1, hi + 1, lo - 4, hi + 4]
        if c["mxg"] == 0:
            opts = [-4, 4 * c["nx"], -1, hi + 1]
        return rng.choice(opts)
    return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), min(lo + 1, hi), max(hi - 1, lo), min(lo + 5, hi), max(hi - 5, lo)])

def rand_z(rng, c):
    n = 4 * c["nz"]
    return rng.choice([rng.randint(0, n - 1), rng.randint(-3 * n, 3 * n), rng.randint(-4, 4), n - 1, n, -1, -3, rng.randint(n - 8, n + 4)])

def cell_samples(rng, c, outcome):
    ns = len(c["w"])
    if outcome == "any":
        return [rand_pos(rng, c, rng.random() < 0.3) for _ in range(ns)]
    if outcome == "mix" and ns > 1:
        k = rng.randint(1, ns - 1)
        hits = [True] * k + [False] * (ns - k)
        rng.shuffle(hits)
    else:
        hits = [outcome == "bd"] * ns
    return [rand_pos(rng, c, h) for h in hits]

def build(rng, c, outcome):
    """outcome(dir index, x, y, z) -> in/bd/mix/any; arrays in quarter cells"""
    nx, ny, nz = c["nx"], c["ny"], c["nz"]
    d = {}
    for di, dn in enumerate("fb"):
        xs, zs, xc, zc = [], [], [], []
        for x in range(nx):
            X, Z, XC, ZC = [], [], [], []
            for y in range(ny):
                X1 = [cell_samples(rng, c, outcome(di, x, y, z)) for z in range(nz)]
                Z1 = [[rand_z(rng, c) for _ in c["w"]] for z in range(nz)]
                X.append(X1); Z.append(Z1)
                XC.append([rand_pos(rng, c, rng.random() < 0.4) for z in range(nz)])
                ZC.append([rand_z(rng, c) for z in range(nz)])
            xs.append(X); zs.append(Z); xc.append(XC); zc.append(ZC)
        d[dn + "x"] = xs; d[dn + "z"] = zs; d[dn + "xc"] = xc; d[dn + "zc"] = zc
    return d

def weights_for(rng, ns, big=100):
    """quadrature weights; with many samples the corner samples weigh next to nothing"""
    u = rng.random()
    if u < 0.4:
        return [1] * ns
    if u < 0.75:
        return [rng.randint(1, 3) for _ in range(ns)]
    w = [1] * ns
    w[rng.randrange(ns)] = rng.choice([big // 5, big])
    return w

def all_scenarios(mc, rng, tier, nrand, nmc, big=100):
    scs = []
    pats = mc if tier == "thorough" else rng.sample(mc, min(len(mc), nmc))
    for m in pats:
        pat = m["pat"]
        n = len(pat)
        # realise n interior cells as (1 x ny x nz) or (ni x 1 x 1)
        shape = rng.choice([(n, 1, 1), (1, n, 1), (1, 1, n)])
        mxg = rng.choice([1, 1, 2])
        c = dict(nx=shape[0] + 2 * mxg, ny=shape[1], nz=shape[2], mxg=mxg, w=weights_for(rng, rng.choice([2, 3, 4]), big))
        def oc(di, x, y, z, c=c, pat=pat, shape=shape):
            xi = x - c["mxg"]
            if not 0 <= xi < shape[0]:
                return "any"
            return pat[max(xi, y, z)][di]
        scs.append(dict(c=c, **build(rng, c, oc)))
    for _ in range(nrand):
        mxg = rng.choice([0, 1, 2, 2, 3])
        c = dict(nx=2 * mxg + rng.randint(1, 5), ny=rng.randint(1, 3), nz=rng.randint(1, 5), mxg=mxg, w=weights_for(rng, rng.choice([1, 2, 4]), big))
        kind = rng.choice(["any", "in", "mostly", "mix"])
        oc = (lambda di, x, y, z: rng.choice(["in", "in", "bd", "mix"])) if kind == "mostly" else (lambda di, x, y, z, k=kind: k)
        scs.append(dict(c=c, **build(rng, c, oc)))
    for s in scs:
        s["flat"] = len(s["c"]["w"]) == 1 and rng.random() < 0.5
    return scs

def make(sc):
    c = sc["c"]
    m = {"R": np.zeros((c["nx"], c["ny"], c["nz"])), "Z": np.ones((c["nx"], c["ny"], c["nz"])), "MXG": c["mxg"]}
    q = lambda k: np.array(sc[k], dtype=float) / 4
    if sc.get("flat"):
        for dn, d in zip("fb", DIRS):
            m[d + "_xt_prime"] = q(dn + "x")[..., 0]; m[d + "_zt_prime"] = q(dn + "z")[..., 0]
    else:
        for dn, d in zip("fb", DIRS):
            m[d + "_xt_primes"] = q(dn + "x"); m[d + "_zt_primes"] = q(dn + "z")
            m[d + "_xt_prime"] = q(dn + "xc"); m[d + "_zt_prime"] = q(dn + "zc")
        m["subcell_weights"] = np.array(c["w"], dtype=float) / sum(c["w"])
    return m

def record(ev, sc, out, csr=True):
    e = dict(ev=ev, c=sc["c"], fx=sc["fx"], fz=sc["fz"], bx=sc["bx"], bz=sc["bz"], total=int(out["total_cells"]),
             cell=ints(out["cell_number"]), fcell=ints(out["forward_cell_number"]), bcell=ints(out["backward_cell_number"]),
             nf=int(out["n_forward_legs"]), nb=int(out["n_backward_legs"]),
             fint=ints(out["forward_leg_interior_number"]), fbnd=ints(out["forward_leg_boundary_number"]),
             bint=ints(out["backward_leg_interior_number"]), bbnd=ints(out["backward_leg_boundary_number"]))
    if csr:
        e["flw"] = fxa(out["forward_leg_weights"]); e["blw"] = fxa(out["backward_leg_weights"])
        for dn, d in zip("fb", DIRS):
            e[dn + "csr"] = dict(w=fxa(out[d + "_weights"]), cols=ints(out[d + "_columns"]), rows=ints(out[d + "_rows"]))
    return e
