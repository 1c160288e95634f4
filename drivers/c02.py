"""C02: forward/backward maps of make_maps"""
from fci import *

MC = "MCFciMap"
TRACE = "TraceFciMap"
ASSUMPTIONS = ["field lines are supplied by an injected exact tracer (tracing itself is C10)", "positions are on an integer lattice, so expected landings are exact"]

def scenarios(mc, rng, tier):
    scs = []
    pick = mc if tier == "thorough" else rng.sample(mc, min(len(mc), 260))
    for c in pick:
        scs.append(dict(c=norm(c), mxg=rng.choice([None, 0, 1, 2, 3]), nc=rng.randint(1, 7)))
    for _ in range(160 if tier == "quick" else 1500):
        scs.append(dict(c=random_cfg(rng), mxg=rng.choice([None, 0, 1, 2, 3]), nc=rng.randint(1, 7)))
    for _ in range(12 if tier == "quick" else 100):
        c = random_cfg(rng, geo="rect")
        c["bd"] = [0, 0, 0, 0, 0]
        scs.append(dict(kind="default", c=c, rtol=rng.choice([None, 1e-10]), quiet=rng.random() < 0.5))
    return scs

def do_default(sc):
    """without a tracer the lines are those of the field itself"""
    c = sc["c"]
    class F(Field):
        def Bxfunc(self, x, z, phi):
            return np.full(np.shape(x), c["fl"][0] + 2.0 * c["fl"][3] * phi)
        def Bzfunc(self, x, z, phi):
            return c["fl"][1] + c["fl"][2] * np.asarray(x) * 1.0
    kw = {} if sc["rtol"] is None else dict(rtol=sc["rtol"])
    m = make_maps(grid(c), F(c), nslice=c["nslice"], quiet=sc["quiet"], refine_parallel_integral=1, **kw)
    w = make_maps(grid(c), F(c), nslice=c["nslice"], quiet=True, refine_parallel_integral=1, field_tracer=Tracer(c))
    names = sorted(k for k in w if k.split("_cell")[0].split("_")[-1 if "prime" not in k else -2] in ("R", "Z", "xt", "zt") or "_R_" in k or "_Z_" in k)
    bd = c["bd"][0] == 0
    return [dict(ev="same", what="names", a=sorted(m), b=sorted(w), tol=0)] + [dict(ev="near", what="default_tracer", a=[fx(v, 1000) for v in np.ravel(m[k])], b=[fx(v, 1000) for v in np.ravel(w[k])], tol=20) for k in names if bd and "xt" not in k and "zt" not in k]

def execute(sc):
    if sc.get("kind") == "default":
        return do_default(sc)
    c = sc["c"]
    kw = {} if sc["mxg"] is None else {"MXG": sc["mxg"]}
    rtol = [None, 1e-5, 1e-9][sc["nc"] % 3]
    if rtol is not None:
        kw["rtol"] = rtol
    tr = Tracer(c)
    m = make_maps(grid(c), Field(c), nslice=c["nslice"], quiet=True, field_tracer=tr, refine_parallel_integral=1, n_chunks=sc["nc"], **kw)
    sl = []
    for o2 in offsets2(c):
        nm = slice_names(o2)
        R, Z = arr(c, m[nm("R")], m[nm("Z")])
        d = dict(o2=o2, R=R, Z=Z)
        if abs(o2) > 1:
            d["xt"] = fxa(m[nm("xt_prime")], SC); d["zt"] = fxa(m[nm("zt_prime")], SC)
        sl.append(d)
    R, Z = arr(c, m["R"], m["Z"])
    return [tol_event(tr, rtol), dict(ev="maps", c=c, R=R, Z=Z, MXG=int(m["MXG"]), MYG=int(m["MYG"]), mxg=2 if sc["mxg"] is None else sc["mxg"], sl=sl)]
