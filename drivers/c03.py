"""C03: sub-cell samples of make_maps"""
from fci import *

MC = "MCFciMap"
TRACE = "TraceFciMap"
ASSUMPTIONS = ["sample counts 1..4 per dimension", "field lines are supplied by an injected exact tracer"]

def scenarios(mc, rng, tier):
    scs = []
    for c in rng.sample(mc, min(len(mc), 70 if tier == "quick" else 600)):
        scs.append(dict(c=norm(c), n=rng.choice([1, 2, 2, 3])))
    for _ in range(50 if tier == "quick" else 500):
        c = random_cfg(rng)
        if c["geo"] == "ann":
            c["ny"] = min(c["ny"], 2); c["ys"] = c["ys"][:2]; c["pl"] = c["pl"][:2]
            c["nslice"] = min(c["nslice"], 2)
        scs.append(dict(c=c, n=rng.choice([1, 2, 3] if c["geo"] == "ann" else [1, 2, 3, 4])))
    return scs

def execute(sc):
    c = sc["c"]
    tr, rtol = Tracer(c), [None, 1e-5, 1e-9][(sc["n"] + c["ny"]) % 3]
    kw = {} if rtol is None else dict(rtol=rtol)
    m = make_maps(grid(c), Field(c), nslice=c["nslice"], quiet=True, field_tracer=tr, samples_per_dim=sc["n"], refine_parallel_integral=1, **kw)
    sl = []
    for o2 in offsets2(c, half=False):
        nm = slice_names(o2)
        sl.append(dict(o2=o2, xs=fxa(m[nm("xt_primes")], SC), zs=fxa(m[nm("zt_primes")], SC)))
    return [tol_event(tr, rtol), dict(ev="samples", c=c, n=sc["n"], w=fxa(m["subcell_weights"], SC), sl=sl)]
