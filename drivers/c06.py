"""C06: modify_maps"""
from legs import *
MC = "MCLegs"
TRACE = "TraceLegs"
ASSUMPTIONS = ["mapped positions are multiples of a quarter cell"]
GONE = ["forward_xt_primes", "forward_zt_primes", "backward_xt_primes", "backward_zt_primes", "subcell_weights"]

def scenarios(mc, rng, tier):
    scs = []
    for s in all_scenarios(mc, rng, tier, 200 if tier == "quick" else 3000, 150):
        s["flat"] = False
        for p in (True, False):
            scs.append(dict(s, partial=p))
    return scs

def execute(sc):
    m = make(sc)
    m["extra"] = np.arange(4.0)
    R, Z = m["R"].copy(), m["Z"].copy()
    zc = {d: m[d + "_zt_prime"].copy() for d in DIRS}
    out = W.modify_maps(m, partial_boundaries=sc["partial"])
    e = record("mod", sc, out)
    e["partial"] = sc["partial"]
    e["removed"] = not any(k in out for k in GONE)
    e["kept"] = bool(np.array_equal(out["extra"], np.arange(4.0)) and np.array_equal(out["R"], R) and np.array_equal(out["Z"], Z)
                     and out["MXG"] == sc["c"]["mxg"] and all(np.array_equal(out[d + "_zt_prime"], zc[d]) for d in DIRS))
    for dn, d in zip("fb", DIRS):
        e[dn + "xc"] = sc[dn + "xc"]; e[dn + "zc"] = sc[dn + "zc"]
        e[dn + "xa"] = ints(np.asarray(out[d + "_xt_prime"]) * 4)
    return [e]
