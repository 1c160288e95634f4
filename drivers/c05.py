"""C05: destination operators and leg weights"""
from legs import *
MC = "MCLegs"
TRACE = "TraceLegs"
ASSUMPTIONS = ["mapped positions are multiples of a quarter cell (one sample per cell: of a hundredth)", "weights compared to 1.2e-5"]

def scenarios(mc, rng, tier):
    scs = all_scenarios(mc, rng, tier, 300 if tier == "quick" else 4000, 250)
    for _ in range(60 if tier == "quick" else 800):
        mxg = rng.randint(0, 2)
        nx = 2 * mxg + rng.randint(2, 5)
        scs.append(dict(kind="fine", c=dict(nx=nx, ny=rng.randint(1, 4), nz=rng.randint(1, 7), mxg=mxg, w=[1]), seed=rng.randrange(10**6)))
    return scs

def do_fine(sc):
    """positions anywhere in a cell (hundredths), one sample per cell"""
    c = sc["c"]; rng = np.random.default_rng(sc["seed"])
    nx, ny, nz, g = c["nx"], c["ny"], c["nz"], c["mxg"]
    m = {"R": np.zeros((nx, ny, nz)), "MXG": g}
    pos = {}
    for d in DIRS:
        x = rng.integers(100 * g, 100 * (nx - g - 1) + 1, (nx, ny, nz)); z = rng.integers(-300, 100 * nz + 300, (nx, ny, nz))
        near = rng.random((nx, ny, nz)) < 0.4          # next to grid points
        x = np.where(near, np.clip(100 * (x // 100) + rng.choice([0, 1, 2, 99], x.shape), 100 * g, 100 * (nx - g - 1)), x)
        z = np.where(near, 100 * (z // 100) + rng.choice([0, 1, 2, 99], x.shape), z)
        pos[d] = x, z
        m[d + "_xt_prime"] = x / 100.0; m[d + "_zt_prime"] = z / 100.0
    out = W.calculate_parallel_map_operators(m)
    cell = np.asarray(out["cell_number"])
    where = {int(cell[i]): i for i in np.ndindex(cell.shape)}
    evs = []
    for d, dy in zip(DIRS, (1, -1)):
        rp, cols, w = out[d + "_rows"], out[d + "_columns"], out[d + "_weights"]
        rows = []
        for i in np.ndindex(cell.shape):
            r = int(out[d + "_leg_interior_number"][i])
            if r < 0:
                continue
            wx, wz, off = np.zeros(nx), np.zeros(nz), 0.0
            for k in range(rp[r], rp[r + 1]):
                q = where.get(int(cols[k]))
                if q is None or q[1] != (i[1] + dy) % ny:
                    off += abs(w[k]); continue
                wx[q[0]] += w[k]; wz[q[2]] += w[k]
            rows.append(dict(x=int(pos[d][0][i]), z=int(pos[d][1][i]), wx=fxa(wx), wz=fxa(wz), off=fx(off)))
        evs.append(dict(ev="fine", c=c, d=d, rows=rows))
    return evs

def execute(sc):
    if sc.get("kind") == "fine":
        return do_fine(sc)
    return [record("op", sc, W.calculate_parallel_map_operators(make(sc)))]
