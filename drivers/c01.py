"""C01: toroidal neighbour look-up (Grid.getPoloidalGrid)"""
import numpy as np
from vf import fx, ints
from zoidberg.grid import Grid, rectangular_grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid

MC = "MCGridY"
TRACE = "TraceGridY"
ASSUMPTIONS = ["y positions lie in [0, Ly] and increase", "indices are multiples of 1/4 (exactly representable)"]

def scenarios(mc, rng, tier):
    scs = []
    for c in mc:
        scs.append(dict(kind="scan", c=dict(ny=c["ny"], ys=list(c["ys"]), Ly=c["Ly"], per=c["per"]), span=3 * c["ny"] + 5,
                        mode=rng.choice(["int", "np", "float"]), single=rng.random() < 0.2))
    for _ in range(150 if tier == "quick" else 3000):
        ny = rng.randint(1, 14)
        Ly = 4 * rng.randint(ny + 1, 100)
        per = rng.random() < 0.5
        ys = sorted(rng.sample(range(0, Ly if per else Ly + 1, 4), ny))
        scs.append(dict(kind="scan", c=dict(ny=ny, ys=ys, Ly=Ly, per=per), span=rng.choice([ny + 2, 2 * ny + 3, 5 * ny + 1, 60]),
                        mode=rng.choice(["int", "np", "float"]), single=rng.random() < 0.2))
    for _ in range(60):
        ny = rng.randint(1, 12)
        scs.append(dict(kind="rect", c=dict(ny=ny, ys=[], Ly=rng.randint(1, 40), per=rng.random() < 0.5), nx=rng.randint(5, 9), nz=rng.randint(1, 7)))
    return scs

def execute(sc):
    c = sc["c"]
    if sc["kind"] == "rect":
        g = rectangular_grid(sc["nx"], c["ny"], sc["nz"], Ly=c["Ly"], yperiodic=c["per"])
        return [dict(ev="rect", c=c, nx=sc["nx"], nz=sc["nz"], n=int(g.numberOfPoloidalGrids()), shape=ints(g.shape),
                     ys=[fx(g.getPoloidalGrid(j)[1], 1000) for j in range(c["ny"])])]
    if sc["single"]:
        pols = RectangularPoloidalGrid(6, 3, 1.0, 1.0)
        g = Grid(pols, np.array(c["ys"], dtype=float), float(c["Ly"]), yperiodic=c["per"])
        ident = lambda p, y, q: -1 if p is None else (q // 4) % c["ny"]     # one shared plane: only None / not None can be told
    else:
        pols = [RectangularPoloidalGrid(6, 3, 1.0 + j, 1.0) for j in range(c["ny"])]
        g = Grid(list(pols), np.array(c["ys"], dtype=float), float(c["Ly"]), yperiodic=c["per"])
        ident = lambda p, y, q: -1 if p is None else [k for k in range(len(pols)) if pols[k] is p][0]
    span = sc["span"]
    res = []
    for q in range(-4 * span, 4 * span + 1):
        idx = q / 4
        if q % 4 == 0 and sc["mode"] != "float":
            idx = q // 4 if sc["mode"] == "int" else np.int64(q // 4)
        p, y = g.getPoloidalGrid(idx)
        res.append(dict(p=ident(p, y, q), y=fx(y, 1000)))
    return [dict(ev="scan", c=c, q0=-4 * span, res=res)]
