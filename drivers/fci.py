"""Shared by C02/C03: lattice grids, an exact tracer and a y-dependent boundary for make_maps."""
import numpy as np
from vf import fx, fxa, ints
from zoidberg.field import MagneticField
from zoidberg.grid import Grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
from zoidberg.zoidberg import make_maps

SC = 100000
RC = 4000.0         # centre of annuli

class Bnd:
    def __init__(self, c):
        self.c = c
    def outside(self, x, y, z):
        on, xm, xs, zm, zs = self.c["bd"]
        if not on:
            return np.full(np.shape(x), False)
        return np.logical_or(np.asarray(x) > xm + xs * y, np.asarray(z) < zm + zs * y)

class AnnBnd(Bnd):
    def outside(self, x, y, z):
        r, th = to_polar(self.c, x, z)
        on, xm, xs, zm, zs = self.c["bd"]
        return np.full(np.shape(x), False) if not on else r > xm + xs * y

class Field(MagneticField):
    def __init__(self, c):
        self.boundary = Bnd(c) if c["geo"] == "rect" else AnnBnd(c)
    def Byfunc(self, x, z, phi):
        return np.ones(np.shape(x))

def unit(c):      # angle of one z unit
    return 2 * np.pi / (c["nz"] * c["pl"][0][3])

def to_polar(c, R, Z):
    R = np.asarray(R) - RC
    return np.hypot(R, Z), np.arctan2(Z, R) / unit(c)

def from_polar(c, r, th):
    return RC + r * np.cos(th * unit(c)), r * np.sin(th * unit(c))

class Tracer:
    def __init__(self, c):
        self.c = c
        self.seen = set()
    def follow_field_lines(self, x_values, z_values, y_values, rtol=None):
        c = self.c
        self.seen.add(rtol)
        a, b, s, kq = c["fl"]
        x = np.array(x_values, dtype=float); z = np.array(z_values, dtype=float)
        y0 = float(y_values[0])
        if c["geo"] == "ann":
            x, z = to_polar(c, x, z)
        out = np.empty((len(y_values),) + x.shape + (2,))
        for i, y in enumerate(y_values):
            y = float(y)
            x2 = x + a * (y - y0) + kq * (y * y - y0 * y0)
            z2 = z + b * (y - y0) + s * x * (y - y0)
            if c["geo"] == "ann":
                x2, z2 = from_polar(c, x2, z2)
            out[i, ..., 0] = x2
            out[i, ..., 1] = z2
        return out

def plane(c, j):
    x0, dx, z0, dz = c["pl"][j]
    nx, nz = c["nx"], c["nz"]
    if c["geo"] == "rect":
        mxg = 1 if nx > 2 else 0
        return RectangularPoloidalGrid(nx, nz, float(dx * (nx - 2 * mxg)), float(dz * nz), x0 + dx * (nx - 1) / 2.0, z0 + dz * (nz - 1) / 2.0, MXG=mxg)
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    return StructuredPoloidalGrid(*from_polar(c, x0 + i * dx, z0 + k * dz))

def grid(c):
    return Grid([plane(c, j) for j in range(c["ny"])], np.array(c["ys"], dtype=float), float(c["Ly"]), yperiodic=c["per"])

def slice_names(o2):
    if abs(o2) == 1:
        return lambda f: f + ("_cell_yhigh" if o2 > 0 else "_cell_ylow")
    n = abs(o2) // 2
    return lambda f: ("forward_" if o2 > 0 else "backward_") + f + (f"_{n}" if n > 1 else "")

def offsets2(c, half=True):
    return ([1, -1] if half else []) + [2 * n for n in range(1, c["nslice"] + 1)] + [-2 * n for n in range(1, c["nslice"] + 1)]

def norm(c):
    c = {k: c[k] for k in ("ny", "ys", "Ly", "per", "nx", "nz", "geo", "pl", "fl", "bd", "nslice")}
    c["ys"] = list(c["ys"]); c["pl"] = [list(p) for p in c["pl"]]; c["fl"] = list(c["fl"]); c["bd"] = list(c["bd"])
    return c

def random_cfg(rng, geo=None, big=True):
    geo = geo or rng.choice(["rect", "rect", "ann"])
    ny = rng.randint(1, 5)
    per = rng.random() < 0.6
    gaps = [8 * rng.randint(1, 2) for _ in range(ny + 1)]
    if rng.random() < 0.5:
        gaps = [8] * (ny + 1)
    ys, y = [], (8 * rng.randint(0, 1) if per else gaps[0] // 2)
    for j in range(ny):
        ys.append(y); y += gaps[j + 1]
    Ly = y - ys[0] if per else y
    if per:
        Ly = max(Ly, ys[-1] + 8)
    nslice = rng.randint(1, 3)
    if geo == "rect":
        nx, nz = rng.randint(4, 7), rng.randint(2, 5)
        pl = [[4 * rng.randint(-8, 0), rng.choice([4, 8, 16]), 4 * rng.randint(-8, 4), rng.choice([4, 8, 16])] for _ in range(ny)]
        fl = [rng.randint(-2, 2), rng.randint(-3, 3), 0, rng.randint(-1, 1) if rng.random() < 0.3 else 0]
        if rng.random() < 0.3:
            fl[0] = fl[3] = 0; fl[2] = rng.choice([-1, 1])
        bd = [0, 0, 0, 0, 0] if rng.random() < 0.3 else [1, 4 * rng.randint(0, 8) + 2, rng.randint(-1, 1), 4 * rng.randint(-14, 0) - 2, rng.randint(-1, 1)]
    else:
        nx, nz = rng.randint(6, 8), rng.choice([24, 32])
        dz = 16
        pl = [[4 * rng.randint(100, 110), 64, rng.randint(0, 40), dz] for _ in range(ny)]
        fl = [rng.randint(-2, 2), rng.randint(-3, 3), 0, 0]
        bd = [0, 0, 0, 0, 0] if rng.random() < 0.4 else [1, 400 + 64 * rng.randint(2, 6) + 3, rng.randint(-1, 1), -9000, 0]
    return dict(ny=ny, ys=ys, Ly=Ly, per=per, nx=nx, nz=nz, geo=geo, pl=pl, fl=fl, bd=bd, nslice=nslice)

def arr(c, R, Z):
    """R, Z arrays as recorded: cartesian on rectangles, (r, angle) on annuli"""
    if c["geo"] == "rect":
        return fxa(R, SC), fxa(Z, SC)
    r, th = to_polar(c, R, Z)
    return fxa(r, SC), fxa(th, SC)

def tol_event(tr, asked):
    return dict(ev="tol", seen=sorted(str(v) for v in tr.seen), asked=str(asked))
