"""Shared by C10/C11: fields whose lines are known exactly on a lattice."""
import numpy as np
from vf import fx
from zoidberg.field import MagneticField

SC = 5000

class FlowField(MagneticField):
    """By = 1, Cartesian; the direction is (Bx, Bz)"""
    def __init__(self, f):
        self.f = f
    def Byfunc(self, x, z, phi):
        return np.ones(np.shape(x))
    def Bxfunc(self, x, z, phi):
        f = self.f
        if f["kind"] == "rot":
            return -np.asarray(z) * np.pi / 2
        if f["kind"] == "shear":
            return f["a"] * np.asarray(z)
        return np.full(np.shape(x), f["a"] + 2.0 * f["k"] * phi)
    def Bzfunc(self, x, z, phi):
        f = self.f
        if f["kind"] == "rot":
            return np.asarray(x) * np.pi / 2
        if f["kind"] == "shear":
            return np.zeros(np.shape(x))
        return f["b"] + f["s"] * np.asarray(x) * 1.0

def rec(a):
    """(..., 2) positions -> list of doubled, scaled positions"""
    a = np.asarray(a).reshape(-1, 2)
    return [[fx(p[0], 2 * SC), fx(p[1], 2 * SC)] for p in a]

def rand_flow(rng):
    r = rng.random()
    if r < 0.3:
        return dict(kind="rot", a=0, b=0, s=0, k=0)
    if r < 0.45:
        return dict(kind="shear", a=rng.choice([-1, 1, 2]), b=0, s=0, k=0)
    s, k = rng.choice([(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)])
    return dict(kind="poly", a=rng.randint(-2, 2), b=rng.randint(-2, 2), s=s, k=k)
