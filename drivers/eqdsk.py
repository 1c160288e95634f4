"""g-eqdsk files with a known flux function"""
import os
import numpy as np

class Eq:
    """psi(R,Z) polynomial of low degree (bicubic splines reproduce it), f and p polynomials of psinorm"""
    def __init__(self, k=1, nr=11, nz=15, wall=True, bdry=True, rleft=1.0, rdim=2.0, zmid=0.25, zdim=3.0, sgn=1):
        self.nr, self.nz = nr, nz
        self.rleft, self.rdim, self.zmid, self.zdim = rleft, rdim, zmid, zdim
        self.r = np.linspace(rleft, rleft + rdim, nr); self.z = np.linspace(zmid - zdim / 2, zmid + zdim / 2, nz)
        self.R0, self.Z0 = rleft + 0.5 * rdim, zmid + 0.1
        self.k, self.sgn, self.wall, self.bdry = k, sgn, wall, bdry
        self.ax = 0.1 * k * sgn
        self.bd = self.ax + sgn * 0.5
        # wall: an octagon; boundary of the plasma: psi = bd
        t = np.linspace(0, 2 * np.pi, 9)[:-1] + 0.2
        self.rlim, self.zlim = self.R0 + 0.45 * rdim * np.cos(t), self.Z0 + 0.42 * zdim * np.sin(t)
        t = np.linspace(0, 2 * np.pi, 80, endpoint=False)
        # psi = ax + sgn*(a (R-R0)^2 + b (Z-Z0)^2 + ...): ellipse psi = bd (without the cubic part)
        a, b, c = self.abc()
        rb, zb = [], []
        for th in t:
            lo, hi = 0.0, 0.6 * min(rdim, zdim)
            for _ in range(60):
                m = 0.5 * (lo + hi)
                if (self.psi(self.R0 + m * np.cos(th), self.Z0 + m * np.sin(th)) - self.ax) * sgn < 0.5:
                    lo = m
                else:
                    hi = m
            rb.append(self.R0 + lo * np.cos(th)); zb.append(self.Z0 + lo * np.sin(th))
        self.rb, self.zb = np.array(rb), np.array(zb)
    def abc(self):
        return 0.9 + 0.1 * self.k, 0.7, 0.05 * self.k
    def psi(self, R, Z):
        a, b, c = self.abc()
        x, y = R - self.R0, Z - self.Z0
        return self.ax + self.sgn * (a * x**2 + b * y**2 + c * x**2 * y + 0.03 * x * y)
    def dR(self, R, Z):
        a, b, c = self.abc(); x, y = R - self.R0, Z - self.Z0
        return self.sgn * (2 * a * x + 2 * c * x * y + 0.03 * y)
    def dZ(self, R, Z):
        a, b, c = self.abc(); x, y = R - self.R0, Z - self.Z0
        return self.sgn * (2 * b * y + c * x**2 + 0.03 * x)
    def f(self, pn):
        pn = np.clip(pn, 0, 1)
        return 2.0 + self.k + 0.5 * pn - 0.2 * pn**2
    def p(self, pn):
        pn = np.clip(pn, 0, 1)
        return 100.0 * (1 - pn) ** 2 + self.k
    def pn(self, R, Z):
        return (self.psi(R, Z) - self.ax) / (self.bd - self.ax)
    def write(self, fn):
        from freeqdsk import geqdsk
        s = np.linspace(0, 1, self.nr)
        R, Z = np.meshgrid(self.r, self.z, indexing="ij")
        d = dict(comment="test", shot=1, time_slice=1, nx=self.nr, ny=self.nz, rdim=self.rdim, zdim=self.zdim, rcentr=self.R0, bcentr=float(self.f(1.0) / self.R0), rleft=self.rleft, zmid=self.zmid,
                 rmagx=self.R0, zmagx=self.Z0, simagx=self.ax, sibdry=self.bd, cpasma=1e5, fpol=self.f(s), pres=self.p(s), ffprime=np.zeros(self.nr), pprime=np.zeros(self.nr), psi=self.psi(R, Z), qpsi=np.ones(self.nr),
                 rbdry=self.rb if self.bdry else np.zeros(0), zbdry=self.zb if self.bdry else np.zeros(0), rlim=self.rlim if self.wall else np.zeros(0), zlim=self.zlim if self.wall else np.zeros(0), nbdry=len(self.rb) if self.bdry else 0, nlim=len(self.rlim) if self.wall else 0)
        with open(fn, "w") as f:
            geqdsk.write(d, f)
