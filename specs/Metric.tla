-------------------------------- MODULE Metric --------------------------------
(* The metric of a 3D grid.  The poloidal part belongs to the grid alone, the   *)
(* y part to the grid and the field asked for; asking is read-only.             *)
(* Lattice model: plane j has x = x0 + i*dx, z step dz (rectangle), or radius   *)
(* x0 + i*dx, sh cells of twist per row and nz cells around (annulus).          *)
EXTENDS Integers, Sequences

\* field f = [bx, by0, by1, bz0, bz1, cyl, r0, rx, ry, p]  (Bz = bz0 + bz1*x, By = by0 + by1*y, R = r0 + rx*x + ry*y)
By(f, y) == f.by0 + f.by1 * y
B2(f, x, y) == f.bx * f.bx + By(f, y) * By(f, y) + (f.bz0 + f.bz1 * x) * (f.bz0 + f.bz1 * x)
R2(f, x, y) == IF f.cyl THEN (f.r0 + f.rx * x + f.ry * y) * (f.r0 + f.rx * x + f.ry * y) ELSE 1
\* g_yy = R2 * B2 / By^2
GyyNum(f, x, y) == R2(f, x, y) * B2(f, x, y)
GyyDen(f, x, y) == By(f, y) * By(f, y)

\* squared lengths of one index step on an annulus, angle unit u = 2*pi/nz, u2 = u*u*10^6 rounded
U2(nz) == CASE nz = 20 -> 98696 [] nz = 24 -> 68539 [] nz = 32 -> 38553
XAt(pl, i) == pl.x0 + i * pl.dx
SXX(c, pl, i) == IF c.kind = "rect" THEN 1000 * pl.dx * pl.dx ELSE 1000 * pl.dx * pl.dx + ((XAt(pl, i) * XAt(pl, i) * pl.sh * pl.sh * U2(c.nz)) \div 1000)
SZZ(c, pl, i) == IF c.kind = "rect" THEN 1000 * pl.dz * pl.dz ELSE (XAt(pl, i) * XAt(pl, i) * U2(c.nz)) \div 1000
SXZ(c, pl, i) == IF c.kind = "rect" THEN 0 ELSE (XAt(pl, i) * XAt(pl, i) * pl.sh * U2(c.nz)) \div 1000
==============================================================================
