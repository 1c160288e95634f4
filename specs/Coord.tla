--------------------------------- MODULE Coord ---------------------------------
(* Index space and real space of one poloidal plane.  Index positions are given  *)
(* in quarters of a cell.  A rectangle maps linearly to R, Z; an annulus maps    *)
(* linearly to radius and angle (angle measured in z cells) and is cyclic in z.  *)
EXTENDS Integers

\* g = [kind, nx, nz, x0, dx, z0, dz]; dx, dz multiples of 4, so quarter positions are lattice points
CoordX(g, xq) == g.x0 + ((xq * g.dx) \div 4)
CoordZ(g, zq) == IF g.kind = "rect" THEN g.z0 + ((zq * g.dz) \div 4) ELSE zq % (4 * g.nz)

\* inverse: x index in quarters; -4 / 4*nx marks the inner / outer half cell of an annulus
RawX(g, x) == (4 * (x - g.x0)) \div g.dx
FindX(g, x) == LET q == RawX(g, x) IN
   IF g.kind = "rect" THEN q ELSE IF q < 2 THEN -4 ELSE IF q > 4 * g.nx - 6 THEN 4 * g.nx ELSE q
FindZ(g, z) == IF g.kind = "rect" THEN (4 * (z - g.z0)) \div g.dz ELSE z

\* is the annulus index position one whose x is searched for (not in a half cell at the edge)
Searched(g, xq) == g.kind = "rect" \/ (xq >= 2 /\ xq <= 4 * g.nx - 6)
\* derivative of order (a, b) of (R, Z) with respect to the indices, rectangle
Deriv(g, a, b) == IF a = 1 /\ b = 0 THEN <<g.dx, 0>> ELSE IF a = 0 /\ b = 1 THEN <<0, g.dz>> ELSE <<0, 0>>
==============================================================================
