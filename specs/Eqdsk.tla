---------------------------------- MODULE Eqdsk ----------------------------------
(* A tokamak equilibrium file: flux function on a mesh, profiles of the normalised flux, *)
(* plasma boundary and wall.  Lengths are in 1/10 relative to the magnetic axis, flux in  *)
(* 1/20000, its derivatives in 1/2000, normalised flux in 1/10000, profiles in 1/1000.    *)
EXTENDS Region, TLC
\* F.ax, F.bd: flux at axis and boundary; F.c = <<A, B, C, D>>
Shape(F, X, Y) == 10 * (F.c[1] * (X * X)) + 10 * (F.c[2] * (Y * Y)) + F.c[3] * ((X * X) * Y) + 10 * (F.c[4] * (X * Y))
Flux(F, X, Y) == F.ax + Shape(F, X, Y)
FluxR(F, X, Y) == 20 * (F.c[1] * X) + 2 * (F.c[3] * (X * Y)) + 10 * (F.c[4] * Y)
FluxZ(F, X, Y) == 20 * (F.c[2] * Y) + F.c[3] * (X * X) + 10 * (F.c[4] * X)
\* R times the poloidal field
RBR(F, X, Y) == -FluxZ(F, X, Y)
RBZ(F, X, Y) == FluxR(F, X, Y)
Norm(F, X, Y) == LET s == IF F.bd > F.ax THEN 1 ELSE -1 IN ((s * Shape(F, X, Y)) * 10000) \div (s * (F.bd - F.ax))
Clip(pn) == IF pn < 0 THEN 0 ELSE IF pn > 10000 THEN 10000 ELSE pn
\* profile <<p0, p1, p2>> at clipped normalised flux
Prof(p, pn) == p[1] + ((p[2] * pn) \div 10000) + ((p[3] * ((pn * pn) \div 10000)) \div 10000)
\* inside the plasma: inside the boundary when the file has one
Inside(F, X, Y) == F.bdry = <<>> \/ Enclosed(F.bdry, <<X, Y>>)
ProfAt(F, p, X, Y) == Prof(p, IF Inside(F, X, Y) THEN Clip(Norm(F, X, Y)) ELSE 10000)
OutsideWall(F, X, Y) == F.wall # <<>> /\ ~Enclosed(F.wall, <<X, Y>>)
==============================================================================
