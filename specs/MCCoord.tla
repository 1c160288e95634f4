-------------------------------- MODULE MCCoord --------------------------------
(* A point moves over index space in quarter cells.                              *)
EXTENDS Coord, Sequences, TLC, Json
CONSTANTS Nxs, Nzs

Grids == {[kind |-> "rect", nx |-> a, nz |-> b, x0 |-> x, dx |-> d, z0 |-> z, dz |-> e]
             : a \in Nxs, b \in Nzs, x \in {-12, 40}, d \in {4, 12}, z \in {-8, 20}, e \in {4, 8}}
         \cup {[kind |-> "ann", nx |-> a, nz |-> 24, x0 |-> x, dx |-> 64, z0 |-> z, dz |-> 4]
             : a \in {5, 6}, x \in {400, 512}, z \in {0, 7}}

VARIABLES g, xq, zq
vars == <<g, xq, zq>>
Init == /\ g \in Grids /\ xq = 0 /\ zq = 0 /\ PrintT("VFSCEN " \o ToJson(g))
Lo == IF g.kind = "rect" THEN -6 ELSE 0
Hi == IF g.kind = "rect" THEN 4 * g.nx + 2 ELSE 4 * (g.nx - 1)
MoveX == \E d \in {-1, 1} : xq + d \in Lo..Hi /\ xq' = xq + d /\ UNCHANGED <<g, zq>>
MoveZ == \E d \in {-1, 1} : zq + d \in -9..(4 * g.nz + 9) /\ zq' = zq + d /\ UNCHANGED <<g, xq>>
Next == MoveX \/ MoveZ
Spec == Init /\ [][Next]_vars

RoundTrip == Searched(g, xq) => FindX(g, CoordX(g, xq)) = xq
RoundTripZ == (FindZ(g, CoordZ(g, zq)) - zq) % (4 * g.nz) = 0 /\ (g.kind = "rect" => FindZ(g, CoordZ(g, zq)) = zq)
Edges == ~Searched(g, xq) => FindX(g, CoordX(g, xq)) = (IF xq < 2 THEN -4 ELSE 4 * g.nx)
\* derivatives are those of the mapping
Derivs == g.kind = "rect" => /\ CoordX(g, xq + 4) - CoordX(g, xq) = Deriv(g, 1, 0)[1]
                             /\ CoordZ(g, zq + 4) - CoordZ(g, zq) = Deriv(g, 0, 1)[2]
==============================================================================
