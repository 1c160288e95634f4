--------------------------------- MODULE MCStencil ---------------------------------
(* The operator is linear, so sums of two unit functions and constants are used on a rectangular plane: the operator conserves the volume       *)
(* integral, annihilates constants and is exact for f = R and f = R^2 (div grad R^2 = 2  *)
(* in a slab, 4 in a torus).                                                             *)
EXTENDS Stencil, TLC, Json, FiniteSets
CONSTANTS NX, NZ, MaxF, MaxD
VARIABLES g, f, pc
vars == <<g, f, pc>>
RECURSIVE Sum(_, _)
Sum(op, n) == IF n = 0 THEN 0 ELSE op[n] + Sum(op, n - 1)
C(fun) == [x \in 1..NX |-> [z \in 1..NZ |-> fun[x - 1]]]
Zero == [x \in 1..NX |-> [z \in 1..NZ |-> 0]]
Geo == [dR : 1..MaxD, dZ : 1..MaxD, R0 : {2, 5}, slab : BOOLEAN]
XX == C(RectXX(g.dR, g.dZ, g.R0, g.slab))
ZZ == C(RectZZ(g.dR, g.dZ, g.R0, g.slab))
V2 == RectVol2(g.dR, g.dZ, g.R0, g.slab)
D(h) == [x \in 2..NX - 1 |-> [z \in 1..NZ |-> Div(XX, Zero, Zero, ZZ, h, NZ, x, z)]]
RR == [x \in 1..NX |-> [z \in 1..NZ |-> (g.R0 + (x - 1) * g.dR)]]
RR2 == [x \in 1..NX |-> [z \in 1..NZ |-> RR[x][z] * RR[x][z]]]
Init == g \in Geo /\ (\E p, q \in (1..NX) \X (1..NZ), c \in 0..MaxF : f = [x \in 1..NX |-> [z \in 1..NZ |-> c + (IF c < 2 /\ <<x, z>> = p THEN 1 ELSE 0) + (IF c = 0 /\ <<x, z>> = q THEN 2 ELSE 0)]]) /\ pc = 0
Next == /\ pc = 0 /\ pc' = 1 /\ UNCHANGED <<g, f>>
        /\ (\A x \in 1..NX, z \in 1..NZ : f[x][z] = 2) => PrintT("VFSCEN " \o ToJson(g))
Spec == Init /\ [][Next]_vars
\* what leaves through the radial ends is all that is lost
Conserves == LET d == D(f) IN
  Sum([x \in 1..NX - 2 |-> Sum([z \in 1..NZ |-> d[x + 1][z]], NZ)], NX - 2)
    = Sum([z \in 1..NZ |-> FluxX(XX, Zero, f, NZ, NX - 1, z) - FluxX(XX, Zero, f, NZ, 1, z)], NZ)
ConstantIsZero == (\A x \in 1..NX, z \in 1..NZ : f[x][z] = f[1][1]) => \A x \in 2..NX - 1, z \in 1..NZ : D(f)[x][z] = 0
\* units: coefficients are in 1/(2 dR dZ), Div is 4 times: Div = 4 * 2 dR dZ * V * lap = 4 dR dZ * V2 * lap
ExactR == \A x \in 2..NX - 1, z \in 1..NZ : D(RR)[x][z] = IF g.slab THEN 0 ELSE 8 * g.dR * g.dZ * g.dR * g.dZ
ExactR2 == \A x \in 2..NX - 1, z \in 1..NZ : D(RR2)[x][z] = (IF g.slab THEN 2 ELSE 4) * 4 * g.dR * g.dZ * V2[x - 1]
==============================================================================
