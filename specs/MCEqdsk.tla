--------------------------------- MODULE MCEqdsk ---------------------------------
EXTENDS Eqdsk, Json
CONSTANTS As, Bs, Cs, Bds
Ds == {-1, 3}
Sgns == {1, -1}
Octagon == <<<<8, 4>>, <<4, 11>>, <<-4, 12>>, <<-8, 5>>, <<-8, -6>>, <<-3, -12>>, <<5, -10>>, <<9, -3>>>>
Divertor == <<<<7, 9>>, <<-7, 12>>, <<-8, -5>>, <<-3, -9>>, <<-5, -13>>, <<0, -11>>, <<4, -13>>, <<3, -8>>, <<9, -4>>>>
Plasma == <<<<6, 3>>, <<2, 8>>, <<-4, 7>>, <<-6, 0>>, <<-3, -8>>, <<3, -7>>>>
Small == <<<<4, 5>>, <<-5, 4>>, <<-4, -5>>, <<5, -2>>>>
Walls == {<<>>, Octagon, Divertor}
Bdrys == {<<>>, Plasma, Small}
Meshes == {<<21, 31>>, <<129, 161>>, <<101, 91>>, <<48, 48>>}
VARIABLES F, pc
vars == <<F, pc>>
Lat == {<<x, y>> : x \in {-9, -4, -1, 0, 3, 8}, y \in {-13, -6, 0, 1, 7, 12}}
Init == /\ pc = 0
        /\ \E a \in As, b \in Bs, c \in Cs \cup {-3}, d \in Ds, s \in Sgns, bd \in Bds, ax \in {0, 1700}, w \in Walls, p \in Bdrys, m \in Meshes :
             F = [c |-> <<s * a, s * b, s * c, s * d>>, ax |-> ax, bd |-> ax + s * bd, wall |-> w, bdry |-> p, mesh |-> m]
Next == pc = 0 /\ pc' = 1 /\ UNCHANGED F /\ PrintT("VFSCEN " \o ToJson(F))
Spec == Init /\ [][Next]_vars
\* the derivatives are those of the flux (exact for central differences of quadratics)
Derivs == \A q \in Lat : /\ Flux(F, q[1] + 1, q[2]) - Flux(F, q[1] - 1, q[2]) = 2 * FluxR(F, q[1], q[2])
                         /\ Flux(F, q[1], q[2] + 1) - Flux(F, q[1], q[2] - 1) = 2 * FluxZ(F, q[1], q[2])
\* the poloidal field lies in the surfaces of constant flux
Tangent == \A q \in Lat : RBR(F, q[1], q[2]) * FluxR(F, q[1], q[2]) + RBZ(F, q[1], q[2]) * FluxZ(F, q[1], q[2]) = 0
Neg == [F EXCEPT !.c = [i \in 1..4 |-> -F.c[i]], !.ax = -F.ax, !.bd = -F.bd]
\* reversing the current reverses the poloidal field and nothing else
Reversal == \A q \in Lat : Norm(Neg, q[1], q[2]) = Norm(F, q[1], q[2]) /\ RBR(Neg, q[1], q[2]) = -RBR(F, q[1], q[2]) /\ RBZ(Neg, q[1], q[2]) = -RBZ(F, q[1], q[2])
Axis == Norm(F, 0, 0) = 0 /\ RBR(F, 0, 0) = 0 /\ RBZ(F, 0, 0) = 0 /\ (F.bdry = <<>> \/ Inside(F, 0, 0)) /\ ~OutsideWall(F, 0, 0)
==============================================================================
