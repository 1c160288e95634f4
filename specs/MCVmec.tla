---------------------------------- MODULE MCVmec ----------------------------------
(* Small equilibria, followed point by point in both angles: symmetry, periodicity, the   *)
(* field of a helical axis, and fields linear in radius being found again on the surfaces.  *)
EXTENDS Vmec, Json
CONSTANTS MaxM, MaxN, NS
VARIABLES mode, co, u, v, done
vars == <<mode, co, u, v, done>>
Modes == {<<m, n>> : m \in 0..MaxM, n \in -MaxN..MaxN} \ {<<0, k>> : k \in -MaxN..0}
MO == << <<0, 0>>, mode >>
Q == [mo |-> MO, r |-> [k \in 1..NS |-> <<9, (k - 1) * co[1]>>], z |-> [k \in 1..NS |-> <<0, (k - 1) * co[2]>>],
      bu |-> [k \in 1..NS |-> IF k = 1 THEN <<0, 0>> ELSE <<2 * k + 1, co[1]>>],
      bv |-> [k \in 1..NS |-> IF k = 1 THEN <<0, 0>> ELSE <<4 - 2 * k, 1>>]]
Init == mode \in Modes /\ co \in {<<a, b>> : a \in 1..2, b \in -1..2} /\ u = 0 /\ v = 0 /\ done = FALSE
Next == \/ u < 4 /\ u' = u + 1 /\ UNCHANGED <<mode, co, v, done>>
        \/ v < 4 /\ v' = v + 1 /\ UNCHANGED <<mode, co, u, done>>
        \/ u = 4 /\ v = 4 /\ ~done /\ done' = TRUE /\ UNCHANGED <<mode, co, u, v>>
           /\ PrintT("VFSCEN " \o ToJson([mode |-> mode, co |-> co]))
Spec == Init /\ [][Next]_vars
Neg(t) == <<t[1], -t[2]>>
Symmetric == \A k \in 1..NS : Pos(Q, k, -u, -v) = Neg(Pos(Q, k, u, v))
FieldSymmetric == \A k \in 1..NS : LET a == B2(Q, k, u, v)  b == B2(Q, k, -u, -v) IN b = <<-a[1], a[2], a[3]>>
Periodic == \A k \in 1..NS : Pos(Q, k, u + 4, v) = Pos(Q, k, u, v) /\ Pos(Q, k, u, v + 4) = Pos(Q, k, u, v)
                             /\ B2(Q, k, u + 4, v) = B2(Q, k, u, v) /\ B2(Q, k, u, v + 4) = B2(Q, k, u, v)
\* half mesh values on a straight line: element k stands for radius k - 1/2 (1-based full mesh k)
LinearKept == \A k \in 1..NS : Full2(Q.bu, k, 1) = 2 * (2 * k + 1) + 2 /\ Full2(Q.bv, k, 1) = 2 * (4 - 2 * k) - 2
\* a wave of the phase m u - n v does not change along (n, m)
Moves == \A k \in 1..NS : Pos(Q, k, u + mode[2], v + mode[1]) = Pos(Q, k, u, v)
\* circular surfaces around a helical axis
HA == [R0 |-> 9, d |-> co[1], e |-> co[2], n |-> mode[2], bu |-> co[1], bv |-> co[2]]
HQ == [mo |-> << <<0, 0>>, <<0, mode[2]>>, <<1, 0>> >>, r |-> [k \in 1..NS |-> <<9, co[1], k - 1>>],
       z |-> [k \in 1..NS |-> <<0, co[2], k - 1>>], bu |-> [k \in 1..NS |-> <<co[1], 0, 0>>], bv |-> [k \in 1..NS |-> <<co[2], 0, 0>>]]
HelicalLinear == \A k \in 1..NS : LET p == Pos(HQ, k, u, v)  b == B2(HQ, k, u, v)  l == LinB(HA, p[1], p[2], v) IN
                    \A j \in 1..3 : b[j] = 2 * l[j]
==============================================================================
