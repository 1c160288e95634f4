-------------------------------- MODULE MCDommaschk --------------------------------
(* Two modes, walked around the reference cylinder: periodicity, rotation of the            *)
(* coefficients, superposition, parity and the curl-free condition on the cylinder.           *)
EXTENDS Dommaschk, Json
CONSTANTS MaxM, MaxL
VARIABLES m1, m2, z, k, done
vars == <<m1, m2, z, k, done>>
Co == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, 2, -1, 1>>}
Mode(m, l, c) == [m |-> m, l |-> l, a |-> c[1], b |-> c[2], c |-> c[3], d |-> c[4]]
Init == /\ m1 \in {Mode(m, l, c) : m \in 0..MaxM, l \in 0..MaxL, c \in Co}
        /\ m2 \in {Mode(m, l, <<0, 2, 1, -1>>) : m \in 0..MaxM, l \in 1..MaxL}
        /\ z = 0 /\ k = 0 /\ done = FALSE
A == <<m1, m2>>
Next == \/ k < 3 /\ k' = k + 1 /\ UNCHANGED <<m1, m2, z, done>>
        \/ z < 2 /\ z' = z + 1 /\ UNCHANGED <<m1, m2, k, done>>
        \/ z = 2 /\ k = 3 /\ ~done /\ done' = TRUE /\ UNCHANGED <<m1, m2, z, k>>
           /\ ((<<m1.m, m1.l>> # <<m2.m, m2.l>> /\ Norm(A) # 0) => PrintT("VFSCEN " \o ToJson([A |-> A])))
Spec == Init /\ [][Next]_vars
Periodic == Raw(A, z, k + 4) = Raw(A, z, k)
Rot(q) == [q EXCEPT !.a = q.a * Cos4(q.m) + q.b * Sin4(q.m), !.b = q.b * Cos4(q.m) - q.a * Sin4(q.m),
                    !.c = q.c * Cos4(q.m) + q.d * Sin4(q.m), !.d = q.d * Cos4(q.m) - q.c * Sin4(q.m)]
Rotation == Raw(<<Rot(m1), Rot(m2)>>, z, k) = Raw(A, z, k + 1)
Superposition == LET s == Raw(A, z, k)  p == Raw(<<m1>>, z, k)  q == Raw(<<m2>>, z, k) IN
    s[1] = p[1] + q[1] /\ s[3] = p[3] + q[3] /\ s[2] + Den = p[2] + q[2]
\* d BZ / d phi = d (R Bphi) / dz; differences over two steps are exact up to second order
DPhi(q) == [q EXCEPT !.a = q.m * q.b, !.b = -(q.m * q.a)]
CurlFree == (m1.l <= 2) => 2 * RawZ(<<DPhi(m1)>>, z, k) = RawP(<<m1>>, z + 1, k) - RawP(<<m1>>, z - 1, k)
Parity == LET s == IF m1.l % 2 = 0 THEN 1 ELSE -1 IN
    RawP(<<m1>>, -z, k) - Den = s * (RawP(<<m1>>, z, k) - Den) /\ RawR(<<m1>>, -z, k) = -(s * RawR(<<m1>>, z, k))
==============================================================================
