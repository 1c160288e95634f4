--------------------------------- MODULE Dommaschk ---------------------------------
(* Vacuum fields from Dommaschk potentials.  A vacuum field is fixed by its values on the   *)
(* reference cylinder R = R_0: a mode (m, l) with coefficients a, b, c, d gives there         *)
(*   BR = (c cos m phi + d sin m phi) z^(l-1)/(l-1)!                                            *)
(*   Bphi = m (b cos m phi - a sin m phi) z^l/l!     BZ = (a cos m phi + b sin m phi) z^(l-1)/(l-1)! *)
(* with z in units of R_0, phi in quarter turns; 1 is added to Bphi, and the whole field is    *)
(* scaled so that Bphi = B_0 at (R_0, 0, 0).  Values are times Den.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cos4(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Den == 362880
Fact(k) == <<1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880>>[k + 1]
RECURSIVE Pow(_, _)
Pow(z, k) == IF k = 0 THEN 1 ELSE z * Pow(z, k - 1)
\* z^k / k! times Den; nothing for negative k
Mono(z, k) == IF k < 0 THEN 0 ELSE (Den \div Fact(k)) * Pow(z, k)
RECURSIVE Tot(_)
Tot(s) == IF s = <<>> THEN 0 ELSE Head(s) + Tot(Tail(s))
\* A: sequence of [m, l, a, b, c, d]
RawR(A, z, k) == Tot([i \in 1..Len(A) |-> (A[i].c * Cos4(A[i].m * k) + A[i].d * Sin4(A[i].m * k)) * Mono(z, A[i].l - 1)])
RawZ(A, z, k) == Tot([i \in 1..Len(A) |-> (A[i].a * Cos4(A[i].m * k) + A[i].b * Sin4(A[i].m * k)) * Mono(z, A[i].l - 1)])
RawP(A, z, k) == Den + Tot([i \in 1..Len(A) |-> A[i].m * (A[i].b * Cos4(A[i].m * k) - A[i].a * Sin4(A[i].m * k)) * Mono(z, A[i].l)])
Raw(A, z, k) == <<RawR(A, z, k), RawP(A, z, k), RawZ(A, z, k)>>
Norm(A) == RawP(A, 0, 0) \div Den
==============================================================================
