--------------------------------- MODULE MCDiff ---------------------------------
EXTENDS Diff, TLC, Json
CONSTANTS MaxN, M
VARIABLES c, n, off, pc
vars == <<c, n, off, pc>>
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Init == c \in [1..5 -> -M..M] /\ n \in 5..MaxN /\ off \in {-3, 0} /\ pc = 0
Next == pc = 0 /\ pc' = 1 /\ PrintT("VFSCEN " \o ToJson([c |-> c, n |-> n, off |-> off])) /\ UNCHANGED <<c, n, off>>
Spec == Init /\ [][Next]_vars
F(k) == TLCEval([i \in 1..n |-> Poly(SubSeq(c, 1, k), i + off)])
D(k) == TLCEval([i \in 1..n |-> DPoly(SubSeq(c, 1, k), i + off)])
Exact2Linear == LET a == TLCEval(C2(F(2), FALSE))  b == D(2) IN \A i \in 1..n : a[i] = 2 * b[i]
Exact2Quadratic == LET a == TLCEval(C2(F(3), FALSE))  b == D(3) IN \A i \in 2..n - 1 : a[i] = 2 * b[i]
Exact4Quartic == LET a == TLCEval(C4(F(5), FALSE))  b == D(5) IN \A i \in 1..n : a[i] = 12 * b[i]
PeriodicSum == LET f == F(5) IN Sum(C2(f, TRUE), n) = 0 /\ Sum(C4(f, TRUE), n) = 0
Shifted == LET f == F(5)  g == TLCEval([i \in 1..n |-> f[Cyc(i + 1, n)]])
               a2 == TLCEval(C2(f, TRUE))  b2 == TLCEval(C2(g, TRUE))  a4 == TLCEval(C4(f, TRUE))  b4 == TLCEval(C4(g, TRUE)) IN
  \A i \in 1..n : b2[i] = a2[Cyc(i + 1, n)] /\ b4[i] = a4[Cyc(i + 1, n)]
==============================================================================
