---------------------------------- MODULE Diff ----------------------------------
(* Finite differences of a sequence of integers (unit spacing): twice the second     *)
(* order and twelve times the fourth order derivative.                               *)
EXTENDS Integers, Sequences
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
RECURSIVE PolyUpTo(_, _, _)
PolyUpTo(c, x, k) == IF k = 0 THEN 0 ELSE c[k] * Pow(x, k - 1) + PolyUpTo(c, x, k - 1)
Poly(c, x) == PolyUpTo(c, x, Len(c))
DPoly(c, x) == IF Len(c) <= 1 THEN 0 ELSE Poly([k \in 1..Len(c) - 1 |-> k * c[k + 1]], x)

Cyc(i, n) == ((i - 1) % n) + 1
C2(f, per) == LET n == Len(f) IN
  [i \in 1..n |-> IF per THEN f[Cyc(i + 1, n)] - f[Cyc(i - 1 + n, n)]
                  ELSE IF i = 1 THEN f[3] - f[1] ELSE IF i = n THEN f[n] - f[n - 2] ELSE f[i + 1] - f[i - 1]]
C4(f, per) == LET n == Len(f) IN
  [i \in 1..n |->
     IF per \/ (i > 2 /\ i < n - 1) THEN 8 * (f[Cyc(i + 1, n)] - f[Cyc(i - 1 + n, n)]) - (f[Cyc(i + 2, n)] - f[Cyc(i - 2 + n, n)])
     ELSE IF i = 1 THEN -25 * f[1] + 48 * f[2] - 36 * f[3] + 16 * f[4] - 3 * f[5]
     ELSE IF i = 2 THEN -3 * f[1] - 10 * f[2] + 18 * f[3] - 6 * f[4] + f[5]
     ELSE IF i = n - 1 THEN -(-3 * f[n] - 10 * f[n - 1] + 18 * f[n - 2] - 6 * f[n - 3] + f[n - 4])
     ELSE -(-25 * f[n] + 48 * f[n - 1] - 36 * f[n - 2] + 16 * f[n - 3] - 3 * f[n - 4])]
==============================================================================
