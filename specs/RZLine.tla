---------------------------------- MODULE RZLine ----------------------------------
(* Closed lines through points.  P is a sequence of points <<R, Z>> (integers).        *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Nxt(P, i) == (i % Len(P)) + 1
Area2(P) == SumTo([i \in 1..Len(P) |-> P[i][1] * P[Nxt(P, i)][2] - P[Nxt(P, i)][1] * P[i][2]], Len(P))    \* > 0: anticlockwise
Rev(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
\* the line made from points: reversed when it has to be anticlockwise and is not
LineOf(P, anti) == IF anti /\ Area2(P) < 0 THEN Rev(P) ELSE P
\* polygon position at angle q/K of the spacing between two points, times K
PolyK(P, q, K) == LET n == Len(P)  i == ((q \div K) % n) + 1  r == q % K  j == (i % n) + 1 IN
  <<(K - r) * P[i][1] + r * P[j][1], (K - r) * P[i][2] + r * P[j][2]>>
Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

\* ordering of points: a result is a sequence of the numbers of the points
IsPerm(s, n) == Len(s) = n /\ {s[i] : i \in 1..n} = 1..n
\* consecutive numbers, cyclically, going up
CyclicUp(s) == \A i \in 1..Len(s) : s[(i % Len(s)) + 1] = (s[i] % Len(s)) + 1
InsertAfter(s, k, x) == [i \in 1..Len(s) + 1 |-> IF i <= k THEN s[i] ELSE IF i = k + 1 THEN x ELSE s[i - 1]]
==============================================================================
