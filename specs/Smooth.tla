---------------------------------- MODULE Smooth ----------------------------------
(* Smoothing of a closed curve: points where the curve turns sharply are found, the        *)
(* neighbourhoods of these points form runs, and each run is replaced by a smooth piece.     *)
(* Points are numbered 0..n-1 around the curve; everything is cyclic.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dirs == [E |-> <<1, 0>>, N |-> <<0, 1>>, W |-> <<-1, 0>>, S |-> <<0, -1>>, NE |-> <<1, 1>>, NW |-> <<-1, 1>>, SW |-> <<-1, -1>>, SE |-> <<1, -1>>]
\* closed lattice curve drawn by moves <<direction, steps>>
RECURSIVE Draw(_, _, _)
Draw(mv, p, acc) ==
  IF mv = <<>> THEN [pts |-> acc, end |-> p]
  ELSE IF mv[1][2] = 0 THEN Draw(Tail(mv), p, acc)
  ELSE LET d == Dirs[mv[1][1]] IN Draw(<<<<mv[1][1], mv[1][2] - 1>>>> \o Tail(mv), <<p[1] + d[1], p[2] + d[2]>>, Append(acc, p))
Closed(mv) == Draw(mv, <<0, 0>>, <<>>).end = <<0, 0>>
Curve(mv) == Draw(mv, <<0, 0>>, <<>>).pts
\* shifted to begin at point s, possibly traversed backwards
At(P, i) == P[(i % Len(P)) + 1]
Shift(P, s) == [i \in 1..Len(P) |-> At(P, i - 1 + s)]
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
\* the direction from point i + d to the points d and 2d before it differs by more than the cutoff (cosine cut/100)
Sharp(P, i, d, cut) == LET a == Sub(At(P, i + d), At(P, i))  b == Sub(At(P, i + d), At(P, i - d + Len(P)))  p == Dot(a, b)
                       IN Dot(a, a) # 0 /\ Dot(b, b) # 0 /\ (p < 0 \/ (p * p) * 10000 < (cut * cut) * (Dot(a, a) * Dot(b, b)))
\* the comparison is not decided by rounding
Clear(P, i, d, cut) == LET a == Sub(At(P, i + d), At(P, i))  b == Sub(At(P, i + d), At(P, i - d + Len(P)))  p == Dot(a, b)
                       IN Dot(a, a) # 0 /\ Dot(b, b) # 0 /\ (p * p) * 10000 # (cut * cut) * (Dot(a, a) * Dot(b, b))
Corners(P, find, cut) == {i \in 0..Len(P) - 1 : \E d \in 1..find : Sharp(P, i, d, cut)}
Decided(P, find, cut) == \A i \in 0..Len(P) - 1, d \in 1..find : Clear(P, i, d, cut)
CycDist(n, i, j) == LET k == (i - j + n) % n IN IF 2 * k > n THEN n - k ELSE k
Marked(n, C, b) == {i \in 0..n - 1 : \E c \in C : CycDist(n, i, c) <= b}
\* runs of marked points, declaratively: a run is named by its first point
Firsts(n, M) == {i \in M : (i - 1 + n) % n \notin M}
RECURSIVE RunFrom(_, _, _)
RunFrom(n, M, i) == IF i \notin M THEN {} ELSE {i} \cup RunFrom(n, M \ {i}, (i + 1) % n)
Runs(n, M) == {RunFrom(n, M, i) : i \in Firsts(n, M)}
LastOf(n, R) == CHOOSE i \in R : (i + 1) % n \notin R
FirstOf(n, R) == CHOOSE i \in R : (i - 1 + n) % n \notin R
TooMuch(n, M) == M = 0..n - 1 \/ \E R \in Runs(n, M) : 2 * Cardinality(R) >= n
==============================================================================
