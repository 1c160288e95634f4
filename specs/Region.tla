-------------------------------- MODULE Region --------------------------------
(* Regions of the poloidal plane on an integer lattice: polygons (any simple    *)
(* polygon, either orientation, optional repeated closing vertex), rectangles   *)
(* and the unbounded plane.                                                     *)
EXTENDS Integers, Sequences

NextV(P, i) == P[(i % Len(P)) + 1]
Cross(a, b, q) == (b[1] - a[1]) * (q[2] - a[2]) - (q[1] - a[1]) * (b[2] - a[2])
Between(a, b, c) == (a <= c /\ c <= b) \/ (b <= c /\ c <= a)
OnEdge(a, b, q) == Cross(a, b, q) = 0 /\ Between(a[1], b[1], q[1]) /\ Between(a[2], b[2], q[2])
OnBoundary(P, q) == \E i \in 1..Len(P) : OnEdge(P[i], NextV(P, i), q)

\* winding number of the polygon around q (q not on the boundary), counted along the +x half line from q
RECURSIVE WindTo(_, _, _)
WindTo(P, q, i) ==
  IF i = 0 THEN 0 ELSE
  LET a == P[i]  b == NextV(P, i) IN
  WindTo(P, q, i - 1) + (IF a[2] <= q[2] /\ b[2] > q[2] /\ Cross(a, b, q) > 0 THEN 1
                         ELSE IF a[2] > q[2] /\ b[2] <= q[2] /\ Cross(a, b, q) < 0 THEN -1 ELSE 0)
Winding(P, q) == WindTo(P, q, Len(P))
Enclosed(P, q) == Winding(P, q) # 0

\* number of edges crossed by the half line from q towards +z, each edge containing its left end only
CrossedUp(P, q) == {i \in 1..Len(P) : LET a == P[i]  b == NextV(P, i) IN
     (a[1] <= q[1] /\ b[1] > q[1] /\ Cross(a, b, q) < 0) \/ (b[1] <= q[1] /\ a[1] > q[1] /\ Cross(b, a, q) < 0)}

RECURSIVE Area2To(_, _)
Area2To(P, i) == IF i = 0 THEN 0 ELSE Area2To(P, i - 1) + (P[i][1] * NextV(P, i)[2] - NextV(P, i)[1] * P[i][2])
Area2(P) == Area2To(P, Len(P))

\* a vertex has the same x as the point (the delicate queries of a vertical ray)
Aligned(P, q) == \E i \in 1..Len(P) : P[i][1] = q[1]

OutsideRect(b, q) == q[1] < b[1] \/ q[1] > b[2] \/ q[2] < b[3] \/ q[2] > b[4]
==============================================================================
