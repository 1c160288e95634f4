------------------------------- MODULE MCRegion --------------------------------
(* Draws every simple polygon on a small lattice, vertex by vertex.              *)
EXTENDS Region, TLC, Json, FiniteSets
CONSTANTS NX, NZ, MaxV

Pts == {<<2 * x, 2 * z>> : x \in 0..(NX - 1), z \in 0..(NZ - 1)}
\* queries: all lattice points and the points half way between them, one row outside included
Qs == {<<x, z>> : x \in -1..(2 * NX - 1), z \in -1..(2 * NZ - 1)}

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* closed segments share a point
Touch(a, b, c, d) == \/ OnEdge(a, b, c) \/ OnEdge(a, b, d) \/ OnEdge(c, d, a) \/ OnEdge(c, d, b)
                     \/ (Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0 /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0)

VARIABLES path, closed
vars == <<path, closed>>
Init == closed = FALSE /\ \E p \in Pts : path = <<p>>
\* extend by a vertex: the new edge meets the old path only at its start (no backtracking)
OkEdge(p) == LET n == Len(path)  a == path[n] IN
   /\ \A i \in 1..n : path[i] # p
   /\ \A i \in 1..(n - 2) : ~Touch(path[i], path[i + 1], a, p)
   /\ n > 1 => ~OnEdge(path[n - 1], a, p) /\ ~OnEdge(a, p, path[n - 1])
Extend == /\ ~closed /\ Len(path) < MaxV
          /\ \E p \in Pts : OkEdge(p) /\ path' = Append(path, p)
          /\ UNCHANGED closed
Close == /\ ~closed /\ Len(path) >= 3
         /\ LET n == Len(path)  a == path[n]  b == path[1] IN
            /\ \A i \in 2..(n - 2) : ~Touch(path[i], path[i + 1], a, b)
            /\ ~OnEdge(a, b, path[2]) /\ ~OnEdge(path[1], path[2], a)
            /\ ~OnEdge(a, b, path[n - 1]) /\ ~OnEdge(path[n - 1], a, b)
         /\ Area2(path) # 0
         /\ closed' = TRUE /\ UNCHANGED path
         /\ PrintT("VFSCEN " \o ToJson([kind |-> "poly", P |-> path]))
Next == Extend \/ Close
Spec == Init /\ [][Next]_vars

Rot(P) == [i \in 1..Len(P) |-> NextV(P, i)]
Rev(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
\* a simple polygon winds at most once, in the sense of its orientation
Simple == closed => \A q \in Qs : ~OnBoundary(path, q) => Winding(path, q) \in {0, Sgn(Area2(path))}
\* the vertical ray with half-open edges decides the same
RaysAgree == closed => \A q \in Qs : ~OnBoundary(path, q) => (Enclosed(path, q) <=> Cardinality(CrossedUp(path, q)) % 2 = 1)
\* neither the first vertex, the orientation nor a repeated closing vertex matters
Invariances == closed => \A q \in Qs : ~OnBoundary(path, q) =>
    /\ Enclosed(Rot(path), q) = Enclosed(path, q)
    /\ Enclosed(Rev(path), q) = Enclosed(path, q)
    /\ Enclosed(Append(path, path[1]), q) = Enclosed(path, q)
==============================================================================
