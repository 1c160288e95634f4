------------------------------ MODULE TraceRegion ------------------------------
EXTENDS Region, TraceBase

\* poly: P vertices, qs query points, out[k] = 1 outside / 0 inside / -1 not a boolean; single: same points asked one at a time;
\* other: asked in another shape and order
PolyFails(e) ==
  UNION {LET q == e.qs[k] IN
         IF OnBoundary(e.P, q) THEN {}
         ELSE Cl((e.out[k] = 1) <=> ~Enclosed(e.P, q), IF Aligned(e.P, q) THEN "polygon_aligned" ELSE "polygon_general")
         : k \in 1..Len(e.qs)}
  \cup Cl(Len(e.out) = Len(e.qs) /\ \A k \in 1..Len(e.out) : e.out[k] \in {0, 1}, "boolean")
  \cup Cl(e.shape = e.qshape /\ e.oshape = e.osq, "shape")
  \cup Cl(\A k \in 1..Len(e.qs) : OnBoundary(e.P, e.qs[k]) \/ e.single[k] = e.out[k], "alone")
  \cup Cl(\A k \in 1..Len(e.qs) : OnBoundary(e.P, e.qs[k]) \/ e.other[k] = e.out[k], "batch")
  \cup Cl(e.kept, "input_modified")

RectFails(e) ==
  Cl(\A k \in 1..Len(e.qs) : (e.out[k] = 1) <=> OutsideRect(e.b, e.qs[k]), "rectangle")
  \cup Cl(e.shape = e.qshape, "shape") \cup Cl(e.single = e.out, "alone") \cup Cl(e.kept, "input_modified")

NoneFails(e) == Cl(\A k \in 1..Len(e.out) : e.out[k] = 0, "none_never_outside") \cup Cl(e.shape = e.qshape, "shape")

Fails(e) == CASE e.ev = "poly" -> PolyFails(e)
              [] e.ev = "rect" -> RectFails(e)
              [] e.ev = "none" -> NoneFails(e)
              [] OTHER -> ExcFails(e)

Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
