-------------------------------- MODULE TraceRZLine --------------------------------
EXTENDS RZLine, TraceBase
\* line: P, anti, out (points of the line), th (angles times n / 2 pi, in 1/1000)
LineFails(e) ==
  Cl(e.out = LineOf(e.P, e.anti), "points_and_orientation")
  \cup Cl(\A i \in 1..Len(e.th) : Near(e.th[i], (i - 1) * 1000, 1), "angles")
  \cup Cl(e.unchanged, "input_unchanged")
\* poly: L (line), K, q (list), R, Z (results times K in 1/1000)
PolyFails(e) == Cl(\A i \in 1..Len(e.q) : LET p == PolyK(e.L, e.q[i], e.K) IN Near(e.R[i], p[1] * 1000, 2) /\ Near(e.Z[i], p[2] * 1000, 2), "polygon_position")
\* spl: values at the angles of the points, some turns away (m)
SplFails(e) == Cl(\A i \in 1..Len(e.L) : Near(e.R[i], e.L[i][1] * 1000, 2) /\ Near(e.Z[i], e.L[i][2] * 1000, 2), "spline_through_points")
\* dist (order 1): d in 1/100, squared lengths from the points
DistFails(e) ==
  LET n == Len(e.L)  s == [i \in 1..n |-> e.d[i + 1] - e.d[i]] IN
  Cl(Len(e.d) = n + 1 /\ e.d[1] = 0, "distance_starts_at_0")
  \cup Cl(\A i \in 1..n : s[i] >= 0, "distance_monotone")
  \cup (IF e.exact THEN Cl(\A i \in 1..n : Near(s[i] * s[i], ((10000 * e.w[i]) * e.w[i]) * Dist2(e.L[i], e.L[Nxt(e.L, i)]), 4 * s[i] + 8), "distance_is_edge_length")
        ELSE Cl(\A i \in 1..n : s[i] + 2 >= e.chord[i], "arc_not_shorter_than_chord")
             \cup Cl(Near(e.d[n + 1], e.total, 2 + e.total \div 500), "total_length")
             \cup Cl(\A i \in 1..n : Near(s[i], e.arc[i], 3 + e.total \div 500), "arc_lengths"))
\* equal: n points; along: position along the original curve of each (1/1000 of the total), off: distance from the curve
EqualFails(e) ==
  Cl(Len(e.along) = e.n, "number_of_points")
  \cup Cl(\A i \in 1..Len(e.along) : LET w == ((i - 1) * 100000) \div e.n  d == Abs(e.along[i] - w) IN Min(d, 100000 - d) <= e.tol, "equal_spacing")
  \cup Cl(\A i \in 1..Len(e.off) : e.off[i] <= e.otol, "on_the_curve")
  \cup Cl(e.start, "same_start")
\* closest: th in [0, 2 pi); squared distances (1/10000 units) of the polygon point there and of the nearest point
ClosestFails(e) ==
  Cl(e.inrange, "angle_in_range")
  \cup Cl(e.dist <= e.nearest + 1, "not_farther_than_nearest_point")
  \cup Cl(e.dist >= e.best - 1, "on_the_line")
  \cup (IF e.simple THEN Cl(e.dist <= e.best + e.btol, "closest") ELSE {})
\* order: res = numbers of the points of the line, m = number of points, area sign, convex: must be in order
OrderFails(e) ==
  Cl(e.exc = "none", "no_failure")
  \cup (IF e.exc = "none" THEN
     Cl(IsPerm(e.res, e.m), "each_point_once") \cup Cl(e.area > 0, "anticlockwise")
     \cup (IF e.ordered /\ IsPerm(e.res, e.m) THEN Cl(CyclicUp(e.res), "order_around_curve") ELSE {})
     \cup Cl(e.unchanged, "input_unchanged") ELSE {})
\* greedy: pts (distinct distances), tours from each start, lens (arc lengths, 1/1000), got (of the line returned)
\* tour i of the list starts at the first point of the rolled list and always goes on to the nearest point left
GreedyTour(P, t) == \A k \in 1..(Len(t) - 1) : \A j \in (k + 1)..Len(t) : Dist2(P[t[k]], P[t[k + 1]]) <= Dist2(P[t[k]], P[t[j]])
GreedyFails(e) ==
  Cl(e.exc = "none", "no_failure")
  \cup (IF e.exc = "none" /\ (\A i \in 1..Len(e.tours) : IsPerm(e.tours[i], Len(e.pts)) /\ GreedyTour(e.pts, e.tours[i])) /\ {e.tours[i][1] : i \in 1..Len(e.tours)} = 1..Len(e.pts)
       THEN Cl(\A i \in 1..Len(e.lens) : e.got <= e.lens[i] + 2, "no_longer_than_any_nearest_neighbour_tour")
       ELSE {})
Fails(e) == CASE e.ev = "line" -> LineFails(e)
              [] e.ev = "poly" -> PolyFails(e)
              [] e.ev = "spl" -> SplFails(e)
              [] e.ev = "dist" -> DistFails(e)
              [] e.ev = "equal" -> EqualFails(e)
              [] e.ev = "closest" -> ClosestFails(e)
              [] e.ev = "order" -> OrderFails(e)
              [] e.ev = "greedy" -> GreedyFails(e)
              [] e.ev = "shorter" -> Cl(e.a <= e.b + 2, e.what)
              [] e.ev = "same" -> Cl(e.a = e.b, e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
