------------------------------- MODULE TraceMetric ------------------------------
EXTENDS Metric, TraceBase

\* one answer: n-th request of a history, op = 0 (grid) or a field; v = recorded arrays [y][x] (minimum and maximum over z)
All(c, P(_, _)) == \A j \in 1..c.ny : \A i \in 1..c.nx : P(j, i)
\* derivatives of a twisted annulus with few rows carry more of the spline's error
Tol(c, pl, v) == IF c.kind = "rect" THEN 2 ELSE IF pl.sh = 0 THEN 2 + (Abs(v) \div 400) ELSE 2 + (Abs(v) \div 40)
YOf(c, j) == j - 1
AnsFails(e) ==
  LET c == e.c  f == e.f IN
  Cl(All(c, LAMBDA j, i : Near(e.sxx[j][i][1], SXX(c, c.pl[j], i - 1), Tol(c, c.pl[j], SXX(c, c.pl[j], i - 1))) /\ Near(e.sxx[j][i][2], SXX(c, c.pl[j], i - 1), Tol(c, c.pl[j], SXX(c, c.pl[j], i - 1)))), "step_x")
  \cup Cl(All(c, LAMBDA j, i : Near(e.szz[j][i][1], SZZ(c, c.pl[j], i - 1), Tol(c, c.pl[j], SZZ(c, c.pl[j], i - 1))) /\ Near(e.szz[j][i][2], SZZ(c, c.pl[j], i - 1), Tol(c, c.pl[j], SZZ(c, c.pl[j], i - 1)))), "step_z")
  \cup Cl(All(c, LAMBDA j, i : Near(e.sxz[j][i][1], SXZ(c, c.pl[j], i - 1), Tol(c, c.pl[j], SZZ(c, c.pl[j], i - 1))) /\ Near(e.sxz[j][i][2], SXZ(c, c.pl[j], i - 1), Tol(c, c.pl[j], SZZ(c, c.pl[j], i - 1)))), "step_xz")
  \cup Cl(e.invdev <= 3, "inverse") \cup Cl(e.posdef, "positive_definite")
  \cup Cl(All(c, LAMBDA j, i : e.dy[j][i] = <<1000000, 1000000>>), "dy")
  \cup Cl(e.shapes, "shape")
  \cup (IF e.op = 0 THEN
          Cl(All(c, LAMBDA j, i : e.gyy[j][i] = <<1000, 1000>> /\ e.cyy[j][i] = <<1000000, 1000000>>), "grid_yy_changed")
          \cup Cl(~e.extra, "grid_entries_changed")
        ELSE
          Cl(All(c, LAMBDA j, i : \A s \in 1..2 : LET x == XAt(c.pl[j], i - 1)  y == YOf(c, j) IN
                Near(e.gyy[j][i][s] * GyyDen(f, x, y), 1000 * GyyNum(f, x, y), 1 + GyyDen(f, x, y))), "g_yy")
          \cup Cl(All(c, LAMBDA j, i : \A s \in 1..2 : LET x == XAt(c.pl[j], i - 1)  y == YOf(c, j) IN
                e.cyy[j][i][s] <= 4000000 /\ Near(e.cyy[j][i][s] * GyyNum(f, x, y), 1000000 * GyyDen(f, x, y), 1 + GyyNum(f, x, y))), "gyy")
          \cup Cl(All(c, LAMBDA j, i : \A s \in 1..2 : Near(e.b2[j][i][s], 1000 * B2(f, XAt(c.pl[j], i - 1), YOf(c, j)), 2)), "B")
          \cup Cl(All(c, LAMBDA j, i : \A s \in 1..2 : e.p[j][i][s] = 1000 * (f.p + YOf(c, j))), "pressure"))

Fails(e) == CASE e.ev = "ans" -> AnsFails(e)
              [] OTHER -> ExcFails(e)

Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
