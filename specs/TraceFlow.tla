-------------------------------- MODULE TraceFlow --------------------------------
EXTENDS Flow, TraceBase
\* recorded positions are 2*position scaled by SC
SC == 5000
Same(r, p, tol) == Near(r[1], p[1] * SC, tol) /\ Near(r[2], p[2] * SC, tol)

\* trace: ps start points (doubled lattice), ys, res[i][n] = recorded; shape/want: result shape and expected shape
TraceFails(e) ==
  LET w == Trace(e.f, e.ps, e.ys) IN
  Cl(e.shape = e.want, "shape")
  \cup Cl(Len(e.res) = Len(e.ys) /\ \A i \in 1..Len(e.ys) : Len(e.res[i]) = Len(e.ps), "complete")
  \cup (IF Len(e.res) # Len(e.ys) THEN {} ELSE
    Cl(\A n \in 1..Len(e.ps) : Same(e.res[1][n], e.ps[n], 1), "first_is_start")
    \cup UNION {Cl(\A n \in 1..Len(e.ps) : Same(e.res[i][n], w[i][n], e.tol), IF e.ys[2] > e.ys[1] THEN "position_forward" ELSE "position_backward") : i \in 2..Len(e.ys)})
  \cup Cl(e.kept, "input_modified")

\* pair: the same points traced in a different company / order / in two steps / back again; a, b recorded (same scale)
PairFails(e) == Cl(Len(e.a) = Len(e.b) /\ \A n \in 1..Len(e.a) : Near(e.a[n][1], e.b[n][1], e.tol) /\ Near(e.a[n][2], e.b[n][2], e.tol), e.what)

\* refuse: start shapes sx, sz, number of y positions
RefuseFails(e) == Cl((e.exc = "ValueError") <=> (~Accepted(e.sx, e.sz) \/ e.ny < 2), "refusal") \cup Cl(e.exc \in {"ValueError", "none"}, "refusal_kind")

\* poincare: res[rev][slice][n]; ys sorted slice positions (doubled), yperiod doubled
PoinFails(e) ==
  Cl(e.shape = e.want, "poincare_shape")
  \cup Cl(e.slices = e.ys, "poincare_slices")
  \cup (IF e.shape # e.want THEN {} ELSE
     UNION {UNION {Cl(\A n \in 1..Len(e.ps) : Same(e.res[v][s][n], Flow(e.f, e.ps[n], e.ys[1] \div 1000, (e.ys[s] \div 1000) + (v - 1) * e.per), e.tol),
                      IF v = 1 THEN "poincare_first_revolution" ELSE "poincare_revolution") : s \in 1..Len(e.ys)} : v \in 1..e.revs})
  \cup Cl(e.kept, "input_modified")
PoinRefuseFails(e) == Cl((e.exc = "ValueError") <=> e.bad, "poincare_refusal")
PoinSpacingFails(e) == Cl(Len(e.slices) = e.nplot /\ \A s \in 1..Len(e.slices) : Near(e.slices[s] * e.nplot, (s - 1) * e.per * 1000, e.nplot), "poincare_spacing")

Fails(e) == CASE e.ev = "trace" -> TraceFails(e)
              [] e.ev = "pair" -> PairFails(e)
              [] e.ev = "refuse" -> RefuseFails(e)
              [] e.ev = "poin" -> PoinFails(e)
              [] e.ev = "poinrefuse" -> PoinRefuseFails(e)
              [] e.ev = "poinspacing" -> PoinSpacingFails(e)
              [] OTHER -> ExcFails(e)

Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
