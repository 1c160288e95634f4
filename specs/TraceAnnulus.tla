------------------------------- MODULE TraceAnnulus -------------------------------
(* ell: an elliptic grid R, Z (1/5000), distance of the first and last row from the lines *)
(* (1/1000000), the angles of the inner row on the inner line (1/10000).                   *)
(* bal: distance of the interior points from the balance of their neighbours (1/1000000).  *)
(* lin: linear grid with the points of both lines at equal angles.  pair: two grids.       *)
EXTENDS Annulus, TraceBase
Shape(e) == Len(e.R) = e.q.nx /\ Len(e.Z) = e.q.nx /\ \A i \in 1..Len(e.R) : Len(e.R[i]) = e.q.nz /\ Len(e.Z[i]) = e.q.nz
Finite(e) == \A i \in 1..Len(e.R) : \A j \in 1..Len(e.R[i]) : Abs(e.R[i][j]) < 40000 /\ Abs(e.Z[i][j]) < 40000
Pt(e, i, j) == <<e.R[i][j], e.Z[i][j]>>
Nx(j, n) == (j % n) + 1
Areas(e, lo, hi) == {Cell2(Pt(e, i, j), Pt(e, i + 1, j), Pt(e, i + 1, Nx(j, e.q.nz)), Pt(e, i, Nx(j, e.q.nz))) : i \in lo..hi - 1, j \in 1..e.q.nz}
ExtraOK(e) == LET n == e.q.nz  a == e.q.ni + 1  b == e.q.nx - e.q.no IN
  /\ \A k \in 1..e.q.ni : \A j \in 1..n : Near(e.R[a - k][j], ExtraAt(e.R[a][j], e.R[a + 1][j], k), 2 + 2 * k) /\ Near(e.Z[a - k][j], ExtraAt(e.Z[a][j], e.Z[a + 1][j], k), 2 + 2 * k)
  /\ \A k \in 1..e.q.no : \A j \in 1..n : Near(e.R[b + k][j], ExtraAt(e.R[b][j], e.R[b - 1][j], k), 2 + 2 * k) /\ Near(e.Z[b + k][j], ExtraAt(e.Z[b][j], e.Z[b - 1][j], k), 2 + 2 * k)
\* angles go once around in the positive sense
StepOf(a, j, full) == ((a[Nx(j, Len(a))] - a[j]) + 2 * full) % full
Once(a, full) == SumSeq([j \in 1..Len(a) |-> StepOf(a, j, full)]) = full
EllFails(e) ==
  IF e.exc # "none" THEN IF e.exc = "RuntimeError" /\ e.mayfail THEN {} ELSE {"refused_" \o e.exc}
  ELSE IF ~Shape(e) THEN {"size"}
  ELSE IF ~Finite(e) THEN {"finite"}
  ELSE LET as == TLCEval(Areas(e, e.q.ni + 1, e.q.nx - e.q.no)) IN
     Cl(\A j \in 1..Len(e.din) : e.din[j] <= 100, "first_row_on_inner_line")
     \cup Cl(\A j \in 1..Len(e.dout) : e.dout[j] <= 100, "last_row_on_outer_line")
     \cup Cl(Once(e.ain, 62832), "inner_row_once_around")
     \cup Cl(Once(e.aout, 62832), "outer_row_once_around")
     \cup Cl((\A a \in as : a > 0) \/ (\A a \in as : a < 0), "no_folded_cells")
     \cup Cl(ExtraOK(e), "extra_rows")
     \cup (IF e.maxfac = 0 THEN {} ELSE LET st == {StepOf(e.ain, j, 62832) : j \in 1..Len(e.ain)} IN
            Cl(\A s \in st, t \in st : (s - 3) * 100 <= e.maxfac * (t + 3), "inner_spacing_ratio"))
LinFails(e) ==
  IF e.exc # "none" THEN {"refused_" \o e.exc}
  ELSE IF ~Shape(e) THEN {"size"}
  ELSE LET m == e.q.nx - 1 IN
     Cl(\A i \in 1..e.q.nx, j \in 1..e.q.nz : Near(e.R[i][j] * m, LinRow(e.iR[j], e.oR[j], i - 1, e.q.nx), 2 * m + 2) /\ Near(e.Z[i][j] * m, LinRow(e.iZ[j], e.oZ[j], i - 1, e.q.nx), 2 * m + 2), "linear_between_lines")
PairFails(e) == Cl(e.exca = e.excb, e.what \o "_outcome") \cup Cl(Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], e.tol), e.what)
Fails(e) == CASE e.ev = "ell" -> EllFails(e)
              [] e.ev = "lin" -> LinFails(e)
              [] e.ev = "bal" -> Cl(\A i \in 1..Len(e.res) : e.res[i] <= e.tol, "interior_points_in_balance")
              [] e.ev = "pair" -> PairFails(e)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
