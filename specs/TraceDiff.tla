-------------------------------- MODULE TraceDiff --------------------------------
(* line: one line of the array along the differentiated axis: p(i + off) * a + b, and   *)
(* its derivative times 2 or 12, in 1/1000.                                             *)
EXTENDS Diff, TraceBase
Judged(e, i) == CASE e.op = "c4" -> TRUE
                  [] e.op = "c2" /\ Len(e.c) <= 2 -> TRUE
                  [] OTHER -> i > 1 /\ i < e.n
LineFails(e) ==
  LET fac == IF e.op = "c2" THEN 2 ELSE 12
      w == IF e.op = "c2" THEN 1 ELSE 2 IN
  IF ~e.per
  THEN Cl(\A i \in 1..e.n : Judged(e, i) => Near(e.d[i], ((fac * 1000) * e.a) * DPoly(e.c, i + e.off), e.tol), IF e.op = "c2" THEN "c2_exact" ELSE "c4_exact")
  ELSE Cl(\A i \in 1 + w..e.n - w : Near(e.d[i], ((fac * 1000) * e.a) * DPoly(e.c, i + e.off), e.tol), "periodic_exact_inside")
       \cup Cl(Near(SumSeq(e.d), 0, e.tol * e.n), "periodic_sum_zero")
\* shift: result of the shifted input is the shifted result
ShiftFails(e) == Cl(Len(e.d) = Len(e.ds) /\ \A i \in 1..Len(e.d) : Near(e.ds[i], e.d[Cyc(i + e.s, Len(e.d))], 1), "periodic_shift")
Fails(e) == CASE e.ev = "line" -> LineFails(e)
              [] e.ev = "shift" -> ShiftFails(e)
              [] e.ev = "same" -> Cl(e.a = e.b, e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
