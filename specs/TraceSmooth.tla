------------------------------- MODULE TraceSmooth -------------------------------
(* smooth: a lattice curve (moves, starting at s) and for each point how far it moved      *)
(* (1/1000).  shift: results for the same curve started elsewhere, rotated back            *)
(* (1/1000000).                                                                            *)
EXTENDS Smooth, TraceBase
SmoothFails(e) ==
  LET P == TLCEval(Shift(Curve(e.mv), e.s))
      n == Len(P)
      C == TLCEval(Corners(P, e.find, e.cut))
      Mk == TLCEval(Marked(n, C, e.b))
      Rs == TLCEval(Runs(n, Mk))
      D == e.moved
  IN IF TooMuch(n, Mk) /\ C # {} THEN Cl(e.exc = "ValueError", "too_much_refused")
     ELSE IF e.exc # "none" THEN IF e.clean THEN {"refused_" \o e.exc} ELSE {}
     ELSE IF e.gaveup THEN Cl(~e.clean /\ C # {}, "gave_up")
     ELSE Cl(e.n = n, "length") \cup (IF e.n # n THEN {} ELSE
        Cl(\A i \in 1..n : D[i] < BIG, "finite")
        \cup Cl(C = {} => \A i \in 1..n : D[i] = 0 /\ e.same[i], "no_corner_unchanged")
        \cup (IF ~e.clean THEN {} ELSE
           Cl(\A i \in 1..n : (i - 1) \notin Mk => e.same[i], "away_from_corners_unchanged")
           \cup Cl(\A R \in Rs : \E i \in R : D[i + 1] >= 50, "corner_smoothed")
           \cup Cl(\A R \in Rs : D[FirstOf(n, R) + 1] <= 700 /\ D[LastOf(n, R) + 1] <= 700, "ends_joined")
           \cup Cl(\A R \in Rs : \A i \in R : D[i + 1] <= 1500 * (e.b + e.find), "stays_near")))
ShiftFails(e) == Cl(e.exc1 = e.exc2 /\ e.gu1 = e.gu2, "same_outcome_for_every_start")
  \cup Cl(Len(e.a) = Len(e.c) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.c[i], 2), "start_point_independent")
Fails(e) == CASE e.ev = "smooth" -> SmoothFails(e)
              [] e.ev = "shift" -> ShiftFails(e)
              [] e.ev = "free" -> Cl(e.exc = "ValueError" \/ (e.exc = "none" /\ (e.gaveup \/ (e.len = e.n /\ e.finite))), "arrays_or_refusal") \cup Cl(e.inputkept, "input_unchanged")
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
