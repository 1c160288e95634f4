-------------------------------- MODULE TraceDagp --------------------------------
(* Events: reset(np), run (a run starts), plane(p) (coefficients of plane p are      *)
(* computed), stop(crashed) with what is in the file then: ok[p] = plane p holds      *)
(* exactly the reference coefficients, prog = stored counter (or -1).                 *)
EXTENDS TraceBase
VARIABLE s    \* [np, left: planes a run moved on from, comp: planes computed in this run, was: ok before this run]

Fails(e) ==
  CASE e.ev \in {"reset", "run"} -> {}
    [] e.ev = "plane" -> Cl(e.p >= s.left, "completed_plane_recomputed")
                         \cup Cl(e.p < s.np, "plane_exists")
                         \cup Cl(s.comp = <<>> \/ e.p = s.comp[Len(s.comp)] + 1, "planes_in_order_once")
    [] e.ev = "stop" -> \* every plane the run moved on from (all, when it ended) is right, earlier results are kept
         LET moved == IF e.crashed THEN Max(s.left, IF s.comp = <<>> THEN 0 ELSE s.comp[Len(s.comp)]) ELSE s.np IN
         Cl(\A p \in 0..s.np - 1 : p < moved => e.ok[p + 1], IF e.crashed THEN "completed_planes_right" ELSE "all_planes_right")
         \cup Cl(\A p \in 0..s.np - 1 : (s.was[p + 1] /\ p < moved) => e.ok[p + 1], "kept")
         \cup Cl(e.exc = "none" \/ e.crashed, "no_other_failure")
         \cup Cl(e.other, "nothing_else_changed")
    [] OTHER -> ExcFails(e)
Fresh(np) == [np |-> np, left |-> 0, comp |-> <<>>, was |-> [p \in 1..np |-> FALSE]]
Init == l = 1 /\ s = Fresh(1)
Next == LET e == T[l] IN
        /\ l <= Len(T) /\ Advance(Fails(e))
        /\ s' = CASE e.ev = "reset" -> Fresh(e.np)
                  [] e.ev = "run" -> [s EXCEPT !.comp = <<>>]
                  [] e.ev = "plane" -> [s EXCEPT !.comp = Append(@, e.p)]
                  [] e.ev = "stop" -> [s EXCEPT !.was = e.ok, !.left = IF e.crashed THEN Max(@, IF s.comp = <<>> THEN 0 ELSE s.comp[Len(s.comp)]) ELSE s.np]
                  [] OTHER -> s
Spec == Init /\ [][Next]_<<l, s>>
==============================================================================
