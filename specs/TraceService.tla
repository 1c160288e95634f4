------------------------------- MODULE TraceService -------------------------------
(* req: one request for a tabulated field within a history: outcome, number of calls and   *)
(* the components at all mesh points (r, quarter turn, z).  demand: field without table.    *)
(* line: positions along y of a line traced by fusionsc (1/10000).  conf: coils.             *)
EXTENDS Service, TraceBase
Vals(e) == \A i \in 1..Len(e.pts) : e.got[i] = FieldAt(e.M, e.pts[i][1], e.pts[i][2], e.pts[i][3], e.conf)
ReqFails(e) ==
  Cl((e.exc = "none") = Succeeds(e.fails, e.seen), "outcome_" \o e.exc)
  \cup Cl(e.calls = Attempts(e.fails, e.seen), "number_of_calls")
  \cup (IF e.exc # "none" THEN Cl(e.exc = "ServiceError", "error_passed_on") ELSE
       Cl(Len(e.got) = Len(e.pts) /\ Vals(e), "components")
       \cup Cl(e.outside, "outside_the_mesh")
       \cup Cl(e.cyl, "cylindrical"))
DemandFails(e) ==
  Cl((e.exc = "none") = Succeeds(e.fails, FALSE), "outcome_" \o e.exc)
  \cup Cl(e.calls = Attempts(e.fails, FALSE), "number_of_calls")
  \cup (IF e.exc # "none" THEN Cl(e.exc = "ServiceError", "error_passed_on") ELSE
       Cl(Len(e.got) = Len(e.pts) /\ Vals(e), "components")
       \cup Cl(\A i \in 1..Len(e.pts) : LET b == FieldAt(e.M, e.pts[i][1], e.pts[i][2], e.pts[i][3], e.conf) IN
                 Near(e.mag2[i], b[1] * b[1] + b[2] * b[2] + b[3] * b[3], 1), "magnitude"))
LineFails(e) ==
  IF e.exc # "none" THEN {"refused_" \o e.exc} ELSE
  Cl(e.shape = e.wantshape, "shape")
  \cup (IF e.shape # e.wantshape THEN {} ELSE
     Cl(\A i \in 1..Len(e.R[1]) : e.R[1][i] = e.x[i] /\ e.Z[1][i] = e.z[i], "start_first")
     \cup Cl(\A j \in 1..Len(e.y) : \A i \in 1..Len(e.x) : Near(e.R[j][i], e.x[i] + e.a * (e.y[j] - e.y[1]), 3) /\ Near(e.Z[j][i], e.z[i] + e.c * (e.y[j] - e.y[1]), 3), "positions")
     \cup Cl(e.sent = e.wanted, "options")
     \cup Cl(e.kept, "stored_options_unchanged")
     \cup Cl(e.startok, "start_point_sent"))
ConfFails(e) == Cl(Len(e.ids) = 70 /\ Len(e.cur) = 70 /\ Cardinality({e.ids[i] : i \in 1..Len(e.ids)}) = 70, "coils")
  \cup Cl(Len(e.cur) = 70 => \A i \in 1..70 : e.cur[i] = e.turns[((i - 1) \div 10) + 1] * e.amps[((i - 1) \div 10) + 1], "currents")
Fails(e) == CASE e.ev = "req" -> ReqFails(e)
              [] e.ev = "demand" -> DemandFails(e)
              [] e.ev = "line" -> LineFails(e)
              [] e.ev = "conf" -> ConfFails(e)
              [] e.ev = "range" -> Cl(e.lo = e.wantlo /\ e.hi = e.wanthi, "default_mesh_" \o e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
