-------------------------------- MODULE TraceFields --------------------------------
(* ask: one field answers: values got and expected (1/100000), attribute names and        *)
(* values, boundary answers.  dir: direction at points, with the components there.        *)
EXTENDS Fields, TraceBase
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
AskFails(e) ==
  UNION {Cl(Close(e.got[c], e.want[c], 2 + e.tol), "component_" \o c) : c \in DOMAIN e.want}
  \cup Cl({e.attrs[i] : i \in 1..Len(e.attrs)} = Attrs(e.kind), "attribute_names")
  \cup (IF e.attrs = <<>> THEN {} ELSE Cl(Close(e.attrgot, e.attrwant, 3), "attribute_values"))
  \cup Cl(e.cyl = Cylindrical(e.kind), "geometry")
  \cup Cl(\A i \in 1..Len(e.out) : e.out[i] = e.outwant[i], "boundary")
\* dx, dz in 1/1000; B and R integers; n points
DirFails(e) ==
  IF e.small THEN Cl(e.exc = "ValueError", "small_By_refused")
  ELSE Cl(e.exc = "none", "accepted") \cup
    (IF e.exc # "none" THEN {} ELSE
     Cl(Len(e.dx) = Len(e.By) /\ \A i \in 1..Len(e.By) : DirectionOK(e.dx[i], e.By[i], e.R[i], e.Bx[i], Abs(e.By[i])), "dx_dy")
     \cup Cl(Len(e.dz) = Len(e.By) /\ \A i \in 1..Len(e.By) : DirectionOK(e.dz[i], e.By[i], e.R[i], e.Bz[i], Abs(e.By[i])), "dz_dy")
     \cup Cl(e.y = e.yasked, "at_the_right_y"))
\* mag: squared magnitude; B integers
MagFails(e) == Cl(\A i \in 1..Len(e.B) : Near(e.B2[i], (e.Bx[i] * e.Bx[i] + e.By[i] * e.By[i] + e.Bz[i] * e.Bz[i]) * 1000, 2), "magnitude")
Fails(e) == CASE e.ev = "ask" -> AskFails(e)
              [] e.ev = "dir" -> DirFails(e)
              [] e.ev = "mag" -> MagFails(e)
              [] e.ev = "same" -> Cl(e.a = e.b, e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
