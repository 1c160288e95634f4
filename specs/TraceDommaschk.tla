------------------------------ MODULE TraceDommaschk ------------------------------
(* cyl: field on the reference cylinder, times the norm of the coefficients, in 1/Den.       *)
(* vac: divergence and curl (1/100000 of the field) away from it.  same: equal fields.         *)
EXTENDS Dommaschk, TraceBase
CylFails(e) ==
  Cl(e.norm = Norm(e.A), "norm")
  \cup Cl(\A i \in 1..Len(e.pts) : Near(e.BR[i], e.B0 * RawR(e.A, e.pts[i][1], e.pts[i][2]), 0), "radial_field")
  \cup Cl(\A i \in 1..Len(e.pts) : Near(e.BP[i], e.B0 * RawP(e.A, e.pts[i][1], e.pts[i][2]), 0), "toroidal_field")
  \cup Cl(\A i \in 1..Len(e.pts) : Near(e.BZ[i], e.B0 * RawZ(e.A, e.pts[i][1], e.pts[i][2]), 0), "vertical_field")
  \cup Cl(e.cyl, "cylindrical")
VacFails(e) == Cl(\A i \in 1..Len(e.div) : Abs(e.div[i]) <= e.tol, "divergence")
  \cup Cl(\A i \in 1..Len(e.curl) : Abs(e.curl[i]) <= e.tol, "curl")
Fails(e) == CASE e.ev = "cyl" -> CylFails(e)
              [] e.ev = "vac" -> VacFails(e)
              [] e.ev = "same" -> Cl(Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], 2), e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
