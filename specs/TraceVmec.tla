---------------------------------- MODULE TraceVmec ----------------------------------
(* surf: positions and doubled field on all (surface, u, v).  lin: doubled field at mesh      *)
(* points (R, Z, quarter turn).  misc: number of points, cylindrical, untouched file.           *)
EXTENDS Vmec, TraceBase
SurfFails(e) ==
  Cl(e.shapeok, "number_of_points")
  \cup (IF ~e.shapeok THEN {} ELSE
    Cl(\A k \in 1..Len(e.q.r) : \A i \in 1..e.nu : \A j \in 1..e.nv : <<e.R[k][i][j], e.Z[k][i][j]>> = Pos(e.q, k, e.us[i], e.vs[j]), "surfaces")
    \cup Cl(\A k \in 1..Len(e.q.r) : \A i \in 1..e.nu : \A j \in 1..e.nv : e.BR[k][i][j] = B2(e.q, k, e.us[i], e.vs[j])[1], "radial_field")
    \cup Cl(\A k \in 1..Len(e.q.r) : \A i \in 1..e.nu : \A j \in 1..e.nv : e.BP[k][i][j] = B2(e.q, k, e.us[i], e.vs[j])[2], "toroidal_field")
    \cup Cl(\A k \in 1..Len(e.q.r) : \A i \in 1..e.nu : \A j \in 1..e.nv : e.BZ[k][i][j] = B2(e.q, k, e.us[i], e.vs[j])[3], "vertical_field"))
LinFails(e) ==
  Cl(\A p \in {e.pts[i] : i \in 1..Len(e.pts)} : Inside(e.a, p.R, p.Z, p.v, e.s) => <<p.BR, p.BP, p.BZ>> = LinB(e.a, p.R, p.Z, p.v), "field_inside")
  \cup Cl(\A p \in {e.pts[i] : i \in 1..Len(e.pts)} : Outside(e.a, p.R, p.Z, p.v, e.s) => <<p.BR, p.BP, p.BZ>> = <<0, 1, 0>>, "field_outside")
  \cup Cl(\A p \in {e.pts[i] : i \in 1..Len(e.pts)} : p.Rf = p.R, "major_radius")
Fails(e) == CASE e.ev = "surf" -> SurfFails(e)
              [] e.ev = "lin" -> LinFails(e)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
