------------------------------- MODULE TraceEqdsk -------------------------------
(* at: values of a field read from a file F at lattice points pts: psi (1/20000), R*BR and *)
(* R*BZ (1/2000), f = R*Bphi and pressure (1/1000) at the points whose profile is judged,   *)
(* and the wall's answer.  mesh: flux at the mesh points.  line: flux along a field line.   *)
EXTENDS Eqdsk, TraceBase
At(e, g, W(_), tol) == Len(g) = Len(e.pts) /\ \A i \in 1..Len(e.pts) : Near(g[i], W(e.pts[i]), tol)
AtFails(e) ==
  LET F == e.F
      Ps(q) == Flux(F, q[1], q[2])
      BR(q) == RBR(F, q[1], q[2])
      BZ(q) == RBZ(F, q[1], q[2])
      far == {i \in 1..Len(e.pts) : e.far[i]}
      wl == {i \in 1..Len(e.pts) : F.wall # <<>> => ~OnBoundary(F.wall, e.pts[i])}
      br == At(e, e.br, BR, 1)   bz == At(e, e.bz, BZ, 1)
      brn == \A i \in 1..Len(e.pts) : Near(e.br[i], -BR(e.pts[i]), 1)
      bzn == \A i \in 1..Len(e.pts) : Near(e.bz[i], -BZ(e.pts[i]), 1)
  IN Cl(At(e, e.psi, Ps, 1), "flux")
     \cup Cl((br /\ bz) \/ (brn /\ bzn), "poloidal_field")
     \cup Cl(\A i \in far : Near(e.f[i], ProfAt(F, e.fp, e.pts[i][1], e.pts[i][2]), e.tol), "toroidal_field")
     \cup Cl(\A i \in far : Near(e.p[i], ProfAt(F, e.pp, e.pts[i][1], e.pts[i][2]), e.tol), "pressure")
     \cup Cl(\A i \in wl : e.out[i] = OutsideWall(F, e.pts[i][1], e.pts[i][2]), "wall")
     \cup Cl(e.cyl, "cylindrical")
Fails(e) == CASE e.ev = "at" -> AtFails(e)
              [] e.ev = "mesh" -> Cl(Len(e.got) = Len(e.want) /\ \A i \in 1..Len(e.want) : Near(e.got[i], e.want[i], 1), "mesh_flux")
              [] e.ev = "line" -> Cl(\A i \in 1..Len(e.psi) : Near(e.psi[i], e.psi[1], e.tol), "flux_surface")
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
