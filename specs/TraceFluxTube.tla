------------------------------ MODULE TraceFluxTube ------------------------------
(* tube: J per unit area element (1/100), By at the faces and centre (integers), lengths (1/1000) with  *)
(* reference lengths, of all cells of plane j.  same: results for two chunk counts.        *)
EXTENDS FluxTube, TraceBase
TubeFails(e) ==
  LET q == e.q  Y0 == 2 * (q.r * e.j) + q.r * e.off
      Cells == (1..q.nx) \X (1..e.nz)
      B(i, m) == e.sgn * BAt(q, Lab(q, i - 1, Y0), Y0 + m)
  IN IF e.exc # "none" THEN {"refused_" \o e.exc} ELSE
     Cl(\A c \in Cells : e.By[c[1]][c[2]] = B(c[1], 0), "field_at_centre")
     \cup Cl(\A c \in Cells : e.Bl[c[1]][c[2]] = B(c[1], -q.r), "field_at_lower_face")
     \cup Cl(\A c \in Cells : e.Bh[c[1]][c[2]] = B(c[1], q.r), "field_at_upper_face")
     \cup Cl(\A c \in Cells : Abs(e.J[c[1]][c[2]]) < 1000000, "jacobian_finite")
     \cup Cl(\A c \in Cells : Abs(e.J[c[1]][c[2]]) < 1000000 => Near((e.J[c[1]][c[2]] * 48) * q.r, 100 * J48r(q, c[1] - 1, Y0), 100 * q.r), "jacobian")
     \cup Cl(\A c \in Cells : Near(e.L[c[1]][c[2]], e.wm[c[1]], e.tol), "length")
     \cup Cl(\A c \in Cells : Near(e.Ll[c[1]][c[2]], e.wl[c[1]], e.tol), "length_lower")
     \cup Cl(\A c \in Cells : Near(e.Lh[c[1]][c[2]], e.wh[c[1]], e.tol), "length_upper")
     \* a circular helix: the length is the hypotenuse
     \cup (IF q.a # 0 THEN {} ELSE Cl(\A c \in Cells : LET x == e.L[c[1]][c[2]]  want == e.arc[c[1]] * e.arc[c[1]] + e.rise * e.rise IN Abs(x * x - want) <= 10 * Max(x, 1), "helix"))
Fails(e) == CASE e.ev = "tube" -> TubeFails(e)
              [] e.ev = "same" -> Cl(e.exca = e.excb, e.what \o "_outcome") \cup Cl(Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], e.tol), e.what)
              [] e.ev = "names" -> Cl({e.has[i] : i \in 1..Len(e.has)} = {e.want[i] : i \in 1..Len(e.want)}, "written_quantities")
              [] e.ev = "tol" -> Cl(\A i \in 1..Len(e.seen) : e.seen[i] = e.asked, "requested_accuracy")
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
