------------------------------ MODULE TraceGridY ------------------------------
EXTENDS GridY, TraceBase

\* event scan: c = configuration, q0 = first index (quarters), res = <<[plane, y]>> for q0, q0+1, ...
ScanFails(e) ==
  UNION {LET q == e.q0 + k - 1
             w == Lookup(e.c, q)
             r == e.res[k]
         IN Cl(r.p = w.plane, "plane" \o (IF q % 4 = 0 THEN "_int" ELSE "_frac"))
            \cup Cl(Near(r.y, w.y * 1000, 1), "ypos" \o (IF q % 4 = 0 THEN "_int" ELSE "_frac"))
         : k \in 1..Len(e.res)}

\* event rect: rectangular grid constructor; ys scaled by 1000
RectFails(e) ==
  Cl(e.n = e.c.ny, "rect_count")
  \cup Cl(e.shape = <<e.nx, e.c.ny, e.nz>>, "rect_shape")
  \cup Cl(Len(e.ys) = e.c.ny /\ \A j \in 1..Len(e.ys) : Near(e.ys[j] * 2 * e.c.ny, RectY2(e.c, j - 1) * 1000, 2 * e.c.ny), "rect_y")

Fails(e) == CASE e.ev = "scan" -> ScanFails(e)
              [] e.ev = "rect" -> RectFails(e)
              [] OTHER -> ExcFails(e)

Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
=============================================================================
