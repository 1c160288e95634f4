------------------------------- MODULE TraceCoord -------------------------------
EXTENDS Coord, TraceBase
S == 10000     \* scale of recorded coordinates and indices

\* conv: ps = <<[xq, zq]>>; co[k] = (R,Z) (rect) or (radius, angle index*4) (ann); fi[k] = index found for the exact real position;
\* rt[k] = index found for the coordinates the grid itself gave; alone / batch: other ways of asking
ConvFails(e) ==
  LET g == e.g  ct == IF g.kind = "rect" THEN 2 ELSE 500  it == IF g.kind = "rect" THEN 2 ELSE 40 IN
  UNION {LET xq == e.ps[k][1]  zq == e.ps[k][2]
             cx == CoordX(g, xq)  cz == CoordZ(g, zq) IN
    (IF g.kind = "ann" /\ (xq < 0 \/ xq > 4 * (g.nx - 1)) THEN {}
     ELSE Cl(Near(e.co[k][1], cx * S, ct), "coord_x")
          \cup Cl(IF g.kind = "rect" THEN Near(e.co[k][2], cz * S, ct)
                  ELSE LET d == (e.co[k][2] - cz * S) % (4 * g.nz * S) IN d <= 200 \/ d >= 4 * g.nz * S - 200, "coord_z")
          \cup Cl(Near(e.rt[k][1] * 4, FindX(g, cx) * S, 4 * it), "roundtrip_x")
          \cup (IF ~Searched(g, xq) THEN {} ELSE
                Cl(LET d == (e.rt[k][2] * 4 - zq * S) % (4 * g.nz * S) IN
                   IF g.kind = "rect" THEN Near(e.rt[k][2] * 4, zq * S, 8) ELSE d <= 4 * it \/ d >= 4 * g.nz * S - 4 * it, "roundtrip_z")))
    \cup Cl(Near(e.fi[k][1] * 4, FindX(g, cx) * S, 4 * it), IF Searched(g, xq) THEN "find_x" ELSE "find_edge")
    \cup (IF ~Searched(g, xq) THEN {} ELSE
          Cl(LET d == (e.fi[k][2] * 4 - FindZ(g, cz) * S) % (4 * g.nz * S) IN
             IF g.kind = "rect" THEN Near(e.fi[k][2] * 4, zq * S, 8) ELSE d <= 4 * it \/ d >= 4 * g.nz * S - 4 * it, "find_z")
          \cup Cl(Near(e.alone[k][1], e.fi[k][1], 5) /\ Near(e.alone[k][2] % (g.nz * S), e.fi[k][2] % (g.nz * S), 5), "alone")
          \cup Cl(Near(e.batch[k][1], e.fi[k][1], 5) /\ Near(e.batch[k][2] % (g.nz * S), e.fi[k][2] % (g.nz * S), 5), "batch"))
    : k \in 1..Len(e.ps)}
  \cup Cl(e.shapes, "shape") \cup Cl(e.kept, "input_modified")

\* grid points of any grid: coordinates at integer indices are the stored ones, whatever multiple of nz is added to z
PtsFails(e) == Cl(e.maxdev <= 1, "gridpoint_coord") \cup Cl(e.wrapdev <= 1, "gridpoint_wrap") \cup Cl(e.rtdev <= 20, "gridpoint_roundtrip")
               \cup Cl(e.refused, "x_out_of_range_refused")

\* derivative of order (a,b): val[c][k] against differences of the next lower order at +-1/64 index, scaled by S
DerFails(e) ==
  Cl(\A c \in 1..2 : \A k \in 1..Len(e.val[c]) : Near(e.val[c][k], (e.up[c][k] - e.dn[c][k]) * 32, e.tol), "derivative")
  \cup (IF e.g.kind # "rect" THEN {} ELSE
        Cl(\A c \in 1..2 : \A k \in 1..Len(e.val[c]) : Near(e.val[c][k], Deriv(e.g, e.a, e.b)[c] * S, 2), "derivative_exact"))
  \cup Cl(e.shapes, "shape")

\* free: an arbitrarily shaped annular grid; index positions (scaled) -> coordinates -> index positions
FreeFails(e) ==
  Cl(\A k \in 1..Len(e.x) : Near(e.rx[k], e.x[k], 30), "free_roundtrip_x")
  \cup Cl(\A k \in 1..Len(e.x) : LET d == (e.rz[k] - e.z[k]) % (e.nz * S) IN d <= 30 \/ d >= e.nz * S - 30, "free_roundtrip_z")

\* edge: positions in the first and last half cell
EdgeFails(e) == Cl(\A k \in 1..Len(e.x) : e.rx[k] = (IF e.x[k] < S THEN -S ELSE e.nx * S), "edge_half_cells")

\* rect: a rectangle of any size (thousandths): the domain of length Lx starts half way between guard and first cell
RectFails(e) ==
  LET n == e.nx - 2 * e.mxg IN
  Cl(\A i \in 0..(e.nx - 1), k \in 0..(e.nz - 1) :
       Near(e.R[i + 1][k + 1], 100 * e.rc + ((50 * (e.Lx * (2 * i - (e.nx - 1)))) \div n), 2), "rect_R")
  \cup Cl(\A i \in 0..(e.nx - 1), k \in 0..(e.nz - 1) :
       Near(e.Z[i + 1][k + 1], 100 * e.zc + ((50 * (e.Lz * (2 * k - (e.nz - 1)))) \div e.nz), 2), "rect_Z")
  \cup Cl(\A i \in 0..(e.nx - 1), k \in 0..(e.nz - 1) : e.x[i + 1][k + 1] = i * S /\ e.z[i + 1][k + 1] = k * S, "rect_index")

Fails(e) == CASE e.ev = "edge" -> EdgeFails(e)
              [] e.ev = "rect" -> RectFails(e)
              [] e.ev = "conv" -> ConvFails(e)
              [] e.ev = "pts" -> PtsFails(e)
              [] e.ev = "der" -> DerFails(e)
              [] e.ev = "free" -> FreeFails(e)
              [] OTHER -> ExcFails(e)

Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
