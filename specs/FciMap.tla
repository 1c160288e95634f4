------------------------------- MODULE FciMap --------------------------------
(* Field-line maps between poloidal planes.                                     *)
(*                                                                              *)
(* A configuration c extends a GridY configuration with                         *)
(*   nx, nz      points per plane                                               *)
(*   geo         "rect" or "ann" (annulus, periodic in z)                       *)
(*   pl          per plane <<x0, dx, z0, dz>>: rect: point (i,k) is at          *)
(*               (x0 + i dx, z0 + k dz);  ann: radius x0 + i dx, poloidal angle *)
(*               (in units of 1/dz of a cell) dz*k + z0, periodic after nz*dz   *)
(*   fl          flow <<a, b, s, kq>>:  x' = x + a (y'-y) + kq (y'^2 - y^2),     *)
(*               z' = z + b (y'-y) + s x (y'-y)                                 *)
(*   bd          boundary <<on, xm, xs, zm, zs>>: outside iff on and            *)
(*               (x > xm + xs y  or  z < zm + zs y)                             *)
(*   nslice      number of parallel slices                                      *)
(* All numbers are integers, so landing points are exact.                       *)
EXTENDS GridY

SC == 100000       \* fixed-point scale of recorded values

X0(c, j) == c.pl[j + 1][1]
DX(c, j) == c.pl[j + 1][2]
Z0(c, j) == c.pl[j + 1][3]
DZ(c, j) == c.pl[j + 1][4]

PosX(c, j, i) == X0(c, j) + i * DX(c, j)
PosZ(c, j, k) == Z0(c, j) + k * DZ(c, j)

\* the flow of the magnetic field
FlowX(c, x, y, y2)    == x + c.fl[1] * (y2 - y) + c.fl[4] * (y2 * y2 - y * y)
FlowZ(c, x, z, y, y2) == z + c.fl[2] * (y2 - y) + c.fl[3] * x * (y2 - y)

Outside(c, x, z, y) == c.bd[1] = 1 /\ (x > c.bd[2] + c.bd[3] * y \/ z < c.bd[4] + c.bd[5] * y)

\* landing of the field line through cell (i,k) of plane j, o2 = 2*offset
Landing(c, i, j, k, o2) ==
  LET y  == c.ys[j + 1]
      t  == Lookup(c, 4 * j + 2 * o2)
      x  == PosX(c, j, i)
      z  == PosZ(c, j, k)
  IN [plane |-> t.plane, y |-> t.y, x |-> FlowX(c, x, y, t.y), z |-> FlowZ(c, x, z, y, t.y)]

\* does this landing count as having left the domain?
Left(c, ld) == ld.plane = None \/ Outside(c, ld.x, ld.z, ld.y)

\* index of a landing in the target plane, as a rational <<numerator, denominator>>
IndX(c, ld) == <<ld.x - X0(c, ld.plane), DX(c, ld.plane)>>
IndZ(c, ld) == <<ld.z - Z0(c, ld.plane), DZ(c, ld.plane)>>

Offsets2(c) == {2 * n : n \in 1..c.nslice} \cup {-2 * n : n \in 1..c.nslice}

(* ---- sub-cell sampling: Gauss-Legendre points of [-1/2, 1/2], scaled by SC ---- *)
Nodes(n) == CASE n = 1 -> <<0>>
              [] n = 2 -> <<-28868, 28868>>
              [] n = 3 -> <<-38730, 0, 38730>>
              [] n = 4 -> <<-43057, -16999, 16999, 43057>>
NodeW(n) == CASE n = 1 -> <<100000>>
              [] n = 2 -> <<50000, 50000>>
              [] n = 3 -> <<27778, 44444, 27778>>
              [] n = 4 -> <<17393, 32607, 32607, 17393>>
Pairs(n) == (1..n) \X (1..n)
=============================================================================
