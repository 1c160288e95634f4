-------------------------------- MODULE TraceStencil --------------------------------
(* rect: coefficients of a rectangular grid, in units 1/1000 of 1/(2 dR dZ).            *)
(* plane: a curvilinear plane: coefficients in 1/100000, R and Z in 1/250000 (relative    *)
(* to the middle of the grid), volume and area of the cell polygon in 1/100000 (vol0 =     *)
(* volume by a fine polygon of its own).                                                  *)
EXTENDS Stencil, TraceBase

RectFails(e) ==
  LET ex(fun, x) == fun[x - 1] * 1000
      XX == RectXX(e.dR, e.dZ, e.R0, e.slab)
      ZZ == RectZZ(e.dR, e.dZ, e.R0, e.slab)
      V2 == RectVol2(e.dR, e.dZ, e.R0, e.slab)
      T1(v) == 3 + (v \div 100000) IN
  Cl(\A x \in 1..e.nx - 1, z \in 1..e.nz : Near(e.XX[x][z], ex(XX, x), T1(ex(XX, x))), "rect_XX")
  \cup Cl(\A x \in 2..e.nx - 1, z \in 1..e.nz : Near(e.ZZ[x][z], ex(ZZ, x), T1(ex(ZZ, x))), "rect_ZZ")
  \cup Cl(\A x \in 1..e.nx - 1, z \in 1..e.nz : Near(e.XZ[x][z], 0, 3), "rect_no_cross_XZ")
  \cup Cl(\A x \in 2..e.nx - 1, z \in 1..e.nz : Near(e.ZX[x][z], 0, 3), "rect_no_cross_ZX")
  \cup Cl(\A x \in 2..e.nx - 1, z \in 1..e.nz : Near(e.V2[x][z], ex(V2, x), T1(ex(V2, x))), "rect_volume")
  \cup Cl(\A z \in 1..e.nz : e.XX[e.nx][z] = 0 /\ e.XZ[e.nx][z] = 0 /\ e.ZX[1][z] = 0 /\ e.ZX[e.nx][z] = 0 /\ e.ZZ[1][z] = 0 /\ e.ZZ[e.nx][z] = 0, "no_flux_outside")

\* curvilinear: Div of the coordinate functions is known exactly from the cell polygon
PlaneFails(e) ==
  LET I == (2..e.nx - 1) \X (1..e.nz)
      \* products in two limbs, c in 1e-5, d in 4e-6, result in 4e-8
      M(c, d) == (c \div 1000) * d + (((c % 1000) * d) \div 1000)
      FX(f, x, z) == M(e.XX[x][z], f[x + 1][z] - f[x][z])
                     + M(e.XZ[x][z], ((f[x + 1][Zp(z, e.nz)] - f[x + 1][Zm(z, e.nz)]) + (f[x][Zp(z, e.nz)] - f[x][Zm(z, e.nz)])) \div 2)
      FZ(f, x, z) == M(e.ZZ[x][z], f[x][Zp(z, e.nz)] - f[x][z])
                     + M(e.ZX[x][z], ((f[x + 1][z] - f[x - 1][z]) + (f[x + 1][Zp(z, e.nz)] - f[x - 1][Zp(z, e.nz)])) \div 2)
      dv(f, x, z) == ((FX(f, x, z) - FX(f, x - 1, z)) + (FZ(f, x, z) - FZ(f, x, Zm(z, e.nz)))) \div 250   \* 1e-5
      dR(x, z) == dv(e.R, x, z)
      dZ(x, z) == dv(e.Z, x, z)
      sane == \A x \in 1..e.nx, z \in 1..e.nz : Abs(e.XX[x][z]) <= e.cmax /\ \A a \in {e.XZ, e.ZX, e.ZZ} : Abs(a[x][z]) <= e.cmax2 IN
  IF ~sane THEN {"coefficient_magnitude"} ELSE
  Cl(\A c \in I : Near(dZ(c[1], c[2]), 0, e.tol), "linear_Z")
  \cup Cl(\A c \in I : Near(dR(c[1], c[2]), IF e.slab THEN 0 ELSE e.area[c[1]][c[2]], e.tol), "linear_R")
  \cup Cl(\A c \in I : Near(e.vol[c[1]][c[2]], e.vol0[c[1]][c[2]], e.vtol), "cell_volume")
  \cup Cl(\A c \in I : e.vol[c[1]][c[2]] > 0, "volume_positive")
  \cup Cl(\A x \in 1..e.nx - 1, z \in 1..e.nz : e.XX[x][z] > 0, "XX_positive")
  \cup Cl(\A x \in 2..e.nx - 1, z \in 1..e.nz : e.ZZ[x][z] > 0, "ZZ_positive")

Fails(e) == CASE e.ev = "rect" -> RectFails(e)
              [] e.ev = "plane" -> PlaneFails(e)
              [] e.ev = "same" -> Cl(e.a = e.b, e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
