---------------------------------- MODULE Stencil ----------------------------------
(* The finite volume operator div(grad f) on a poloidal plane, cyclic in z.            *)
(* Cells (x, z), x \in 0..nx-1, z \in 0..nz-1.  The X face of (x, z) is the one between *)
(* x and x+1 (0 <= x < nx-1), its Z face the one between z and z+1 (0 < x < nx-1).     *)
EXTENDS Integers, Sequences

\* flux through a face, from the differences of f along x and z at that face (twice / four times the mean)
\* coefficients c[x][z], f[x][z] are 1-based sequences of sequences; results are 4 times the flux
Zp(z, nz) == (z % nz) + 1
Zm(z, nz) == ((z + nz - 2) % nz) + 1
FluxX(XX, XZ, f, nz, x, z) ==
  LET dx == f[x + 1][z] - f[x][z]
      dz == (f[x + 1][Zp(z, nz)] - f[x + 1][Zm(z, nz)]) + (f[x][Zp(z, nz)] - f[x][Zm(z, nz)]) IN
  4 * (XX[x][z] * dx) + 2 * (XZ[x][z] * dz)
FluxZ(ZX, ZZ, f, nz, x, z) ==
  LET dz == f[x][Zp(z, nz)] - f[x][z]
      dx == (f[x + 1][z] - f[x - 1][z]) + (f[x + 1][Zp(z, nz)] - f[x - 1][Zp(z, nz)]) IN
  4 * (ZZ[x][z] * dz) + 2 * (ZX[x][z] * dx)
\* 4 * volume * div(grad f) in cell (x, z), 1 < x < nx (1-based)
Div(XX, XZ, ZX, ZZ, f, nz, x, z) ==
  FluxX(XX, XZ, f, nz, x, z) - FluxX(XX, XZ, f, nz, x - 1, z)
  + FluxZ(ZX, ZZ, f, nz, x, z) - FluxZ(ZX, ZZ, f, nz, x, Zm(z, nz))

\* exact coefficients of a rectangular grid: spacings dR, dZ, R of the first column R0 (all integers), in units 1/(2 dR dZ)
\* area of the X face of column x (0-based): dZ * R at x + 1/2
RectXX(dR, dZ, R0, slab) == [x \in Nat |-> IF slab THEN 2 * dZ * dZ ELSE (dZ * dZ) * (2 * R0 + (2 * x + 1) * dR)]
RectZZ(dR, dZ, R0, slab) == [x \in Nat |-> IF slab THEN 2 * dR * dR ELSE (2 * dR * dR) * (R0 + x * dR)]
RectVol2(dR, dZ, R0, slab) == [x \in Nat |-> IF slab THEN 2 * dR * dZ ELSE (2 * dR * dZ) * (R0 + x * dR)]       \* twice the volume
==============================================================================
