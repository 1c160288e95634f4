----------------------------------- MODULE Vmec -----------------------------------
(* Equilibria given by Fourier series on nested surfaces (VMEC): positions on the full    *)
(* radial mesh, R = sum rmnc cos(m u - n v), Z = sum zmns sin(m u - n v); contravariant     *)
(* field components on the half mesh, element k lying between surfaces k-1 and k.  Angles   *)
(* in quarter turns, so everything is an integer.  Values of the field are doubled.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cos4(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
RECURSIVE Tot(_)
Tot(s) == IF s = <<>> THEN 0 ELSE Head(s) + Tot(Tail(s))
\* mo: sequence of <<m, n>>;  c: coefficients of one surface
Ph(mo, i, u, v) == mo[i][1] * u - mo[i][2] * v
CosSum(mo, c, u, v) == Tot([i \in 1..Len(mo) |-> c[i] * Cos4(Ph(mo, i, u, v))])
SinSum(mo, c, u, v) == Tot([i \in 1..Len(mo) |-> c[i] * Sin4(Ph(mo, i, u, v))])
\* derivatives
DuCos(mo, c, u, v) == Tot([i \in 1..Len(mo) |-> -(c[i] * mo[i][1] * Sin4(Ph(mo, i, u, v)))])
DvCos(mo, c, u, v) == Tot([i \in 1..Len(mo) |-> c[i] * mo[i][2] * Sin4(Ph(mo, i, u, v))])
DuSin(mo, c, u, v) == Tot([i \in 1..Len(mo) |-> c[i] * mo[i][1] * Cos4(Ph(mo, i, u, v))])
DvSin(mo, c, u, v) == Tot([i \in 1..Len(mo) |-> -(c[i] * mo[i][2] * Cos4(Ph(mo, i, u, v)))])
\* from the half mesh to surface k, doubled: mean of the neighbours, straight line at the ends
Full2(h, k, i) == LET ns == Len(h) IN
   CASE k = 1 -> 3 * h[2][i] - h[3][i]
     [] k = ns -> 3 * h[ns][i] - h[ns - 1][i]
     [] OTHER -> h[k][i] + h[k + 1][i]
FullRow(h, k, n) == [i \in 1..n |-> Full2(h, k, i)]
Pos(q, k, u, v) == <<CosSum(q.mo, q.r[k], u, v), SinSum(q.mo, q.z[k], u, v)>>
\* doubled cylindrical components (BR, Bphi, BZ)
B2(q, k, u, v) ==
   LET n == Len(q.mo)
       bu == CosSum(q.mo, FullRow(q.bu, k, n), u, v)
       bv == CosSum(q.mo, FullRow(q.bv, k, n), u, v)
   IN <<bu * DuCos(q.mo, q.r[k], u, v) + bv * DvCos(q.mo, q.r[k], u, v),
        bv * CosSum(q.mo, q.r[k], u, v),
        bu * DuSin(q.mo, q.z[k], u, v) + bv * DvSin(q.mo, q.z[k], u, v)>>
\* circular surfaces around a helical axis, constant bu and bv: the field is linear in (R, Z)
AxisR(a, v) == a.R0 + a.d * Cos4(a.n * v)
AxisZ(a, v) == -(a.e * Sin4(a.n * v))
LinB(a, R, Z, v) == <<-(a.bu * (Z - AxisZ(a, v))) - a.bv * a.d * a.n * Sin4(a.n * v),
                      a.bv * R,
                      a.bu * (R - AxisR(a, v)) - a.bv * a.e * a.n * Cos4(a.n * v)>>
Inside(a, R, Z, v, s) == LET x == R - AxisR(a, v)  y == Z - AxisZ(a, v)
                             ax == IF x < 0 THEN -x ELSE x   ay == IF y < 0 THEN -y ELSE y IN ax + ay < s
Outside(a, R, Z, v, s) == LET x == R - AxisR(a, v)  y == Z - AxisZ(a, v)
                              ax == IF x < 0 THEN -x ELSE x   ay == IF y < 0 THEN -y ELSE y IN ax + ay > s
==============================================================================
