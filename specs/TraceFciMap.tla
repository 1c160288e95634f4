----------------------------- MODULE TraceFciMap -----------------------------
(* Judges the dictionaries returned by the real map maker.                     *)
EXTENDS FciMap, TraceBase

LIM == 100000000
IdxNear(v, num, den, tol) == IF Abs(v) <= LIM THEN Abs(v * den - num) <= tol * den    \* num already scaled
                             ELSE Near(v, num \div den, tol + 1)
\* the same modulo per (scaled)
ModNear(v, num, den, per, tol) == Abs(v) <= LIM /\
    LET d == (v * den - num) % per IN d <= tol * den \/ per - d <= tol * den

Cells(c) == (0..(c.nx - 1)) \X (0..(c.ny - 1)) \X (0..(c.nz - 1))
At(a, p) == a[p[1] + 1][p[2] + 1][p[3] + 1]
PosTol(c) == IF c.geo = "rect" THEN 2 ELSE 10
LEFT == -SC

PosOK(c, s, p) ==
  LET ld == Landing(c, p[1], p[2], p[3], s.o2) IN
  /\ Abs(At(s.R, p)) < BIG /\ Abs(At(s.R, p) - ld.x * SC) <= PosTol(c)
  /\ IF c.geo = "rect" THEN Abs(At(s.Z, p) - ld.z * SC) <= PosTol(c)
     ELSE ModNear(At(s.Z, p), ld.z * SC, 1, c.nz * DZ(c, p[2]) * SC, 10)

\* radial index of an annulus landing: thresholds at half a cell from the first/last row; m = ambiguity margin
AnnXOK(c, v, num, den, tol, m) ==
  LET lo == num <= (SC \div 2 + m) * den
      hi == num >= ((c.nx - 1) * SC - SC \div 2 - m) * den
      inner == num < (SC \div 2 - m) * den
      outer == num > ((c.nx - 1) * SC - SC \div 2 + m) * den
  IN \/ lo /\ v = -SC
     \/ hi /\ v = c.nx * SC
     \/ ~inner /\ ~outer /\ IdxNear(v, num, den, tol)

IndexFails(c, s, p) ==
  LET ld == Landing(c, p[1], p[2], p[3], s.o2)
      xt == At(s.xt, p)  zt == At(s.zt, p)
      dir == IF s.o2 > 0 THEN "fwd" ELSE "bwd"
      lvl == IF Abs(s.o2) = 2 THEN "1" ELSE "n"
  IN IF ld.plane = None THEN Cl(xt = LEFT /\ zt = LEFT, "left_end_" \o dir \o lvl)
     ELSE IF Outside(c, ld.x, ld.z, ld.y) THEN Cl(xt = LEFT /\ zt = LEFT, "left_boundary_" \o dir \o lvl)
     ELSE IF c.geo = "rect" THEN
          Cl(IdxNear(xt, IndX(c, ld)[1] * SC, IndX(c, ld)[2], 2), "xt_" \o dir \o lvl)
          \cup Cl(IdxNear(zt, IndZ(c, ld)[1] * SC, IndZ(c, ld)[2], 2), "zt_" \o dir \o lvl)
     ELSE Cl(AnnXOK(c, xt, IndX(c, ld)[1] * SC, IndX(c, ld)[2], 1500, 10000), "ann_xt_" \o dir \o lvl)
          \cup (IF xt = -SC \/ xt = c.nx * SC THEN {} ELSE
                Cl(ModNear(zt, IndZ(c, ld)[1] * SC, IndZ(c, ld)[2], c.nz * DZ(c, ld.plane) * SC, 1500), "ann_zt_" \o dir \o lvl))

MapsFails(e) ==
  LET c == e.c IN
  Cl(e.MYG = c.nslice, "MYG") \cup Cl(e.MXG = e.mxg, "MXG")
  \cup Cl(\A p \in Cells(c) : Abs(At(e.R, p) - PosX(c, p[2], p[1]) * SC) <= PosTol(c)
                              /\ Abs(At(e.R, p)) < BIG, "stored_R")
  \cup Cl(\A p \in Cells(c) : IF c.geo = "rect" THEN Abs(At(e.Z, p) - PosZ(c, p[2], p[3]) * SC) <= PosTol(c)
                              ELSE ModNear(At(e.Z, p), PosZ(c, p[2], p[3]) * SC, 1, c.nz * DZ(c, p[2]) * SC, 10), "stored_Z")
  \cup Cl({s.o2 : s \in {e.sl[k] : k \in 1..Len(e.sl)}} = Offsets2(c) \cup {1, -1}, "offsets")
  \cup UNION {LET s == e.sl[k] IN
        Cl(\A p \in Cells(c) : PosOK(c, s, p), IF Abs(s.o2) = 1 THEN "pos_half" ELSE IF s.o2 > 0 THEN "pos_fwd" ELSE "pos_bwd")
        \cup (IF Abs(s.o2) = 1 THEN {} ELSE UNION {IndexFails(c, s, p) : p \in Cells(c)})
        : k \in 1..Len(e.sl)}

(* ------------------------------- sub-cell samples ------------------------------- *)
\* landing of the sample (u, v) (scaled offsets) of cell p, everything scaled by SC
SampLand(c, p, u, v, o2) ==
  LET i == p[1]  j == p[2]  k == p[3]
      y == c.ys[j + 1]
      t == Lookup(c, 4 * j + 2 * o2)
      xs == PosX(c, j, i) * SC + u * DX(c, j)
      zs == PosZ(c, j, k) * SC + v * DZ(c, j)
  IN [plane |-> t.plane, y |-> t.y,
      x |-> xs + (FlowX(c, 0, y, t.y)) * SC,
      z |-> zs + c.fl[2] * (t.y - y) * SC + c.fl[3] * (t.y - y) * xs]

SOut(c, ld, m) == c.bd[1] = 1 /\ (ld.x > (c.bd[2] + c.bd[3] * ld.y) * SC - m \/ ld.z < (c.bd[4] + c.bd[5] * ld.y) * SC + m)

SampOK(c, p, u, v, s, q) ==        \* s = slice, q = sample number
  LET ld == SampLand(c, p, u, v, s.o2)
      xt == At(s.xs, p)[q]  zt == At(s.zs, p)[q]
  IN IF ld.plane = None THEN xt = LEFT /\ zt = LEFT
     ELSE \/ SOut(c, ld, 500) /\ xt = LEFT /\ zt = LEFT
          \/ /\ ~SOut(c, ld, -500)
             /\ IF c.geo = "rect"
                THEN /\ IdxNear(xt, ld.x - X0(c, ld.plane) * SC, DX(c, ld.plane), 60)
                     /\ IdxNear(zt, ld.z - Z0(c, ld.plane) * SC, DZ(c, ld.plane), 60)
                ELSE /\ AnnXOK(c, xt, ld.x - X0(c, ld.plane) * SC, DX(c, ld.plane), 13000, 20000)
                     /\ (xt = -SC \/ xt = c.nx * SC \/
                         ModNear(zt, ld.z - Z0(c, ld.plane) * SC, DZ(c, ld.plane), c.nz * DZ(c, ld.plane) * SC, 6000))

\* which quadrature points explain sample q in slice s everywhere
Cand(c, e, s, q) == {m \in Pairs(e.n) : \A p \in Cells(c) : SampOK(c, p, Nodes(e.n)[m[1]], Nodes(e.n)[m[2]], s, q)}
WOK(e, q, m) == LET w == NodeW(e.n) IN Abs(e.w[q] - (w[m[1]] * (w[m[2]] \div 10)) \div 10000) <= 10

SampleFails(e) ==
  LET c == e.c  n2 == e.n * e.n IN
  Cl(Len(e.w) = n2 /\ (\A q \in 1..Len(e.w) : e.w[q] > 0) /\ Abs(SumSeq(e.w) - SC) <= 20, "weights")
  \cup (IF Len(e.w) # n2 THEN {} ELSE
   UNION {LET s == e.sl[k]
              cand == [q \in 1..n2 |-> Cand(c, e, s, q)]
              nm == IF Abs(s.o2) = 2 THEN "1" ELSE "n"
          IN Cl(\A q \in 1..n2 : cand[q] # {}, "sample_landing" \o nm)
             \cup Cl(\A q \in 1..n2 : cand[q] # {} => \E m \in cand[q] : WOK(e, q, m), "sample_weight" \o nm)
             \cup Cl((\A q \in 1..n2 : cand[q] # {}) => UNION {cand[q] : q \in 1..n2} = Pairs(e.n), "sample_set" \o nm)
          : k \in 1..Len(e.sl)})
  \cup Cl({s.o2 : s \in {e.sl[k] : k \in 1..Len(e.sl)}} = Offsets2(c), "sample_offsets")

Fails(e) == CASE e.ev = "maps" -> MapsFails(e)
              [] e.ev = "samples" -> SampleFails(e)
              [] e.ev = "tol" -> Cl(\A i \in 1..Len(e.seen) : e.seen[i] = e.asked, "requested_accuracy")
              [] e.ev = "same" -> Cl(e.a = e.b, e.what)
              [] e.ev = "near" -> Cl(Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], e.tol), e.what)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
=============================================================================
