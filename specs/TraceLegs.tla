------------------------------ MODULE TraceLegs ------------------------------
(* Judges numbering (num), operators (op) and clean-up (mod) of the real code.  *)
EXTENDS Legs, TraceBase

\* samples of a cell for direction d of event e
SX(e, d, p) == LET xs == ACell(IF d = "fwd" THEN e.fx ELSE e.bx, p) IN
   IF e.ev = "mod" /\ ~e.partial THEN CleanX(e.c, xs, <<ACell(IF d = "fwd" THEN e.fxc ELSE e.bxc, p), ACell(IF d = "fwd" THEN e.fzc ELSE e.bzc, p)>>)
   ELSE xs
SZ(e, d, p) == LET xs == ACell(IF d = "fwd" THEN e.fx ELSE e.bx, p)  zs == ACell(IF d = "fwd" THEN e.fz ELSE e.bz, p) IN
   IF e.ev = "mod" /\ ~e.partial THEN CleanZ(e.c, xs, zs, <<ACell(IF d = "fwd" THEN e.fxc ELSE e.bxc, p), ACell(IF d = "fwd" THEN e.fzc ELSE e.bzc, p)>>)
   ELSE zs

Dirs == {"fwd", "bwd"}
BNum(e, d) == IF d = "fwd" THEN e.fcell ELSE e.bcell
LI(e, d) == IF d = "fwd" THEN e.fint ELSE e.bint
LB(e, d) == IF d = "fwd" THEN e.fbnd ELSE e.bbnd
NL(e, d) == IF d = "fwd" THEN e.nf ELSE e.nb
LW(e, d) == IF d = "fwd" THEN e.flw ELSE e.blw
Csr(e, d) == IF d = "fwd" THEN e.fcsr ELSE e.bcsr

NumFails(e) ==
  LET c == e.c
      NI == Cardinality(Interior(c))  NA == Cardinality(Inner(c))  NO == Cardinality(Outer(c))
      nums(S) == {ACell(e.cell, p) : p \in S}
      bc == {<<p, d>> \in Interior(c) \X Dirs : HasB(c, SX(e, d, p))}
      bnums == {ACell(BNum(e, x[2]), x[1]) : x \in bc}
      base == NI + NA + NO
  IN Cl(nums(Interior(c)) = 0..(NI - 1), "interior_numbers")
     \cup Cl(nums(Inner(c)) = NI..(NI + NA - 1), "inner_numbers")
     \cup Cl(nums(Outer(c)) = (NI + NA)..(NI + NA + NO - 1), "outer_numbers")
     \cup Cl(bnums = base..(base + Cardinality(bc) - 1), "boundary_numbers")
     \cup Cl(\A p \in AllCells(c), d \in Dirs : ACell(BNum(e, d), p) = -1 <=> <<p, d>> \notin bc, "boundary_cells")
     \cup Cl(e.total = base + Cardinality(bc), "total_cells")
     \cup UNION {LET ip == {p \in Interior(c) : HasI(c, SX(e, d, p))}
                     bp == {p \in Interior(c) : HasB(c, SX(e, d, p))}
                     n == Cardinality(ip) + Cardinality(bp)
                 IN Cl(NL(e, d) = n, "leg_count_" \o d)
                    \cup Cl(\A p \in AllCells(c) : (ACell(LI(e, d), p) = -1) <=> (p \notin ip), "interior_leg_" \o d)
                    \cup Cl(\A p \in AllCells(c) : (ACell(LB(e, d), p) = -1) <=> (p \notin bp), "boundary_leg_" \o d)
                    \cup Cl({ACell(LI(e, d), p) : p \in ip} \cup {ACell(LB(e, d), p) : p \in bp} = 0..(n - 1), "leg_numbers_" \o d)
                 : d \in Dirs}

\* Sigma/D scaled by 10^6 without overflow
E6(s, D) == LET q == (s * 1000) \div D  r == (s * 1000) % D IN q * 1000 + (r * 1000) \div D

\* sum of the row's entries in column col
RowVal(m, r, col) == LET a == m.rows[r + 1] + 1  b == m.rows[r + 2] IN
    SeqSum(LAMBDA k : IF m.cols[a + k - 1] = col THEN m.w[a + k - 1] ELSE 0, b - a + 1)
RowCols(m, r) == {m.cols[k] : k \in {k \in (m.rows[r + 1] + 1)..m.rows[r + 2] : Abs(m.w[k]) > 2}}
CsrOK(e, m, n) == /\ Len(m.rows) = n + 1 /\ m.rows[1] = 0
                  /\ \A k \in 1..n : m.rows[k] <= m.rows[k + 1]
                  /\ m.rows[n + 1] = Len(m.w) /\ Len(m.cols) = Len(m.w)
                  /\ \A k \in 1..Len(m.cols) : m.cols[k] >= 0 /\ m.cols[k] < e.total
                  /\ \A k \in 1..Len(m.w) : Abs(m.w[k]) < 10000000
                  /\ \A r \in 1..n : Cardinality({m.cols[k] : k \in (m.rows[r] + 1)..m.rows[r + 1]}) = m.rows[r + 1] - m.rows[r]

IntRowOK(e, d, p) ==
  LET c == e.c  m == Csr(e, d)  r == ACell(LI(e, d), p)
      xs == SX(e, d, p)  zs == SZ(e, d, p)
      y1 == (p[2] + (IF d = "fwd" THEN 1 ELSE -1)) % c.ny
      D == 16384 * WI(c, xs)
      plane == (0..(c.nx - 1)) \X (0..(c.nz - 1))
  IN /\ r >= 0 /\ r < NL(e, d)
     /\ \A q \in plane : Abs(RowVal(m, r, e.cell[q[1] + 1][y1 + 1][q[2] + 1]) - E6(RowNum(c, xs, zs, q[1], q[2]), D)) <= 12
     /\ RowCols(m, r) \subseteq {e.cell[q[1] + 1][y1 + 1][q[2] + 1] : q \in plane}
BndRowOK(e, d, p) ==
  LET m == Csr(e, d)  r == ACell(LB(e, d), p)  b == ACell(BNum(e, d), p) IN
  /\ r >= 0 /\ r < NL(e, d) /\ RowCols(m, r) = {b} /\ Abs(RowVal(m, r, b) - 1000000) <= 2

OpFails(e) ==
  LET c == e.c IN
  UNION {IF ~CsrOK(e, Csr(e, d), NL(e, d)) THEN {"csr_" \o d} ELSE
     LET ip == {p \in Interior(c) : HasI(c, SX(e, d, p))}
         bp == {p \in Interior(c) : HasB(c, SX(e, d, p))}
         m == Csr(e, d)
         wt(r) == LW(e, d)[r + 1]
     IN Cl(\A r \in 0..(NL(e, d) - 1) : Abs(SeqSum(LAMBDA k : m.w[m.rows[r + 1] + k], m.rows[r + 2] - m.rows[r + 1]) - 1000000) <= 40, "row_sum_" \o d)
        \cup Cl(\A p \in ip : IntRowOK(e, d, p), "interior_row_" \o d)
        \cup Cl(\A p \in bp : BndRowOK(e, d, p), "boundary_row_" \o d)
        \cup Cl(Len(LW(e, d)) = NL(e, d), "leg_weight_count_" \o d)
        \cup Cl(Len(LW(e, d)) = NL(e, d) /\
                (\A p \in ip : ACell(LI(e, d), p) \in 0..(NL(e, d) - 1) /\ Abs(wt(ACell(LI(e, d), p)) - E6(WI(c, SX(e, d, p)), WT(c))) <= 3) /\
                (\A p \in bp : ACell(LB(e, d), p) \in 0..(NL(e, d) - 1) /\ Abs(wt(ACell(LB(e, d), p)) - E6(WT(c) - WI(c, SX(e, d, p)), WT(c))) <= 3),
               "leg_weights_" \o d)
     : d \in Dirs}

\* fine: one sample per cell at positions in hundredths; per row its weight by x, by z and off the plane it belongs to
FineFails(e) ==
  Cl(\A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
       \A x \in 0..(e.c.nx - 1) : Near(r.wx[x + 1], FineX(e.c, r.x, x), 4), "fine_row_x")
  \cup Cl(\A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
       \A z \in 0..(e.c.nz - 1) : Near(r.wz[z + 1], FineZ(e.c, r.z, z), 4), "fine_row_z")
  \cup Cl(\A i \in 1..Len(e.rows) : e.rows[i].off = 0, "fine_row_plane")

ModFails(e) ==
  LET c == e.c IN
  Cl(e.removed, "samples_removed") \cup Cl(e.kept, "others_kept")
  \cup (IF e.partial THEN
         Cl(\A p \in AllCells(c), d \in Dirs :
             LET before == ACell(IF d = "fwd" THEN e.fxc ELSE e.bxc, p)
                 after  == ACell(IF d = "fwd" THEN e.fxa ELSE e.bxa, p)
             IN after = IF HasB(c, ACell(IF d = "fwd" THEN e.fx ELSE e.bx, p)) THEN -4 ELSE before, "partial_marks")
        ELSE Cl(e.fxa = e.fxc /\ e.bxa = e.bxc, "centre_maps_kept"))
  \cup NumFails(e) \cup OpFails(e)

Fails(e) == CASE e.ev = "num" -> NumFails(e)
              [] e.ev = "op" -> OpFails(e)
              [] e.ev = "mod" -> ModFails(e)
              [] e.ev = "fine" -> FineFails(e)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
=============================================================================
