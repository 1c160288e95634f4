------------------------------- MODULE MCLegs --------------------------------
(* Numbering as a process: cells of the interior are visited one by one, each   *)
(* with an arbitrary outcome of its samples in either direction ("in": all      *)
(* interior, "bd": all boundary, "mix"), allocating boundary cells and leg rows.*)
EXTENDS Legs, TLC, Json
CONSTANTS NCell, NGuard

Outcomes == {"in", "bd", "mix"}
Dirs == {"fwd", "bwd"}

VARIABLES i, next, bnum, legs, hist, rows
\* i: next interior cell; next: next free cell number; bnum: numbered boundary cells (cell, dir) -> number
\* legs[d]: next free leg row; rows[d]: set of <<cell, kind, row>>; hist: outcomes so far
vars == <<i, next, bnum, legs, hist, rows>>

Init == /\ i = 1 /\ next = NCell + NGuard /\ bnum = {} /\ legs = [d \in Dirs |-> 0] /\ rows = [d \in Dirs |-> {}] /\ hist = <<>>
Rows(o) == CASE o = "in" -> <<"int">> [] o = "bd" -> <<"bnd">> [] o = "mix" -> <<"int", "bnd">>
Visit(of, ob) ==
  /\ i <= NCell
  /\ LET nb == IF ob # "in" THEN {<<i, "bwd", next>>} ELSE {}
         n1 == next + Cardinality(nb)
         nf == IF of # "in" THEN {<<i, "fwd", n1>>} ELSE {}
     IN bnum' = bnum \cup nb \cup nf /\ next' = n1 + Cardinality(nf)
  /\ rows' = [d \in Dirs |-> LET r == Rows(IF d = "fwd" THEN of ELSE ob) IN rows[d] \cup {<<i, r[k], legs[d] + k - 1>> : k \in 1..Len(r)}]
  /\ legs' = [d \in Dirs |-> legs[d] + Len(Rows(IF d = "fwd" THEN of ELSE ob))]
  /\ hist' = Append(hist, <<of, ob>>)
  /\ i' = i + 1
  /\ (i' > NCell) => PrintT("VFSCEN " \o ToJson([pat |-> hist']))
Next == \E of \in Outcomes, ob \in Outcomes : Visit(of, ob)
Spec == Init /\ [][Next]_vars

Used == (0..(NCell + NGuard - 1)) \cup {b[3] : b \in bnum}
GapFree == Used = 0..(next - 1) /\ Cardinality(bnum) = next - NCell - NGuard
LegsGapFree == \A d \in Dirs : {r[3] : r \in rows[d]} = 0..(legs[d] - 1) /\ Cardinality(rows[d]) = legs[d]
\* a boundary row has its own boundary cell
RowsHaveCells == \A d \in Dirs : \A r \in rows[d] : r[2] = "bnd" => \E b \in bnum : b[1] = r[1] /\ b[2] = d
CellsHaveRows == \A b \in bnum : \E r \in rows[b[2]] : r[1] = b[1] /\ r[2] = "bnd"
RowCount == \A d \in Dirs : legs[d] >= i - 1 /\ legs[d] <= 2 * (i - 1)

(* Catmull-Rom: partition of unity, exact for linear and quadratic functions, interpolating *)
ASSUME \A k \in 0..3 : CR(k, -1) + CR(k, 0) + CR(k, 1) + CR(k, 2) = 128
ASSUME \A k \in 0..3 : -CR(k, -1) + CR(k, 1) + 2 * CR(k, 2) = 32 * k
ASSUME \A k \in 0..3 : CR(k, -1) + CR(k, 1) + 4 * CR(k, 2) = 8 * k * k
ASSUME CR(0, 0) = 128 /\ \A k \in 0..4 : CR(4 - k, 1) = CR(k, 0)
(* rows of operators sum to one for every position; weights never touch guard cells; z periodic *)
Small == {[nx |-> x, ny |-> 1, nz |-> z, mxg |-> m, w |-> <<1>>] : x \in 5..6, z \in 1..3, m \in 0..2}
ASSUME \A c \in Small : \A xq \in (4 * c.mxg)..(4 * (c.nx - c.mxg - 1)), zq \in {-9, -4, -1, 0, 3, 7} :
   /\ SeqSum(LAMBDA x : CX(c, xq, x - 1), c.nx) = 128
   /\ SeqSum(LAMBDA z : CZ(c, zq, z - 1), c.nz) = 128
   /\ \A x \in 0..(c.nx - 1) : (x < c.mxg \/ x >= c.nx - c.mxg) => CX(c, xq, x) = 0
   /\ \A z \in 0..(c.nz - 1) : CZ(c, zq, z) = CZ(c, zq + 4 * c.nz, z)
(* clean-up leaves no split cell *)
ASSUME \A a, b, x \in {-4, 4, 6, 20} : LET c == [nx |-> 5, ny |-> 1, nz |-> 2, mxg |-> 1, w |-> <<1, 1>>] IN
   LET xs == CleanX(c, <<a, b>>, <<x, 0>>) IN ~(HasB(c, xs) /\ HasI(c, xs))
=============================================================================
