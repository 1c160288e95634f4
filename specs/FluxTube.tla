---------------------------------- MODULE FluxTube ----------------------------------
(* Quantities integrated along the field line through each cell.  The distance between   *)
(* planes is divided into 2r steps; the line of a cell is followed 2r steps to both sides. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* chunks of 0..nx-1 as numpy.array_split makes them: the first nx % k have one more
ChunkLen(nx, k, i) == (nx \div k) + (IF i <= nx % k THEN 1 ELSE 0)
RECURSIVE ChunkStart(_, _, _)
ChunkStart(nx, k, i) == IF i = 1 THEN 0 ELSE ChunkStart(nx, k, i - 1) + ChunkLen(nx, k, i - 1)
Chunk(nx, k, i) == ChunkStart(nx, k, i)..(ChunkStart(nx, k, i) + ChunkLen(nx, k, i) - 1)
\* steps (relative to the cell) of the three lengths: lower face, centre, upper face
Window(r, w) == CASE w = "low" -> -(2 * r)..0 [] w = "mid" -> -r..r [] w = "high" -> 0..2 * r
\* twice the trapezoidal weight of step m of the middle window
Weight2(r, m) == IF m = -r \/ m = r THEN 1 ELSE 2
RECURSIVE SumOver(_, _, _)
SumOver(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumOver(f, a + 1, b)
Mod(a, n) == ((a % n) + n) % n
\* the test field: line of label lab, at absolute step Y, has field tab[..] (divisors of 12, up to one sign)
BAt(q, lab, Y) == q.tab[Mod(Y + lab, Len(q.tab)) + 1]
Lab(q, i, Y0) == q.R0 + q.dx * i - q.a * Y0
RAt(q, i, m) == q.R0 + q.dx * i + q.a * m
\* 48 r J (area element 1): the average of R B0 / B over the middle window
J48r(q, i, Y0) == LET b0 == BAt(q, Lab(q, i, Y0), Y0)
                      t == TLCEval([m \in -q.r..q.r |-> (Weight2(q.r, m) * RAt(q, i, m)) * (b0 * (12 \div BAt(q, Lab(q, i, Y0), Y0 + m)))])
                  IN SumOver(t, -q.r, q.r)
==============================================================================
