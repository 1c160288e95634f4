-------------------------------- MODULE GridY --------------------------------
(* The toroidal direction of a 3D grid: a ring (periodic) or a line (open) of  *)
(* poloidal planes.  Indices are counted in quarters (q = 4*index) so that     *)
(* half-way and other fractional look-ups are part of the model.  y positions  *)
(* are integers that are multiples of 4, so interpolated values are exact.     *)
EXTENDS Integers, Sequences

\* a configuration: [ny |-> n, ys |-> <<y0..>>, Ly |-> length, per |-> BOOLEAN]
None == -1

PlaneAt(c, i) ==
  IF c.per THEN [plane |-> i % c.ny, y |-> c.ys[(i % c.ny) + 1] + (i \div c.ny) * c.Ly]
  ELSE IF i < 0 THEN [plane |-> None, y |-> 0]
  ELSE IF i >= c.ny THEN [plane |-> None, y |-> c.Ly]
  ELSE [plane |-> i, y |-> c.ys[i + 1]]

\* the neighbour look-up, for an index given in quarters
Lookup(c, q) ==
  LET f == q \div 4   r == q % 4 IN
  IF r = 0 THEN PlaneAt(c, f)
  ELSE [plane |-> None,
        y |-> (PlaneAt(c, f).y * (4 - r) + PlaneAt(c, f + 1).y * r) \div 4]

\* y positions used by the rectangular grid constructor, times 2*ny
RectY2(c, j) == IF c.per THEN 2 * j * c.Ly ELSE (2 * j + 1) * c.Ly
=============================================================================
