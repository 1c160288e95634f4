---------------------------------- MODULE Annulus ----------------------------------
(* Structured grids between two nested closed lines.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* rows of a grid with ni extra rows inside and no outside: which line or side a row belongs to
Core(q) == q.nx - q.ni - q.no
Valid(q) == Core(q) >= 2 /\ q.nz >= 2
RowKind(q, i) == IF i < q.ni THEN "extra_in" ELSE IF i = q.ni THEN "inner"
                 ELSE IF i = q.nx - q.no - 1 THEN "outer" ELSE IF i > q.nx - q.no - 1 THEN "extra_out" ELSE "between"
\* resolution of the grid used for the starting guess
CoarseN(n, size, fac) == IF n > size THEN n \div fac ELSE n
NeedsCoarse(nx, nz, size) == nx > size \/ nz > size
\* linear interpolation between the lines: row i of nx (0..nx-1), numerator over nx - 1
LinRow(inn, out, i, nx) == (nx - 1 - i) * inn + i * out
\* rows beyond the lines continue with the last spacing; d is the distance in rows from row r0, step from r1 to r0
ExtraAt(r0, r1, d) == r0 + d * (r0 - r1)
\* twice the signed area of a cell from the cross product of its diagonals; a..d its corners
\* (x,z), (x+1,z), (x+1,z+1), (x,z+1) as <<R, Z>>
Cell2(a, b, c, d) == (c[1] - a[1]) * (d[2] - b[2]) - (c[2] - a[2]) * (d[1] - b[1])
==============================================================================
