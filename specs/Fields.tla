---------------------------------- MODULE Fields ----------------------------------
(* Magnetic field objects.  Each is made from a kind and parameters and afterwards      *)
(* answers every question from those alone.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"slab", "curved", "stellarator", "ellipse", "pinch", "geqdsk", "geqdsk2", "fusionsc", "custom"}
\* names of the quantities a field adds to the grid file
Attrs(kind) == CASE kind \in {"geqdsk", "geqdsk2"} -> {"psi"}
                 [] kind = "custom" -> {"mine"}
                 [] OTHER -> {}
HasWall(kind) == kind \in {"geqdsk"}           \* the second file has no wall
Cylindrical(kind) == kind \in {"curved", "ellipse", "pinch", "geqdsk", "geqdsk2", "fusionsc", "custom"}
\* direction: dx/dy * By = R * Bx  (R = 1 in Cartesian geometry)
DirectionOK(d, By, R, Bx, tol) == LET x == d * By - 1000 * (R * Bx) IN x <= tol /\ -tol <= x
==============================================================================
