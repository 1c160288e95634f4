---------------------------------- MODULE Flow ----------------------------------
(* Field lines as an exact flow on an integer lattice.  Twice the positions are   *)
(* used so that every value is an integer.                                        *)
(*   poly: dx/dy = a + 2 k y,  dz/dy = b + s x   (s = 0 or k = 0)                  *)
(*   rot : one quarter turn about the origin per unit of y                        *)
(*   shear:dx/dy = a z, dz/dy = 0 (depends on z)                                  *)
EXTENDS Integers, Sequences

\* f = [kind, a, b, s, k]; p = <<2x, 2z>>
Turn(p, n) == CASE n % 4 = 0 -> p [] n % 4 = 1 -> <<-p[2], p[1]>> [] n % 4 = 2 -> <<-p[1], -p[2]>> [] n % 4 = 3 -> <<p[2], -p[1]>>
Flow(f, p, y0, y1) ==
  LET d == y1 - y0 IN
  CASE f.kind = "poly"  -> << p[1] + 2 * f.a * d + 2 * f.k * (y1 * y1 - y0 * y0),
                              p[2] + 2 * f.b * d + f.s * (p[1] * d + f.a * d * d) >>
    [] f.kind = "rot"   -> Turn(p, d)
    [] f.kind = "shear" -> << p[1] + f.a * p[2] * d, p[2] >>

\* a traced result: position of every start point at every requested y
Trace(f, ps, ys) == [i \in 1..Len(ys) |-> [n \in 1..Len(ps) |-> Flow(f, ps[n], ys[1], ys[i])]]

\* shape of the result for start shapes sx, sz (<<>> = scalar) or "refused"
IsOne(s) == \A i \in 1..Len(s) : s[i] = 1
At1(s) == IF s = <<>> THEN <<1>> ELSE s
Accepted(sx, sz) == At1(sx) = At1(sz) \/ IsOne(sx) \/ IsOne(sz)
==============================================================================
