-------------------------------- MODULE Legs ---------------------------------
(* Cell space, leg spaces and destination operators.                            *)
(*   c = [nx, ny, nz, mxg, w]   w = quadrature weights as positive integers     *)
(*   a sample is a mapped position in quarter cells; -4 (index -1) and values   *)
(*   outside the interior mean "hits the radial boundary".                      *)
EXTENDS Integers, Sequences, FiniteSets

SeqSum(f(_), n) == LET s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i - 1] + f(i) IN s[n]

Hits(c, xq) == xq < 4 * c.mxg \/ xq > 4 * (c.nx - c.mxg - 1)
Interior(c) == (c.mxg..(c.nx - c.mxg - 1)) \X (0..(c.ny - 1)) \X (0..(c.nz - 1))
Inner(c)    == (0..(c.mxg - 1)) \X (0..(c.ny - 1)) \X (0..(c.nz - 1))
Outer(c)    == ((c.nx - c.mxg)..(c.nx - 1)) \X (0..(c.ny - 1)) \X (0..(c.nz - 1))
AllCells(c) == (0..(c.nx - 1)) \X (0..(c.ny - 1)) \X (0..(c.nz - 1))
ACell(a, p) == a[p[1] + 1][p[2] + 1][p[3] + 1]

\* xs = samples of one cell
HasB(c, xs) == \E s \in 1..Len(xs) : Hits(c, xs[s])
HasI(c, xs) == \E s \in 1..Len(xs) : ~Hits(c, xs[s])
WI(c, xs) == SeqSum(LAMBDA s : IF Hits(c, xs[s]) THEN 0 ELSE c.w[s], Len(xs))
WT(c) == SeqSum(LAMBDA s : c.w[s], Len(c.w))

(* ------------------------- Catmull-Rom, u = k/4, weights over 128 ------------------------- *)
CR(k, o) == CASE o = -1 -> 8 * k * k - k * k * k - 16 * k
              [] o = 0  -> 3 * k * k * k - 20 * k * k + 128
              [] o = 1  -> 16 * k * k - 3 * k * k * k + 16 * k
              [] o = 2  -> k * k * k - 4 * k * k
Clamp(c, x) == IF x < c.mxg THEN c.mxg ELSE IF x > c.nx - c.mxg - 1 THEN c.nx - c.mxg - 1 ELSE x

\* weight (over 128) that a mapped x puts on column x1: guard weight goes to the nearest interior point
CX(c, xq, x1) == LET b == xq \div 4  k == xq % 4  f(o) == IF Clamp(c, b + o) = x1 THEN CR(k, o) ELSE 0
                 IN f(-1) + f(0) + f(1) + f(2)
\* the same in z, cyclic
CZ(c, zq, z1) == LET b == zq \div 4  k == zq % 4  f(o) == IF (b + o) % c.nz = z1 THEN CR(k, o) ELSE 0
                 IN f(-1) + f(0) + f(1) + f(2)

\* numerator of the interior row's weight on (x1, z1); denominator 128*128*WI
RowNum(c, xs, zs, x1, z1) ==
   SeqSum(LAMBDA s : IF Hits(c, xs[s]) THEN 0 ELSE c.w[s] * CX(c, xs[s], x1) * CZ(c, zs[s], z1), Len(xs))

(* positions in hundredths of a cell: marginal weights in millionths *)
CR100(k, o) == CASE o = -1 -> (200 * k * k - k * k * k - 10000 * k) \div 2
                 [] o = 0  -> (3 * k * k * k - 500 * k * k + 2000000) \div 2
                 [] o = 1  -> (400 * k * k - 3 * k * k * k + 10000 * k) \div 2
                 [] o = 2  -> (k * k * k - 100 * k * k) \div 2
FineX(c, xh, x1) == LET b == xh \div 100  k == xh % 100  f(o) == IF Clamp(c, b + o) = x1 THEN CR100(k, o) ELSE 0
                    IN f(-1) + f(0) + f(1) + f(2)
FineZ(c, zh, z1) == LET b == zh \div 100  k == zh % 100  f(o) == IF (b + o) % c.nz = z1 THEN CR100(k, o) ELSE 0
                    IN f(-1) + f(0) + f(1) + f(2)

(* ------------------------------- clean-up ------------------------------- *)
\* samples of one cell after clean-up without partial boundaries, ctr = <<xq, zq>> of the centre
CleanX(c, xs, ctr) == IF HasB(c, xs) /\ HasI(c, xs)
     THEN [s \in 1..Len(xs) |-> IF Hits(c, ctr[1]) \/ Hits(c, xs[s]) THEN ctr[1] ELSE xs[s]] ELSE xs
CleanZ(c, xs, zs, ctr) == IF HasB(c, xs) /\ HasI(c, xs)
     THEN [s \in 1..Len(xs) |-> IF Hits(c, ctr[1]) \/ Hits(c, xs[s]) THEN ctr[2] ELSE zs[s]] ELSE zs
=============================================================================
