------------------------------ MODULE MCFciMap -------------------------------
(* A field line hops from plane to plane; every hop is one forward or backward   *)
(* map application.  Checked: maps of different offsets compose, forward and     *)
(* backward maps are inverse, indices decode to the landing position, and the    *)
(* quadrature table is a quadrature.                                             *)
EXTENDS FciMap, TLC, Json, FiniteSets
CONSTANTS Nys, NSlices, MaxHops

YsOf(n, per) == IF per THEN [i \in 1..n |-> 8 * (i - 1)] ELSE [i \in 1..n |-> 8 * i - 4]
Same(n) == [j \in 1..n |-> <<-16, 8, -8, 8>>]
Diff(n) == [j \in 1..n |-> <<-16 - 8 * j, IF j % 2 = 1 THEN 8 ELSE 16, 8 * j - 24, IF j % 2 = 1 THEN 16 ELSE 8>>]
Flows == {<<1, 0, 0, 0>>, <<-1, 2, 0, 0>>, <<0, 1, 1, 0>>, <<1, -1, 0, 1>>}
Bnds == {<<0, 0, 0, 0, 0>>, <<1, 14, 0, -6, 0>>, <<1, 6, 1, -30, 1>>}

Configs == {[ny |-> n, ys |-> YsOf(n, p), Ly |-> 8 * n, per |-> p, nx |-> 5, nz |-> 3, geo |-> "rect",
             pl |-> IF g THEN Same(n) ELSE Diff(n), fl |-> f, bd |-> b, nslice |-> s]
            : n \in Nys, p \in BOOLEAN, g \in BOOLEAN, f \in Flows, b \in Bnds, s \in NSlices}
Cfgs == Configs

VARIABLES cfg, pos, hops, start     \* pos = [x, z, n, left]: n = absolute plane number
vars == <<cfg, pos, hops, start>>

YAbs(c, n) == Lookup(c, 4 * n).y
Init == /\ cfg \in Cfgs
        /\ \E i \in {0, cfg.nx - 1}, k \in {0, cfg.nz - 1}, j \in 0..(cfg.ny - 1) :
             start = [x |-> PosX(cfg, j, i), z |-> PosZ(cfg, j, k), n |-> j]
        /\ pos = [x |-> start.x, z |-> start.z, n |-> start.n, left |-> FALSE]
        /\ hops = 0
        /\ (start.n = 0 /\ start.x = PosX(cfg, 0, 0) /\ start.z = PosZ(cfg, 0, 0)) => PrintT("VFSCEN " \o ToJson(cfg))

Hop(o) ==
  /\ hops < MaxHops /\ ~pos.left
  /\ LET t == Lookup(cfg, 4 * (pos.n + o))
         y == YAbs(cfg, pos.n)
         x2 == FlowX(cfg, pos.x, y, t.y)
         z2 == FlowZ(cfg, pos.x, pos.z, y, t.y)
     IN pos' = [x |-> x2, z |-> z2, n |-> pos.n + o, left |-> t.plane = None \/ Outside(cfg, x2, z2, t.y)]
  /\ hops' = hops + 1 /\ UNCHANGED <<cfg, start>>
Next == \E o \in {n \in -cfg.nslice..cfg.nslice : n # 0} : Hop(o)
Spec == Init /\ [][Next]_vars

\* however the hops were chosen, the particle is where one direct trace from the start would put it
Composes == ~pos.left => LET y0 == YAbs(cfg, start.n)  y1 == YAbs(cfg, pos.n) IN
              pos.x = FlowX(cfg, start.x, y0, y1) /\ pos.z = FlowZ(cfg, start.x, start.z, y0, y1)
\* forward then backward is the identity
Inverse == ~pos.left => \A o \in 1..cfg.nslice :
     LET y == YAbs(cfg, pos.n)  y2 == YAbs(cfg, pos.n + o)
         x2 == FlowX(cfg, pos.x, y, y2)  z2 == FlowZ(cfg, pos.x, pos.z, y, y2)
     IN (Lookup(cfg, 4 * (pos.n + o)).plane # None) => FlowX(cfg, x2, y2, y) = pos.x /\ FlowZ(cfg, x2, z2, y2, y) = pos.z
\* an open domain can only be left through its ends or the boundary; a periodic one only through the boundary
LeavesOnlyAtEnds == (pos.left /\ cfg.per) => Outside(cfg, pos.x, pos.z, YAbs(cfg, pos.n))
\* the index of a landing decodes to the landing
Decodes == \A o2 \in Offsets2(cfg) : LET ld == Landing(cfg, 1, start.n, 1, o2) IN
     ld.plane # None => X0(cfg, ld.plane) * IndX(cfg, ld)[2] + IndX(cfg, ld)[1] * DX(cfg, ld.plane) = ld.x * IndX(cfg, ld)[2]

\* Nodes/NodeW are quadratures exact for low moments (tolerance: rounding of the table)
NearQ(a, b, t) == a - b <= t /\ b - a <= t
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
ASSUME \A n \in 1..4 : NearQ(Sum(NodeW(n), 1..n), SC, 2)
ASSUME \A n \in 2..4 : LET m2 == [m \in 1..n |-> (((Nodes(n)[m] * (Nodes(n)[m] \div 10)) \div 10000) * (NodeW(n)[m] \div 10)) \div 10000]
                       IN NearQ(Sum(m2, 1..n), 8333, 10)       \* second moment = 1/12
ASSUME \A n \in 1..4 : \A m \in 1..n : Nodes(n)[m] = -Nodes(n)[n + 1 - m] /\ NodeW(n)[m] = NodeW(n)[n + 1 - m]
=============================================================================
