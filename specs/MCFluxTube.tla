-------------------------------- MODULE MCFluxTube --------------------------------
(* The calculation chunk by chunk, plane by plane.                                       *)
EXTENDS FluxTube, Json
CONSTANTS NXs, Ks, Rs, NYs
Tabs == {<<1, 2, 3, 4, 6>>, <<12, 4, 12, 1>>, <<2>>}
VARIABLES q, k, j, c, done, out
vars == <<q, k, j, c, done, out>>
Init == /\ q \in {[nx |-> n, r |-> r, ny |-> y, a |-> a, cz |-> z, tab |-> t, R0 |-> 90, dx |-> 2] : n \in NXs, r \in Rs, y \in NYs, a \in {-2, 0, 1}, z \in {0, 3}, t \in Tabs}
        /\ k \in Ks /\ j = 0 /\ c = 1 /\ done = {} /\ out = <<>>
Step == /\ j < q.ny /\ c <= k
        /\ done' = done \cup {<<i, j>> : i \in Chunk(q.nx, k, c)}
        /\ out' = out \o [i \in 1..ChunkLen(q.nx, k, c) |-> <<ChunkStart(q.nx, k, c) + i - 1, j>>]
        /\ IF c < k THEN c' = c + 1 /\ j' = j ELSE c' = 1 /\ j' = j + 1
        /\ UNCHANGED <<q, k>>
        /\ ((j = q.ny - 1 /\ c = k) => PrintT("VFSCEN " \o ToJson([q |-> q, k |-> k])))
Next == Step
Spec == Init /\ [][Next]_vars
\* every cell is computed exactly once
Once == j = q.ny => done = {<<i, y>> : i \in 0..q.nx - 1, y \in 0..q.ny - 1} /\ Len(out) = q.nx * q.ny
\* all windows span one plane spacing and neighbouring ones tile the line
Windows == /\ \A w \in {"low", "mid", "high"} : Cardinality(Window(q.r, w)) = 2 * q.r + 1
           /\ Window(q.r, "low") \cap Window(q.r, "high") = {0}
           /\ {m - 2 * q.r : m \in Window(q.r, "high")} = Window(q.r, "low")
Weights == SumOver([m \in -q.r..q.r |-> Weight2(q.r, m)], -q.r, q.r) = 4 * q.r
\* in a uniform field on a circular line the volume element is R dx dz
Uniform == (q.tab = <<2>> /\ q.a = 0) => \A i \in 0..q.nx - 1 : J48r(q, i, 0) = 48 * (q.r * RAt(q, i, 0))
==============================================================================
