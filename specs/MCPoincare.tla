------------------------------- MODULE MCPoincare -------------------------------
(* A Poincare request: slice positions are asked for one by one in any order, the   *)
(* line is then followed once through the oversampled y axis and the visited        *)
(* positions are stored by revolution and slice.                                    *)
EXTENDS Flow, TLC, Json, FiniteSets
CONSTANTS Per, MaxSlices, MaxRevs

F == [kind |-> "poly", a |-> 2, b |-> -1, s |-> 1, k |-> 0]
P0 == <<2, -4>>

VARIABLES req, revs, nover, axis, k, out, phase
vars == <<req, revs, nover, axis, k, out, phase>>
Init == req = <<>> /\ revs \in 1..MaxRevs /\ nover \in {1, 2, 4} /\ axis = <<>> /\ k = 1 /\ out = <<>> /\ phase = "ask"

Ask == /\ phase = "ask" /\ Len(req) < MaxSlices
       /\ \E y \in 0..Per : (\A i \in 1..Len(req) : req[i] # y) /\ req' = Append(req, y)
       /\ UNCHANGED <<revs, nover, axis, k, out, phase>>
Rank(y) == Cardinality({i \in 1..Len(req) : req[i] < y}) + 1
Sorted == [s \in 1..Len(req) |-> CHOOSE y \in 0..Per : (\E i \in 1..Len(req) : req[i] = y) /\ Rank(y) = s]
\* y (times nover) at every point of the oversampled axis
Extended == [m \in 1..(Len(req) * revs) |-> Sorted[((m - 1) % Len(req)) + 1] + ((m - 1) \div Len(req)) * Per]
Axis == [m \in 1..(Len(Extended) * nover - (nover - 1)) |->
          LET q == (m - 1) \div nover  r == (m - 1) % nover
          IN IF r = 0 THEN nover * Extended[q + 1] ELSE r * Extended[q + 2] + (nover - r) * Extended[q + 1]]
Start == /\ phase = "ask" /\ req # <<>> /\ phase' = "run" /\ axis' = Axis
         /\ PrintT("VFSCEN " \o ToJson([per |-> Per, req |-> req, revs |-> revs, nover |-> nover]))
         /\ UNCHANGED <<req, revs, nover, k, out>>
\* visit the next axis point; only every nover-th is kept
Visit == /\ phase = "run" /\ k <= Len(axis)
         /\ out' = IF (k - 1) % nover = 0 THEN Append(out, axis[k] \div nover) ELSE out
         /\ k' = k + 1 /\ UNCHANGED <<req, revs, nover, axis, phase>>
Next == Ask \/ Start \/ Visit
Spec == Init /\ [][Next]_vars

Monotonic == \A m \in 1..(Len(axis) - 1) : axis[m] <= axis[m + 1]
\* stored at [rev, slice]: the y that was asked for
Layout == (phase = "run" /\ k > Len(axis)) =>
   /\ Len(out) = revs * Len(req)
   /\ \A v \in 0..(revs - 1), s \in 1..Len(req) : out[v * Len(req) + s] = Sorted[s] + v * Per
Increasing == \A s \in 1..(Len(req) - 1) : Sorted[s] < Sorted[s + 1]
==============================================================================
