--------------------------------- MODULE MCFlow ---------------------------------
(* A tracer is asked to follow a particle to a sequence of y positions; at every   *)
(* point of the history the particle may be followed on, back, or from scratch.    *)
EXTENDS Flow, TLC, Json, FiniteSets
CONSTANTS YMax, MaxLen

Flows == {[kind |-> "poly", a |-> a, b |-> b, s |-> sk[1], k |-> sk[2]] : a \in {0, 2}, b \in {-1, 1}, sk \in {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>}}
         \cup {[kind |-> "rot", a |-> 0, b |-> 0, s |-> 0, k |-> 0]}
         \cup {[kind |-> "shear", a |-> a, b |-> 0, s |-> 0, k |-> 0] : a \in {-1, 2}}
Starts == {<<0, 0>>, <<2, -4>>, <<-6, 10>>}

VARIABLES f, ys, start, pos
vars == <<f, ys, start, pos>>
Init == f \in Flows /\ start \in Starts /\ pos = start /\ \E y \in {0, 1} : ys = <<y>>
Cur == ys[Len(ys)]
\* the y positions of one request are monotonic
Dir == IF Len(ys) < 2 THEN 0 ELSE IF ys[2] > ys[1] THEN 1 ELSE -1
Follow(y) == /\ Len(ys) < MaxLen /\ y # Cur /\ (Dir = 1 => y > Cur) /\ (Dir = -1 => y < Cur)
             /\ ys' = Append(ys, y) /\ pos' = Flow(f, pos, Cur, y)
             /\ (start = <<2, -4>>) => PrintT("VFSCEN " \o ToJson([f |-> f, ys |-> ys']))
             /\ UNCHANGED <<f, start>>
Next == \E y \in -YMax..YMax : Follow(y)
Spec == Init /\ [][Next]_vars

Composes == pos = Flow(f, start, ys[1], Cur)
Returns == Flow(f, pos, Cur, ys[1]) = start
\* distinct lines never meet
Injective == \A p \in Starts : (p # start) => Flow(f, p, ys[1], Cur) # pos
==============================================================================
