--------------------------------- MODULE MCOrder ---------------------------------
(* Points given in any order, one at a time, placed somewhere in the line so far:      *)
(* nothing is lost or doubled.  When each is placed between its neighbours, the line     *)
(* ends up in the order around the curve, whatever the input order.                     *)
EXTENDS RZLine, TLC, Json
CONSTANT N
VARIABLES todo, line, perm, good
vars == <<todo, line, perm, good>>
Init == todo = 1..N /\ line = <<>> /\ perm = <<>> /\ good = TRUE
\* cyclically ascending: at most one descent around the circle
Asc(s) == Cardinality({i \in 1..Len(s) : s[(i % Len(s)) + 1] < s[i]}) <= 1
Place == \E x \in todo, k \in 0..Len(line) :
   /\ perm' = Append(perm, x) /\ todo' = todo \ {x} /\ line' = InsertAfter(line, k, x)
   /\ good' = (good /\ Asc(line'))
   /\ (todo' = {} /\ good') => PrintT("VFSCEN " \o ToJson([perm |-> perm']))
Next == Place
Spec == Init /\ [][Next]_vars
NothingLost == {line[i] : i \in 1..Len(line)} \cup todo = 1..N /\ Len(line) = N - Cardinality(todo)
GoodIsOrdered == (todo = {} /\ good) => CyclicUp(line)
==============================================================================
