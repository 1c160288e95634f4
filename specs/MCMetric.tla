------------------------------- MODULE MCMetric --------------------------------
(* Histories of metric requests.  The grid computes its metric on first use and   *)
(* keeps it; a request for a field combines what is kept with the field.          *)
EXTENDS Metric, TLC, Json, FiniteSets
CONSTANTS MaxOps, NFields

Ops == 0..NFields                     \* 0: the grid's own metric, k: with field k
VARIABLES kept, ops, answers
\* kept: factor by which the kept y metric differs from the grid's own (1 = untouched, 0 = not computed yet)
vars == <<kept, ops, answers>>
Init == kept = 0 /\ ops = <<>> /\ answers = <<>>
Factor(o) == IF o = 0 THEN 1 ELSE o + 1
Ask(o) == /\ Len(ops) < MaxOps
          /\ ops' = Append(ops, o)
          /\ kept' = 1
          /\ answers' = Append(answers, Factor(o) * (IF kept = 0 THEN 1 ELSE kept))
          /\ PrintT("VFSCEN " \o ToJson([ops |-> ops']))
Next == \E o \in Ops : Ask(o)
Spec == Init /\ [][Next]_vars

ReadOnly == kept \in {0, 1}
\* the answer to a request depends on the request only
Repeatable == \A i, j \in 1..Len(ops) : ops[i] = ops[j] => answers[i] = answers[j]
GridOwn == \A i \in 1..Len(ops) : ops[i] = 0 => answers[i] = 1
==============================================================================
