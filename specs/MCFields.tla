--------------------------------- MODULE MCFields ---------------------------------
(* Histories of making fields and asking them.                                          *)
EXTENDS Fields, Json
CONSTANTS MaxObj, MaxLen, Ks
VARIABLES objs, hist, last
vars == <<objs, hist, last>>
Init == objs = <<>> /\ hist = <<>> /\ last = <<>>
Answer(o) == <<o.kind, o.p>>
Make(k, p) == /\ Len(objs) < MaxObj /\ Len(hist) < MaxLen /\ objs' = Append(objs, [kind |-> k, p |-> p])
              /\ hist' = Append(hist, [a |-> "make", k |-> k, p |-> p]) /\ last' = Append(last, <<>>)
Ask(i) == /\ i \in 1..Len(objs) /\ Len(hist) < MaxLen /\ UNCHANGED objs
          /\ hist' = Append(hist, [a |-> "ask", k |-> objs[i].kind, p |-> i]) /\ last' = [last EXCEPT ![i] = Answer(objs[i])]
Next == (\/ \E k \in Ks, p \in 1..2 : Make(k, p)
         \/ \E i \in 1..MaxObj : Ask(i))
        /\ ((Len(hist') = MaxLen) => PrintT("VFSCEN " \o ToJson([h |-> hist'])))
Spec == Init /\ [][Next]_vars
Stable == \A i \in 1..Len(objs) : last[i] # <<>> => last[i] = <<objs[i].kind, objs[i].p>>
Isolated == [][\A i \in 1..Len(objs) : objs'[i] = objs[i]]_vars
==============================================================================
