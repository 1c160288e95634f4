--------------------------------- MODULE MCCache ---------------------------------
EXTENDS Cache, TLC, Json
CONSTANT MaxLen
VARIABLE hist
vars == <<cvars, hist>>
Log(p, a, r) == hist' = Append(hist, [p |-> p, a |-> a, r |-> r])
Init == CInit /\ hist = <<>>
Step(p) == \/ \E r \in Reqs : (BeginHit(p, r) \/ BeginMiss(p, r)) /\ Log(p, "begin", r)
           \/ Traced(p) /\ Log(p, "traced", cur[p])
           \/ TraceFail(p) /\ Log(p, "tracefail", cur[p])
           \/ Written(p) /\ Log(p, "written", cur[p])
           \/ WriteFail(p) /\ Log(p, "writefail", cur[p])
           \/ Renamed(p) /\ Log(p, "renamed", cur[p])
           \/ Kill(p) /\ Log(p, "kill", cur[p])
           \/ KillWriting(p) /\ Log(p, "killwriting", cur[p])
           \/ Restart(p) /\ Log(p, "restart", cur[p])
Next == /\ Len(hist) < MaxLen
        /\ \E p \in Procs : Step(p)
        \* the first process to act is 1, the first request is a
        /\ (hist = <<>>) => (hist'[1].p = 1 /\ hist'[1].r = "a")
        /\ (Len(hist') = MaxLen) => PrintT("VFSCEN " \o ToJson([hist |-> hist']))
Spec == Init /\ [][Next]_vars
==============================================================================
