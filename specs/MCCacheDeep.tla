------------------------------- MODULE MCCacheDeep -------------------------------
(* All reachable states, without history: more processes and requests               *)
EXTENDS Cache, TLC
Init == CInit
Next == \E p \in Procs : \/ \E r \in Reqs : BeginHit(p, r) \/ BeginMiss(p, r)
                         \/ Traced(p) \/ TraceFail(p) \/ Written(p) \/ WriteFail(p) \/ Renamed(p) \/ Kill(p) \/ KillWriting(p) \/ Restart(p)
Spec == Init /\ [][Next]_cvars
==============================================================================
