---------------------------------- MODULE MCWeb ----------------------------------
EXTENDS Web, TLC, Json
CONSTANTS MaxPieces, MaxFail, MaxBudget
VARIABLES fails, budget, left, flight, cur, got, asked, status
vars == <<fails, budget, left, flight, cur, got, asked, status>>
\* flight[i]: "asked" (answer outstanding), "ok", "bad"
Init == /\ \E n \in 2..MaxPieces : fails \in [1..n -> 0..MaxFail]
        /\ budget \in 0..MaxBudget /\ left = budget
        /\ flight = [i \in DOMAIN fails |-> "asked"] /\ asked = [i \in DOMAIN fails |-> 1]
        /\ cur = 1 /\ got = <<>> /\ status = "run"
        /\ PrintT("VFSCEN " \o ToJson([fails |-> fails, budget |-> budget]))
\* the service answers any outstanding piece, in any order
Answer(i) == /\ status = "run" /\ flight[i] = "asked"
             /\ flight' = [flight EXCEPT ![i] = IF asked[i] > fails[i] THEN "ok" ELSE "bad"]
             /\ UNCHANGED <<fails, budget, left, cur, got, asked, status>>
Collect == /\ status = "run" /\ cur <= Len(fails) /\ left > 0 /\ flight[cur] = "ok"
           /\ got' = Append(got, cur) /\ cur' = cur + 1
           /\ UNCHANGED <<fails, budget, left, flight, asked, status>>
Again == /\ status = "run" /\ cur <= Len(fails) /\ left > 0 /\ flight[cur] = "bad"
         /\ left' = left - 1
         /\ IF left = 1 THEN status' = "error" /\ UNCHANGED <<flight, asked>>
            ELSE /\ status' = "run" /\ asked' = [asked EXCEPT ![cur] = @ + 1] /\ flight' = [flight EXCEPT ![cur] = "asked"]
         /\ UNCHANGED <<fails, budget, cur, got>>
NoBudget == /\ status = "run" /\ cur <= Len(fails) /\ left <= 0 /\ status' = "error" /\ UNCHANGED <<fails, budget, left, flight, cur, got, asked>>
Finish == /\ status = "run" /\ cur > Len(fails) /\ status' = "done" /\ UNCHANGED <<fails, budget, left, flight, cur, got, asked>>
Next == Collect \/ Again \/ Finish \/ NoBudget \/ \E i \in DOMAIN fails : Answer(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete == status = "done" => got = [i \in 1..Len(fails) |-> i]
Decided == /\ (status = "done") => Succeeds(fails, budget)
           /\ (status = "error") => ~Succeeds(fails, budget)
Asked == status \in {"done", "error"} /\ budget > 0 => \A i \in DOMAIN fails : asked[i] = Attempts(fails, budget, i)
Ends == <>(status \in {"done", "error"})
==============================================================================
