-------------------------------- MODULE MCService --------------------------------
(* Histories of requests for tabulated fields, attempt by attempt.                       *)
EXTENDS Service, Json
CONSTANTS Keys, MaxReq
VARIABLES store, req, try, calls, hist
vars == <<store, req, try, calls, hist>>
None == [key |-> 0, fails |-> 0]
Init == store = {} /\ req = None /\ try = 0 /\ calls = 0 /\ hist = <<>>
Ask == /\ req = None /\ Len(hist) < MaxReq
       /\ \E k \in Keys, f \in 0..MaxTry : req' = [key |-> k, fails |-> f]
       /\ try' = 0 /\ calls' = 0 /\ UNCHANGED <<store, hist>>
Done(ok) == /\ hist' = Append(hist, [key |-> req.key, fails |-> req.fails, ok |-> ok, calls |-> calls'])
            /\ req' = None /\ try' = 0
            /\ ((Len(hist') = MaxReq) => PrintT("VFSCEN " \o ToJson([h |-> hist'])))
FromStore == req # None /\ req.key \in store /\ calls' = 0 /\ Done(TRUE) /\ UNCHANGED store
Attempt == /\ req # None /\ req.key \notin store /\ calls' = calls + 1
           /\ IF try < req.fails
              THEN IF try + 1 = MaxTry THEN Done(FALSE) /\ UNCHANGED store
                   ELSE try' = try + 1 /\ UNCHANGED <<store, req, hist>>
              ELSE store' = store \cup {req.key} /\ Done(TRUE)
Next == Ask \/ FromStore \/ Attempt
Spec == Init /\ [][Next]_vars
Seen(i) == \E j \in 1..i - 1 : hist[j].key = hist[i].key /\ hist[j].ok
\* the attempts and outcomes are as required, for every history
Outcomes == \A i \in 1..Len(hist) : hist[i].ok = Succeeds(hist[i].fails, Seen(i)) /\ hist[i].calls = Attempts(hist[i].fails, Seen(i))
\* only answers are kept
StoreOK == store = {hist[i].key : i \in {j \in 1..Len(hist) : hist[j].ok}}
\* cylindrical components: turning the point and the field together changes nothing
M0 == <<<<0, -2, 1>>, <<2, 0, 3>>, <<1, 0, 1>>>>
Norm2 == \A k \in 0..3, r \in 1..3, z \in -1..1 : LET a == FieldAt(M0, r, k, z, 5)  b == Answer(M0, Cart(r, k, z), 5) IN
            a[1] * a[1] + a[2] * a[2] + a[3] * a[3] = b[1] * b[1] + b[2] * b[2] + b[3] * b[3]
==============================================================================
