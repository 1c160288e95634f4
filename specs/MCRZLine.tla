--------------------------------- MODULE MCRZLine ---------------------------------
EXTENDS RZLine, TLC, Json
CONSTANTS G, N, K
VARIABLES P, anti, q, pc
vars == <<P, anti, q, pc>>
Pts == (0..G) \X (0..G)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Init == /\ P \in [1..N -> Pts] /\ Distinct(P) /\ Area2(P) # 0
        /\ \A i \in 1..N : P[1][1] * (G + 1) + P[1][2] <= P[i][1] * (G + 1) + P[i][2]
        /\ anti \in BOOLEAN /\ q = -1000 /\ pc = 0
Next == \/ /\ pc = 0 /\ pc' = 1 /\ PrintT("VFSCEN " \o ToJson([P |-> P, anti |-> anti])) /\ UNCHANGED <<P, anti, q>>
        \/ /\ pc = 1 /\ pc' = 2 /\ q' \in -(2 * N * K)..(2 * N * K) /\ UNCHANGED <<P, anti>>
Spec == Init /\ [][Next]_vars
Line == LineOf(P, anti)
Anticlockwise == anti => Area2(Line) > 0
SamePoints == {Line[i] : i \in 1..N} = {P[i] : i \in 1..N}
Periodic == q # -1000 => PolyK(Line, q, K) = PolyK(Line, q + N * K, K)
ThroughPoints == \A i \in 1..N : PolyK(Line, (i - 1) * K, K) = <<K * Line[i][1], K * Line[i][2]>>
Continuous == q # -1000 => LET a == PolyK(Line, q, K)  b == PolyK(Line, q + 1, K)  i == ((q \div K) % N) + 1 IN
  b[1] - a[1] = Line[Nxt(Line, i)][1] - Line[i][1] /\ b[2] - a[2] = Line[Nxt(Line, i)][2] - Line[i][2]
==============================================================================
