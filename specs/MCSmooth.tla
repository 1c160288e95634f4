--------------------------------- MODULE MCSmooth ---------------------------------
(* The marking as an algorithm that scans the arrays once from their start: collect, split *)
(* where there is a gap, join the first and last piece if they meet over the seam.         *)
EXTENDS Smooth, Json
CONSTANTS N, MaxC, Bs
VARIABLES C, b, pos, cur, runs, pc
vars == <<C, b, pos, cur, runs, pc>>
M == Marked(N, C, b)
Init == /\ C \in {c \in SUBSET (0..N - 1) : Cardinality(c) <= MaxC} /\ b \in Bs
        /\ pos = 0 /\ cur = <<>> /\ runs = <<>> /\ pc = "scan"
Scan == /\ pc = "scan" /\ pos < N /\ pos' = pos + 1
        /\ IF pos \in M THEN cur' = Append(cur, pos) /\ runs' = runs
           ELSE cur' = <<>> /\ runs' = IF cur = <<>> THEN runs ELSE Append(runs, cur)
        /\ UNCHANGED <<C, b, pc>>
Flush == /\ pc = "scan" /\ pos = N /\ pc' = "join"
         /\ runs' = (IF cur = <<>> THEN runs ELSE Append(runs, cur)) /\ cur' = <<>> /\ UNCHANGED <<C, b, pos>>
Join == /\ pc = "join" /\ pc' = "done" /\ UNCHANGED <<C, b, pos, cur>>
        /\ IF Len(runs) > 1 /\ runs[1][1] = 0 /\ runs[Len(runs)][Len(runs[Len(runs)])] = N - 1
           THEN runs' = <<runs[Len(runs)] \o runs[1]>> \o SubSeq(runs, 2, Len(runs) - 1)
           ELSE runs' = runs
Next == Scan \/ Flush \/ Join
Spec == Init /\ [][Next]_vars
Set(s) == {s[i] : i \in 1..Len(s)}
\* the algorithm finds the runs of the cyclic curve
FindsRuns == (pc = "done" /\ M # 0..N - 1) => {Set(runs[i]) : i \in 1..Len(runs)} = Runs(N, M) /\ Len(runs) = Cardinality(Runs(N, M))
\* runs are contiguous around the curve and have at least 2b + 1 points
Contiguous == (pc = "done" /\ M # 0..N - 1) => \A i \in 1..Len(runs) : /\ Len(runs[i]) >= 2 * b + 1
                 /\ \A j \in 1..Len(runs[i]) - 1 : runs[i][j + 1] = (runs[i][j] + 1) % N
\* no dependence on the starting point
ShiftSet(X, s) == {(x + s) % N : x \in X}
Equivariant == pc = "done" => \A s \in 1..N - 1 : Runs(N, Marked(N, ShiftSet(C, s), b)) = {ShiftSet(R, s) : R \in Runs(N, M)}
EachCornerInARun == (pc = "done" /\ M # 0..N - 1) => \A c \in C : \E R \in Runs(N, M) : c \in R
==============================================================================
