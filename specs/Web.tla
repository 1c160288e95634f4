----------------------------------- MODULE Web -----------------------------------
(* One call to the remote tracer: the points are cut into pieces, pieces are         *)
(* requested concurrently, collected in order, and re-requested when they fail,      *)
(* as long as the failure budget of the call is not used up.                         *)
EXTENDS Integers, Sequences, FiniteSets

\* pieces of a request of n points with chunk size c: sequence of <<first, length>>
NPieces(n, c) == (n + c - 1) \div c
Pieces(n, c) == [i \in 1..NPieces(n, c) |-> <<(i - 1) * c + 1, IF i * c <= n THEN c ELSE n - (i - 1) * c>>]

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
\* fails[i]: how often piece i fails before it succeeds
Succeeds(fails, budget) == SumTo(fails, Len(fails)) < budget
\* number of times piece i is asked for
Attempts(fails, budget, i) ==
  LET before == SumTo(fails, i - 1) IN
  IF i > 1 /\ before >= budget THEN 1                       \* the call failed before this piece was looked at
  ELSE IF before + fails[i] >= budget THEN budget - before
  ELSE fails[i] + 1
==============================================================================
