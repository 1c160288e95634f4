--------------------------------- MODULE TraceWeb ---------------------------------
EXTENDS Web, Flow, TraceBase
SC == 5000
Same(r, p, tol) == Near(r[1], p[1] * SC, tol) /\ Near(r[2], p[2] * SC, tol)

\* call: fails[i] planned failures per piece, budget, split: was it cut up (else no retries);
\*   out "ok" or an exception, res[y][n], asked[i] recorded attempts per piece
CallFails(e) ==
  LET should == IF e.split THEN Succeeds(e.fails, e.budget) ELSE \A i \in 1..Len(e.fails) : e.fails[i] = 0
      w == Trace(e.f, e.ps, e.ys)
  IN Cl((e.out = "ok") <=> should, IF should THEN "call_failed_with_budget_left" ELSE "call_should_fail")
     \cup (IF e.out # "ok" THEN {} ELSE
        Cl(e.shape = e.want, "result_shape")
        \cup (IF e.shape # e.want THEN {} ELSE
            Cl(\A n \in 1..Len(e.ps) : Same(e.res[1][n], e.ps[n], 2), "first_is_start")
            \cup Cl(\A i \in 2..Len(e.ys) : \A n \in 1..Len(e.ps) : Same(e.res[i][n], w[i][n], 20), "result_complete_and_ordered")))
     \cup Cl((e.out = "ok" /\ should /\ e.split) => \A i \in 1..Len(e.fails) : e.asked[i] = Attempts(e.fails, e.budget, i), "attempts")
     \cup Cl((e.split /\ e.out = "ok") => e.npieces = NPieces(Len(e.ps), e.chunk), "pieces")
     \cup Cl(e.kept, "input_modified")
\* refuse: as for any tracer
RefuseFails(e) == Cl((e.exc = "ValueError") <=> (~Accepted(e.sx, e.sz) \/ e.ny < 2), "refusal")
Fails(e) == CASE e.ev = "call" -> CallFails(e)
              [] e.ev = "refuse" -> RefuseFails(e)
              [] OTHER -> ExcFails(e)
Init == l = 1
Next == l <= Len(T) /\ Advance(Fails(T[l]))
Spec == Init /\ [][Next]_l
==============================================================================
