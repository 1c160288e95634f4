-------------------------------- MODULE TraceCache --------------------------------
(* Recorded: reset (new directory), begin (process p asks for request r), end        *)
(* (its outcome), kill.  Results are recorded next to the wrapped tracer's result.   *)
EXTENDS TraceBase
VARIABLES done,    \* requests answered so far in this directory
          known    \* set of <<process, request>> which were already answered when asked

EndFails(e) ==
  LET hit == <<e.p, e.r>> \in known IN
  Cl(e.out = "ok" \/ e.fault # "none", "request_failed")
  \cup (IF e.out # "ok" THEN {} ELSE
        Cl(e.shape = e.wshape, "answer_shape")
        \cup Cl(Len(e.res) = Len(e.want) /\ \A i \in 1..Len(e.res) : Near(e.res[i], e.want[i], 1), "answer_of_other_request"))
  \cup Cl(hit => e.calls = 0, "traced_again")
  \cup Cl(e.calls <= 1, "traced_more_than_once")
  \cup Cl(e.kept, "input_modified")

\* many: n different requests asked by one tracer and then again by another one
ManyFails(e) == Cl(e.wrong[1] = 0 /\ e.wrong[2] = 0, "answer_of_other_request")
  \cup Cl(e.calls[1] = e.n, "not_traced") \cup Cl(e.calls[2] = 0, "traced_again")

Fails(e) == CASE e.ev = "many" -> ManyFails(e)
              [] e.ev = "reset" -> {}
              [] e.ev = "begin" -> {}
              [] e.ev = "kill" -> {}
              [] e.ev = "end" -> EndFails(e)
              [] OTHER -> ExcFails(e)

Init == l = 1 /\ done = {} /\ known = {}
Next == LET e == T[l] IN
        /\ l <= Len(T)
        /\ Advance(Fails(e))
        /\ done' = CASE e.ev = "reset" -> {}
                     [] e.ev = "end" /\ e.out = "ok" /\ e.fault # "writefail" -> done \cup {e.r}
                     [] OTHER -> done
        /\ known' = CASE e.ev = "reset" -> {}
                      [] e.ev = "begin" -> IF e.r \in done THEN known \cup {<<e.p, e.r>>} ELSE known \ {<<e.p, e.r>>}
                      [] OTHER -> known
Spec == Init /\ [][Next]_<<l, done, known>>
==============================================================================
