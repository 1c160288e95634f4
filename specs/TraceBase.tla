------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications: a cursor over the recorded trace.  *)
(* Every event is judged (total verdict): a failing clause is reported and the *)
(* rest of the trace is still examined.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLE l

BIG == 1000000000
NAN == 1000000001

Cl(ok, name) == IF ok THEN {} ELSE {name}

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* every recorded event that is an unexpected exception, hang or crash of the code under test
IsExc(e) == e.ev = "exc"
ExcFails(e) == {"unexpected_" \o e.exc}

Advance(fs) ==
  /\ l <= Len(T)
  /\ \A c \in fs : PrintT("VFBAD " \o ToString(l) \o " " \o c)
  /\ (l = Len(T)) => PrintT("VFDONE " \o ToString(Len(T)))
  /\ l' = l + 1
=============================================================================
