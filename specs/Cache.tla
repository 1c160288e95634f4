---------------------------------- MODULE Cache ----------------------------------
(* The field line cache: processes serve requests from one directory of result      *)
(* files.  A result is produced by tracing, written to a private temporary file and  *)
(* then renamed; a process may be killed, and tracing or writing may fail, anywhere. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Reqs

VARIABLES file,      \* request -> "none", "partial" or the request whose result it holds
          pc,        \* process -> "idle", "tracing", "writing", "renaming", "dead"
          cur,       \* process -> request being served
          tmp,       \* process -> contents of its temporary file
          answers,   \* set of <<request, result>> returned so far
          done,      \* requests that have been answered
          known,     \* process -> was its request already answered when it was made?
          traced     \* process -> number of traces made for the current request
cvars == <<file, pc, cur, tmp, answers, done, known, traced>>

NoReq == "-"
CInit == /\ file = [r \in Reqs |-> "none"] /\ pc = [p \in Procs |-> "idle"] /\ cur = [p \in Procs |-> NoReq]
         /\ tmp = [p \in Procs |-> "none"] /\ answers = {} /\ done = {} /\ known = [p \in Procs |-> FALSE] /\ traced = [p \in Procs |-> 0]

Answer(p, r, v) == answers' = answers \cup {<<r, v>>} /\ done' = done \cup {r}

BeginHit(p, r) == /\ pc[p] = "idle" /\ file[r] # "none"
                  /\ Answer(p, r, file[r])
                  /\ UNCHANGED <<file, pc, cur, tmp, known, traced>>
BeginMiss(p, r) == /\ pc[p] = "idle" /\ file[r] = "none"
                   /\ pc' = [pc EXCEPT ![p] = "tracing"] /\ cur' = [cur EXCEPT ![p] = r]
                   /\ known' = [known EXCEPT ![p] = r \in done] /\ traced' = [traced EXCEPT ![p] = 1]
                   /\ UNCHANGED <<file, tmp, answers, done>>
Traced(p) == /\ pc[p] = "tracing" /\ pc' = [pc EXCEPT ![p] = "writing"]
             /\ UNCHANGED <<file, cur, tmp, answers, done, known, traced>>
TraceFail(p) == /\ pc[p] = "tracing" /\ pc' = [pc EXCEPT ![p] = "idle"]
                /\ UNCHANGED <<file, cur, tmp, answers, done, known, traced>>
Written(p) == /\ pc[p] = "writing" /\ pc' = [pc EXCEPT ![p] = "renaming"] /\ tmp' = [tmp EXCEPT ![p] = cur[p]]
              /\ UNCHANGED <<file, cur, answers, done, known, traced>>
WriteFail(p) == /\ pc[p] = "writing" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ tmp' = [tmp EXCEPT ![p] = "partial"]
                /\ UNCHANGED <<file, cur, answers, done, known, traced>>
Renamed(p) == /\ pc[p] = "renaming" /\ pc' = [pc EXCEPT ![p] = "idle"]
              /\ file' = [file EXCEPT ![cur[p]] = tmp[p]] /\ tmp' = [tmp EXCEPT ![p] = "none"]
              /\ Answer(p, cur[p], cur[p])
              /\ UNCHANGED <<cur, known, traced>>
\* killed at a step boundary, or in the middle of writing
Kill(p) == /\ pc[p] \in {"tracing", "writing", "renaming"} /\ pc' = [pc EXCEPT ![p] = "dead"]
           /\ UNCHANGED <<file, cur, tmp, answers, done, known, traced>>
KillWriting(p) == /\ pc[p] = "writing" /\ pc' = [pc EXCEPT ![p] = "dead"] /\ tmp' = [tmp EXCEPT ![p] = "partial"]
                  /\ UNCHANGED <<file, cur, answers, done, known, traced>>
Restart(p) == /\ pc[p] = "dead" /\ pc' = [pc EXCEPT ![p] = "idle"]
              /\ UNCHANGED <<file, cur, tmp, answers, done, known, traced>>

\* the guarantees
RightAnswer == \A a \in answers : a[1] = a[2]
NoPartialFile == \A r \in Reqs : file[r] \in {"none", r}
\* a request made after it was answered is never traced again
NotTracedTwice == \A p \in Procs : pc[p] \in {"tracing", "writing", "renaming"} => ~known[p]
==============================================================================
