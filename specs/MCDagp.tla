--------------------------------- MODULE MCDagp ---------------------------------
EXTENDS Dagp, Json
CONSTANT MaxCrash
VARIABLES file, run, on, n, crashes, computed, reached
\* on: a run is active; n: steps done in this run; crashes: where runs were interrupted;
\* computed[p]: how often plane p was computed; reached: planes a run has moved on from
vars == <<file, run, on, n, crashes, computed, reached>>
Init == file = FreshFile /\ run = StartRun /\ on = TRUE /\ n = 0 /\ crashes = <<>> /\ computed = [p \in Planes |-> 0] /\ reached = 0
Step == /\ on /\ ~Finished(run)
        /\ LET r == RunStep(file, run) IN
             /\ file' = r[1] /\ run' = r[2]
             /\ reached' = IF r[2].plane > reached THEN r[2].plane ELSE reached
        /\ computed' = IF run.step = 0 /\ ~Skips(file, run) THEN [computed EXCEPT ![run.plane] = @ + 1] ELSE computed
        /\ n' = n + 1 /\ UNCHANGED <<on, crashes>>
Crash == /\ on /\ ~Finished(run) /\ Len(crashes) < MaxCrash
         /\ crashes' = Append(crashes, [plane |-> run.plane, step |-> run.step])
         /\ on' = FALSE /\ UNCHANGED <<file, run, n, computed, reached>>
Done == /\ on /\ Finished(run)
        /\ PrintT("VFSCEN " \o ToJson([crashes |-> crashes, np |-> NP]))
        /\ on' = FALSE /\ UNCHANGED <<file, run, n, crashes, computed, reached>>
Resume == /\ ~on /\ ~Finished(run) /\ on' = TRUE /\ run' = StartRun /\ n' = 0 /\ UNCHANGED <<file, crashes, computed, reached>>
Next == Step \/ Crash \/ Done \/ Resume
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Resume) /\ WF_vars(Done)

ProgressIsTrue == \A p \in Planes : p < file.prog => Complete(file, p)
DoneIsComplete == Finished(run) => AllComplete(file)
NeverTwice == \A p \in Planes : p < reached => computed[p] <= 1 + Cardinality({i \in 1..Len(crashes) : crashes[i].plane = p})
OnlyForward == [][file'.prog >= file.prog]_vars
Ends == <>(AllComplete(file))
==============================================================================
