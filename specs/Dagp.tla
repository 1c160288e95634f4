---------------------------------- MODULE Dagp ----------------------------------
(* Generation of the perpendicular-operator coefficients, plane by plane, into a    *)
(* file that survives interruptions.  For each plane the coefficients are computed, *)
(* its NV variables are written one after the other, then the number of completed   *)
(* planes stored in the file is advanced.  An interruption (the file is closed) may *)
(* happen between any two steps; a later run starts from what is in the file.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NP, NV
Planes == 0..NP - 1

\* file: prog = completed planes, data[p] = number of variables of plane p that hold that plane's values
FreshFile == [prog |-> 0, data |-> [p \in Planes |-> 0]]
Complete(file, p) == file.data[p] = NV
AllComplete(file) == file.prog = NP /\ \A p \in Planes : Complete(file, p)

\* a run: next plane to look at, step within the plane (0: not computed, 1..NV: that many to be written, NV+1: advance)
StartRun == [plane |-> 0, step |-> 0]
Skips(file, r) == r.step = 0 /\ r.plane < file.prog
Finished(r) == r.plane = NP
RunStep(file, r) ==
  IF Skips(file, r) THEN <<file, [r EXCEPT !.plane = @ + 1]>>
  ELSE IF r.step = 0 THEN <<file, [r EXCEPT !.step = 1]>>                                                      \* compute
  ELSE IF r.step <= NV THEN <<[file EXCEPT !.data[r.plane] = IF @ < r.step THEN r.step ELSE @], [r EXCEPT !.step = @ + 1]>>  \* write one variable
  ELSE <<[file EXCEPT !.prog = r.plane + 1], [plane |-> r.plane + 1, step |-> 0]>>                             \* advance
==============================================================================
