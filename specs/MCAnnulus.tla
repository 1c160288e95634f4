--------------------------------- MODULE MCAnnulus ---------------------------------
(* Building a grid: coarsen until small enough, solve there, then refine level by level.  *)
EXTENDS Annulus, Json
CONSTANTS NXs, NZs, Extra, Sizes
VARIABLES q, levels, solved, rows, pc
vars == <<q, levels, solved, rows, pc>>
Opts == {[nx |-> a, nz |-> b, ni |-> i, no |-> o, size |-> s, fac |-> f, ort |-> t, al |-> u] :
          a \in NXs, b \in NZs, i \in Extra, o \in Extra, s \in Sizes, f \in {2, 3}, t \in BOOLEAN, u \in {"no", "yes", "legacy"}}
Init == q \in {o \in Opts : Valid(o)} /\ levels = <<<<Core(q), q.nz>>>> /\ solved = 0 /\ rows = 0 /\ pc = "coarsen"
Top == levels[Len(levels)]
Coarsen == /\ pc = "coarsen" /\ NeedsCoarse(Top[1], Top[2], q.size)
           /\ levels' = Append(levels, <<CoarseN(Top[1], q.size, q.fac), CoarseN(Top[2], q.size, q.fac)>>)
           /\ UNCHANGED <<q, solved, rows, pc>>
Solve == /\ pc = "coarsen" /\ ~NeedsCoarse(Top[1], Top[2], q.size) /\ pc' = "solve" /\ solved' = Len(levels) /\ rows' = Top[1] /\ UNCHANGED <<q, levels>>
Refine == /\ pc = "solve" /\ solved > 1 /\ solved' = solved - 1 /\ rows' = levels[solved - 1][1] /\ UNCHANGED <<q, levels, pc>>
Finish == /\ pc = "solve" /\ solved = 1 /\ pc' = "done" /\ rows' = rows + q.ni + q.no /\ UNCHANGED <<q, levels, solved>>
          /\ PrintT("VFSCEN " \o ToJson([nx |-> q.nx, nz |-> q.nz, ni |-> q.ni, no |-> q.no, size |-> q.size, fac |-> q.fac, ort |-> q.ort, al |-> q.al, levels |-> Len(levels)]))
Next == Coarsen \/ Solve \/ Refine \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every level can hold a grid: two radial rows, and a periodic direction
LevelsOK == \A i \in 1..Len(levels) : levels[i][1] >= 2 /\ levels[i][2] >= 3
\* each coarser level is smaller, so this ends
Shrinks == \A i \in 2..Len(levels) : levels[i][1] + levels[i][2] < levels[i - 1][1] + levels[i - 1][2]
\* the requested number of rows, one of which is the inner and one the outer line
RightSize == pc = "done" => /\ rows = q.nx
                            /\ Cardinality({i \in 0..q.nx - 1 : RowKind(q, i) = "inner"}) = 1
                            /\ Cardinality({i \in 0..q.nx - 1 : RowKind(q, i) = "outer"}) = 1
                            /\ Cardinality({i \in 0..q.nx - 1 : RowKind(q, i) = "extra_in"}) = q.ni
                            /\ Cardinality({i \in 0..q.nx - 1 : RowKind(q, i) = "extra_out"}) = q.no
Ends == <>(pc = "done")
==============================================================================
