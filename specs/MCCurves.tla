--------------------------------- MODULE MCCurves ---------------------------------
(* Draws closed lattice curves of several shapes; one transition smooths them.             *)
EXTENDS Smooth, Json
CONSTANTS Ls, Hs, Finds, Bs, Cuts
Shapes(a, h) == {
  <<<<"E", a>>, <<"N", h>>, <<"W", a>>, <<"S", h>>>>,
  <<<<"N", h>>, <<"E", a>>, <<"S", h>>, <<"W", a>>>>,
  <<<<"NE", a>>, <<"NW", h>>, <<"SW", a>>, <<"SE", h>>>>,
  <<<<"E", a>>, <<"N", a>>, <<"SW", a>>>>,
  <<<<"E", a + h>>, <<"N", h>>, <<"W", h>>, <<"N", a>>, <<"W", a>>, <<"S", a + h>>>>,
  <<<<"E", a>>, <<"NE", h>>, <<"N", a>>, <<"NW", h>>, <<"W", a>>, <<"SW", h>>, <<"S", a>>, <<"SE", h>>>>,
  <<<<"E", 2 * a>>, <<"NW", a>>, <<"SW", a>>>>,
  <<<<"E", a>>, <<"NE", h>>, <<"W", a + h>>, <<"S", h>>>> }
VARIABLES mv, b, find, cut, pc
vars == <<mv, b, find, cut, pc>>
Init == /\ pc = 0 /\ \E a \in Ls, h \in Hs : mv \in Shapes(a, h)
        /\ b \in Bs /\ find \in Finds /\ cut \in Cuts
\* each corner neighbourhood stems from one vertex of the shape
Turns(P, i) == At(P, i + 1)[1] - At(P, i)[1] # At(P, i)[1] - At(P, i - 1 + Len(P))[1] \/ At(P, i + 1)[2] - At(P, i)[2] # At(P, i)[2] - At(P, i - 1 + Len(P))[2]
Clean(P, M) == ~TooMuch(Len(P), M) /\ \A R \in Runs(Len(P), M) : Cardinality({i \in R : Turns(P, i)}) <= 1
Next == /\ pc = 0 /\ pc' = 1 /\ UNCHANGED <<mv, b, find, cut>>
        /\ LET P == TLCEval(Curve(mv))
               M == TLCEval(Marked(Len(P), Corners(P, find, cut), b)) IN
           (Decided(P, find, cut) => PrintT("VFSCEN " \o ToJson([mv |-> mv, b |-> b, find |-> find, cut |-> cut, clean |-> Clean(P, M)])))
Spec == Init /\ [][Next]_vars
AllClosed == Closed(mv)
\* corners are near vertices only, and searching further with a larger cutoff never finds less
Monotone == pc = 0 => LET P == TLCEval(Curve(mv))
                c == TLCEval(Corners(P, find, cut))  f == find + 1  k == cut + 8 IN
            /\ c \subseteq Corners(P, f, k)
            /\ \A i \in c : \E j \in -find..find : Turns(P, i + j + Len(P))
==============================================================================
