---------------------------------- MODULE Writer ----------------------------------
(* The grid file writer.  A session opens the file, is told the grid and the field,  *)
(* and adds data; the file accumulates over sessions.  Contents are kept as a        *)
(* function from group to where its data came from.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* names of metric components in the file
OldNames == [g_yy |-> "g_22", gyy |-> "g22", gxx |-> "g11", gxz |-> "g13", gzz |-> "g33", g_xx |-> "g_11", g_xz |-> "g_13", g_zz |-> "g_33"]
Base(k) == IF k \in DOMAIN OldNames THEN OldNames[k] ELSE k
\* staggered versions keep their suffix: the key is recorded as <<component, suffix>>
MetricName(comp, post, newn) == (IF newn THEN comp ELSE Base(comp)) \o post
SliceName(name, off) ==
  (IF off > 0 THEN "forward_" ELSE "backward_") \o name \o
  (IF off > 1 THEN "_" \o ToString(off) ELSE IF off < -1 THEN "_" \o ToString(-off) ELSE "")

\* the state of a writer and its file: s = [create, open, grid, field, newn, file]
\* file: [extra, grid, maps, attrs |-> <<data>> or <<>>, old |-> .., new |-> ..]
Empty == [extra |-> 0, rz |-> FALSE, maps |-> 0, attrs |-> 0, old |-> <<0, 0>>, new |-> <<0, 0>>, sizes |-> FALSE]
Fresh(newn) == [create |-> TRUE, open |-> FALSE, grid |-> FALSE, field |-> 0, newn |-> newn, file |-> Empty]

Allowed(s, op) ==
  CASE op.a = "open" -> TRUE
    [] op.a = "close" -> s.open
    [] op.a = "field" -> TRUE
    [] op.a = "grid" -> s.open
    [] op.a = "write" -> s.open
    [] op.a = "bad" -> FALSE
    [] op.a = "maps" -> s.open /\ s.grid /\ s.field # 0
    [] op.a = "badmaps" -> FALSE
    [] op.a = "session" -> TRUE

After(s, op) ==
  CASE op.a = "open" -> [s EXCEPT !.open = TRUE, !.file = IF s.create THEN Empty ELSE @]     \* a creating writer starts a new file
    [] op.a = "close" -> [s EXCEPT !.open = FALSE]
    [] op.a = "field" -> [s EXCEPT !.field = op.n]
    [] op.a = "grid" -> IF s.open THEN [s EXCEPT !.grid = TRUE, !.file.rz = TRUE] ELSE [s EXCEPT !.grid = TRUE]   \* refused, but remembered
    [] op.a = "write" -> IF s.open THEN [s EXCEPT !.file.extra = op.n] ELSE s
    [] op.a = "maps" -> IF Allowed(s, op)
                        THEN [s EXCEPT !.file = [@ EXCEPT !.maps = op.n, !.attrs = s.field, !.sizes = TRUE,
                                                          !.old = IF s.newn THEN @ ELSE <<op.n, s.field>>, !.new = IF s.newn THEN <<op.n, s.field>> ELSE @]]
                        ELSE IF s.open THEN [s EXCEPT !.file.maps = -1] ELSE s                              \* refused: the map arrays may be there
    [] op.a = "badmaps" -> IF s.open THEN [s EXCEPT !.file.maps = -1] ELSE s
    [] op.a = "bad" -> s
    [] op.a = "session" -> [create |-> FALSE, open |-> TRUE, grid |-> FALSE, field |-> 0, newn |-> op.n = 1, file |-> s.file]        \* close, and continue with a new writer
==============================================================================
