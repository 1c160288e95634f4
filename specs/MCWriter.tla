--------------------------------- MODULE MCWriter ---------------------------------
EXTENDS Writer, Json
CONSTANT MaxLen
VARIABLES s, hist
vars == <<s, hist>>
Ops == {[a |-> x, n |-> 0] : x \in {"open", "close", "grid", "bad", "badmaps"}}
       \cup {[a |-> x, n |-> n] : x \in {"field", "maps", "write"}, n \in {1, 2}}
       \cup {[a |-> "session", n |-> n] : n \in {0, 1}}
Init == hist = <<>> /\ \E b \in BOOLEAN : s = Fresh(b)
Useful(op) == /\ (op.a = "open") => ~s.open
              /\ (op.a = "session") => s.open
              /\ (op.a = "grid") => ~s.grid
              /\ (op.a = "field") => s.field # op.n
              /\ (hist = <<>>) => op.a \in {"open", "field"}
Do(op) == /\ Len(hist) < MaxLen /\ Useful(op) /\ s' = After(s, op) /\ hist' = Append(hist, op)
          /\ (Len(hist') = MaxLen) => PrintT("VFSCEN " \o ToJson([ops |-> hist', newn |-> IF hist'[1].a = "x" THEN FALSE ELSE s.newn]))
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
\* the file never loses anything, and holds derived data only together with the maps they belong to
Monotone == [][(s'.open /\ ~s.open /\ s.create) \/ ((s.file.rz => s'.file.rz) /\ (s.file.sizes => s'.file.sizes) /\ (s.file.extra # 0 => s'.file.extra # 0) /\ (s.file.attrs # 0 => s'.file.attrs # 0))]_vars
Derived == s.file.sizes => (s.file.old[2] # 0 \/ s.file.new[2] # 0) /\ s.file.attrs # 0
NeverWithoutField == (s.file.old[1] # 0 => s.file.old[2] # 0) /\ (s.file.new[1] # 0 => s.file.new[2] # 0)
==============================================================================
