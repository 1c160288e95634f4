------------------------------- MODULE MCGridY -------------------------------
(* Exhaustive walk along the toroidal index for every small configuration.     *)
EXTENDS GridY, TLC, Json, FiniteSets
CONSTANTS MaxNy, Lens, Span

RECURSIVE Incr(_, _, _)
Incr(n, lo, hi) == IF n = 0 THEN {<<>>}
  ELSE UNION {{<<v>> \o s : s \in Incr(n - 1, v + 4, hi)} : v \in {x \in lo..hi : x % 4 = 0}}

Configs == UNION {UNION {{[ny |-> n, ys |-> s, Ly |-> L, per |-> p] : s \in Incr(n, 0, IF p THEN L - 4 ELSE L)}
                         : p \in BOOLEAN} : n \in 1..MaxNy, L \in Lens}

VARIABLES cfg, q, at          \* configuration, cursor (quarters), what the look-up gives there
vars == <<cfg, q, at>>

Init == /\ cfg \in Configs /\ q = 0 /\ at = Lookup(cfg, 0)
        /\ PrintT("VFSCEN " \o ToJson(cfg))
Forward  == q <  Span * 4 /\ q' = q + 1 /\ at' = Lookup(cfg, q + 1) /\ UNCHANGED cfg
Backward == q > -Span * 4 /\ q' = q - 1 /\ at' = Lookup(cfg, q - 1) /\ UNCHANGED cfg
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars

\* walking forward never decreases y
Ordered == [][(q' > q => at'.y >= at.y) /\ (q' < q => at'.y <= at.y)]_vars
\* one revolution further is the same plane exactly Ly later
Periodic == cfg.per => LET a == Lookup(cfg, q + 4 * cfg.ny) IN a.plane = at.plane /\ a.y = at.y + cfg.Ly
\* an open domain ends at 0 and Ly
Open == ~cfg.per => at.y >= 0 /\ at.y <= cfg.Ly
OnPlane == (q % 4 = 0 /\ (cfg.per \/ (q >= 0 /\ q < 4 * cfg.ny))) <=> at.plane # None
=============================================================================
