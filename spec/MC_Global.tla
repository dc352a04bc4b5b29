---- MODULE MC_Global ----
EXTENDS Global, Json
CONSTANTS Max, Direct
VARIABLES hist
Ops == {[op |-> "init", fail |-> f, failed |-> 0] : f \in {0}} \cup {[op |-> o] : o \in {"cleanup", "use"}}
       \cup (IF n = 0 /\ ~tm THEN {[op |-> "init", fail |-> 1, failed |-> 1]} ELSE {})
       \cup (IF Direct THEN {[op |-> "xinit", fail |-> 0, failed |-> 0]} \cup {[op |-> o] : o \in {"xcleanup", "tinit", "tcleanup"}} ELSE {})
       \cup {[op |-> "choose", lv |-> l, tg |-> t, fm |-> f] : l \in {0, 3}, t \in {8, 0}, f \in {0, 12}}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
Bound == n <= Max
View == <<n, xl, tm, set>>
(* without the modules' own functions, the services exist exactly while there are more inits than cleanups *)
Exact == Direct \/ ((n > 0 => xl /\ tm) /\ (n = 0 => ~xl /\ ~tm))
====
