---- MODULE MC_List ----
EXTENDS List, Json
CONSTANTS N, MaxLen
VARIABLE hist
X == 1..N
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Adds == {[op |-> o, x |-> x, fail |-> f] : o \in {"append", "prepend"}, x \in X \cup {0}, f \in {0, 1}}
        \cup {[op |-> "insert", pos |-> p, x |-> x, fail |-> f] : p \in 0..Len(s), x \in X, f \in {0, 1}}
SubSeqs == {<<>>} \cup {<<x>> : x \in X} \cup {<<x, y>> : x, y \in X} \cup {<<1, 2, 3>>}
Ops == {e \in Adds : Len(s) < MaxLen \/ e.fail = 1 \/ e.x = 0}
       \cup {[op |-> o, x |-> x] : o \in {"remove", "contains"}, x \in X \cup {0}}
       \cup {[op |-> o] : o \in {"clear", "free"}}
       \cup {[op |-> "foreach", mode |-> "plain", stop |-> n] : n \in 0..(Len(s) + 1)}
       \cup (IF Distinct(s) THEN {[op |-> "foreach", mode |-> "rm", stop |-> 0, rm |-> r] : r \in SubSeqs} ELSE {})
       \cup (IF Len(s) < MaxLen THEN {[op |-> "foreach", mode |-> "pre", stop |-> n, at |-> a, x |-> x] : n \in {0, 2}, a \in 1..Len(s), x \in {1}} ELSE {})
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == \E e \in IF ~up THEN {[op |-> "create", cb |-> c, fail |-> f] : c \in BOOLEAN, f \in {0, 1}} \cup {[op |-> "nulls"]} ELSE Ops :
            /\ (~up => Len(hist) < 2)
            /\ Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<up, cb, s, IF up THEN 0 ELSE Len(hist)>>
====
