---- MODULE MC_Array ----
EXTENDS Array, Json
CONSTANTS MaxLen, Sizes
VARIABLES hist, ctr
Data(n) == [i \in 1..n |-> (ctr + i) % 256]
Ops == (IF Len(a) < MaxLen THEN {[op |-> "append", data |-> Data(es), failed |-> 0]} ELSE {})
       \cup (IF Len(a) < MaxLen /\ es <= 4 THEN {[op |-> "value", data |-> Data(4), failed |-> 0]} ELSE {})
       \cup {[op |-> "at", i |-> i] : i \in {0, Len(a), Len(a) - 1, Len(a) + 7} \cap Nat}
       \cup {[op |-> "set", i |-> i, data |-> Data(es)] : i \in 0..(Len(a) - 1)}
       \cup {[op |-> "free"]}
Creates == {[op |-> "create", es |-> z, cap |-> c, fail |-> 0] : z \in Sizes, c \in {-1, 0, 3, 4, 5, 7}}
MCInit == InitCfg(0) /\ hist = <<>> /\ ctr = 0
MCNext == \E e \in IF ~up THEN IF hist = <<>> THEN Creates ELSE {} ELSE Ops :
            Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out']) /\ ctr' = (ctr + 5) % 256
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<up, es, Len(a), IF hist = <<>> THEN 0 ELSE hist[1].i.cap>>
Preserved == [][up /\ up' => /\ Len(a') >= Len(a)
                             /\ \A i, j \in 1..Len(a) : i # j => (a'[i] = a[i] \/ a'[j] = a[j])]_<<up, a>>
====
