---- MODULE MC_RingBuf ----
EXTENDS RingBuf, Json
CONSTANT MaxSize
VARIABLES hist, ctr
Data(n) == [i \in 1..n |-> (ctr + i) % 256]
Creates == {[op |-> "create", mode |-> "alloc", req |-> r] : r \in 3..MaxSize}
Ops == {[op |-> "write", data |-> Data(n)] : n \in 0..(size + 1)}
       \cup {[op |-> o, n |-> n] : o \in {"read", "peek", "discard"}, n \in 0..(size + 1)}
       \cup {[op |-> "clear"]}
MCInit == InitCfg(0) /\ hist = <<>> /\ ctr = 0
MCNext == \E e \in IF size = 0 THEN Creates ELSE Ops :
            /\ Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
            /\ ctr' = IF e.op = "write" THEN (ctr + Len(e.data)) % 256 ELSE ctr
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<size, Len(q), off>>
AllOrNothing == [][size' = size /\ size > 0 /\ "ret" \in DOMAIN out' =>
                    \/ out'.ret = 0 /\ q' = q
                    \/ out'.ret > 0 /\ (Len(q') = Len(q) + out'.ret \/ Len(q') = Len(q) - out'.ret \/ q' = q)]_<<size, q, out>>
====
