---- MODULE MC_MsgQueue ----
EXTENDS MsgQueue, Json
CONSTANTS Reqs, MaxLen
VARIABLES hist, ctr
Ctl == 24
Data(n) == [i \in 1..n |-> (ctr + i) % 256]
Creates == {[op |-> "create", req |-> r, ctl |-> Ctl] : r \in Reqs}
Ops == {[op |-> "push", data |-> Data(n)] : n \in 0..MaxLen} \cup {[op |-> "pop", n |-> n] : n \in 0..MaxLen} \cup {[op |-> "clear"]}
MCInit == InitCfg(0) /\ hist = <<>> /\ ctr = 0
MCNext == \E e \in IF cap = 0 THEN Creates ELSE Ops :
            /\ Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
            /\ ctr' = IF e.op = "push" THEN (ctr + Len(e.data)) % 256 ELSE ctr
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<cap, [i \in 1..Len(q) |-> Len(q[i])], off>>
Whole == [][cap' = cap /\ cap > 0 => \/ q' = q \/ q' = <<>> \/ (q # <<>> /\ q' = Tail(q)) \/ (Len(q') = Len(q) + 1 /\ SubSeq(q', 1, Len(q)) = q)]_<<cap, q>>
====
