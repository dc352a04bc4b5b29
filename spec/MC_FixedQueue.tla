---- MODULE MC_FixedQueue ----
EXTENDS FixedQueue, Json
CONSTANTS Recs, Maxs
VARIABLES hist, ctr
Ctl == 24
Creates == {[op |-> "create", rec |-> r, max |-> m, ctl |-> Ctl, ok |-> r * m >= Ctl + 4,
             pushn |-> IF r * m >= Ctl + 4 THEN PowDown(r * m - Ctl) \div r ELSE 0] : r \in Recs, m \in Maxs}
Ops == {[op |-> "push", data |-> [i \in 1..rec |-> (ctr + i) % 256]], [op |-> "pop"], [op |-> "popnull"], [op |-> "clear"]}
MCInit == InitCfg(0) /\ hist = <<>> /\ ctr = 0
MCNext == \E e \in IF rec = 0 THEN Creates ELSE Ops :
            /\ Len(hist) < 40
            /\ Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
            /\ ctr' = IF e.op = "push" THEN (ctr + 17) % 256 ELSE ctr
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<rec, max, Len(q), phase>>
Fifo == [][rec' = rec /\ rec > 0 => \/ q' = q \/ q' = <<>> \/ (q # <<>> /\ q' = Tail(q)) \/ (Len(q') = Len(q) + 1 /\ SubSeq(q', 1, Len(q)) = q)]_<<rec, q>>
====
