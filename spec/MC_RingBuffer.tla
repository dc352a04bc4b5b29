---- MODULE MC_RingBuffer ----
(* Exhaustive exploration of RingBuffer for small capacities.  Emit prints one
   behaviour per transition of the state graph; each becomes one test of the code. *)
EXTENDS RingBuffer, Json
CONSTANT MaxCap
VARIABLES hist, ctr
Data(n) == [i \in 1..n |-> (ctr + i) % 256]
Creates == {[op |-> "create", mode |-> "alloc", req |-> r] : r \in 4..MaxCap}
Ops == {[op |-> "write", data |-> Data(n)] : n \in 0..(cap + 1)}
       \cup {[op |-> o, n |-> n] : o \in {"read", "peek", "discard"}, n \in 0..(cap + 1)}
       \cup {[op |-> "clear"]}
MCInit == InitCfg(0) /\ hist = <<>> /\ ctr = 0
MCNext == \E e \in IF cap = 0 THEN Creates ELSE Ops :
            /\ Do(e)
            /\ hist' = Append(hist, [i |-> e, o |-> out'])
            /\ ctr' = IF e.op = "write" THEN (ctr + Len(e.data)) % 256 ELSE ctr
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<cap, Len(q), pos>>
(* FIFO as an action property: a step only appends at the end and/or removes from the front *)
Fifo == [][cap' = cap /\ cap > 0 =>
            \/ \E n \in 0..Len(q) : q' = SubSeq(q, n + 1, Len(q))
            \/ Len(q') >= Len(q) /\ SubSeq(q', 1, Len(q)) = q]_<<cap, q>>
====
