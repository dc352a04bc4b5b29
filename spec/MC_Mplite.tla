---- MODULE MC_Mplite ----
(* All histories over a few blocks; every placement the specification allows for the
   smallest sufficient free block.  Scripts are emitted and validated from the code. *)
EXTENDS Mplite, Json
CONSTANTS Atoms, Ids
VARIABLE hist
A == 8
Sizes == {1, 8, 9, 16, 17, 32, 64}
Offs == {a * A : a \in 0..8}
Smallest(n) == CHOOSE b \in free : P(b.l) * atom >= n /\ \A c \in free : P(c.l) * atom >= n => (b.l < c.l \/ (b.l = c.l /\ b.s <= c.s))
Ops == {[op |-> "malloc", id |-> i, n |-> n, off |-> IF Fits(n) THEN Smallest(n).s * A ELSE -1] : i \in Ids \ DOMAIN live, n \in Sizes}
       \cup {[op |-> "free", id |-> i] : i \in DOMAIN live}
       \cup {[op |-> "realloc", id |-> i, n |-> n, off |-> IF Fits(n) THEN Smallest(n).s * A ELSE -1] : i \in DOMAIN live, n \in {8, 16, 32, 64}}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == \E e \in IF atom = 0 THEN {[op |-> "init", size |-> 9 * k + 4, min |-> 8] : k \in Atoms} ELSE Ops :
            Do(e) /\ hist' = Append(hist, e)
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<nblk, free, live>>
====
