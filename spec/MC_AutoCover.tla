---- MODULE MC_AutoCover ----
EXTENDS AutoCover, Json
CONSTANT MaxCap
VARIABLES hist, ctr
Data(n) == [i \in 1..n |-> (ctr + i) % 256]
Creates == {[op |-> "create", req |-> r] : r \in 4..MaxCap}
Ops == {[op |-> "write", data |-> Data(n)] : n \in 1..cap}
       \cup {[op |-> "read", back |-> b, n |-> n] : b \in 0..(cap + 2), n \in 1..(cap + 1)}
       \cup {[op |-> "avail", back |-> b] : b \in 0..(2 * cap + 1)}
MCInit == InitCfg(0) /\ hist = <<>> /\ ctr = 0
MCNext == \E e \in IF cap = 0 THEN Creates ELSE Ops :
            /\ Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
            /\ ctr' = IF e.op = "write" THEN (ctr + Len(e.data)) % 256 ELSE ctr
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<cap, Len(keep), off>>
(* nothing retained is ever altered: what survives is a suffix, extended at the end only *)
Newest == [][cap' = cap => \E n \in 0..Len(keep) : LET s == SubSeq(keep, n + 1, Len(keep)) IN Len(keep') >= Len(s) /\ SubSeq(keep', 1, Len(s)) = s]_<<cap, keep>>
(* a query promises what a read then delivers *)
Promise == [][cap' = cap /\ hist' # hist /\ hist'[Len(hist')].i.op = "avail" /\ out'.ret > 0 => out'.ret <= Len(keep)]_<<cap, keep, hist>>
====
