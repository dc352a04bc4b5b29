---- MODULE MC_Lifecycle ----
(* every order of creating, using, emptying and destroying two objects, of the kinds given *)
EXTENDS Lifecycle, Json
CONSTANTS MaxLen, Kinds
VARIABLE hist
Ids == {1, 2}
MCInit == InitCfg(0) /\ hist = <<>>
Own(k) == IF k \in Owning THEN 1 ELSE 0
Tb(d) == [blk |-> Tot(objs).blk + d, fd |-> Tot(objs).fd, intact |-> TRUE, null |-> TRUE]
Evs == UNION {
         {[op |-> "create", id |-> i, kind |-> k, ok |-> TRUE, failed |-> 0, fail |-> 0] @@ Tb(Own(k)) : i \in Ids \ DOMAIN objs, k \in Kinds},
         {[op |-> "create", id |-> i, kind |-> k, ok |-> FALSE, failed |-> 1, fail |-> 1] @@ Tb(0) : i \in Ids \ DOMAIN objs, k \in Kinds \cap Owning},
         {[op |-> "use", id |-> i, kind |-> objs[i].kind] @@ Tb(1) : i \in {j \in DOMAIN objs : objs[j].blk < 3}},
         {[op |-> "clear", id |-> i, kind |-> objs[i].kind] @@ Tb(IF objs[i].blk > Own(objs[i].kind) THEN -1 ELSE 0) : i \in DOMAIN objs},
         {[op |-> "destroy", id |-> i, kind |-> objs[i].kind] @@ Tb(-objs[i].blk) : i \in DOMAIN objs},
         {[op |-> "once", id |-> 0, kind |-> "none"] @@ Tb(0)} }
MCNext == Len(hist) < MaxLen /\ \E e \in Evs : Do(e) /\ hist' = Append(hist, e)
(* nothing outlives its owner *)
NoOwnerNothing == objs = <<>> => Tot(objs) = [blk |-> 0, fd |-> 0]
Owned == \A i \in DOMAIN objs : objs[i].kind \in Owning => objs[i].blk >= 1
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<objs, hist # <<>> /\ hist[Len(hist)].op = "create">>
====
