---- MODULE MC_Xlog ----
(* every setting reached by a short history, then every logging call *)
EXTENDS Xlog, Json
CONSTANTS MaxLen, Mins, Targets, Formats
VARIABLE hist
Cl == [d |-> 19000, s |-> 86399, us |-> 999999, thr |-> 123456]
Sets == {[op |-> "min", v |-> v] : v \in Mins} \cup {[op |-> "target", v |-> v] : v \in Targets}
        \cup {[op |-> "format", v |-> v] : v \in Formats} \cup {[op |-> "up", v |-> v] : v \in {0, 4}}
        \cup {[op |-> "cb", v |-> v] : v \in {0, 1}} \cup {[op |-> "tz", v |-> v] : v \in {-12, 13}}
        \cup {[op |-> "tag", tag |-> <<65>>], [op |-> "tag"], [op |-> "flush", v |-> 1]}
Logs == {[op |-> "print", lev |-> lv, style |-> 0, msg |-> m, tag |-> t, func |-> <<102>>, line |-> ln] : lv \in 0..6, m \in {<<>>, <<120, 121>>}, t \in {<<66, 67>>}, ln \in {0, 12}}
        \cup {[op |-> "print", lev |-> lv, style |-> 3, msg |-> <<122>>] : lv \in 1..5}
        \cup {[op |-> "hex", lev |-> lv, style |-> 0, data |-> d, tag |-> <<66>>] : lv \in {2, 5}, d \in {<<>>, <<0, 255>>}}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == /\ Len(hist) < MaxLen
          /\ \E e0 \in Sets \cup Logs : LET e == e0 @@ Cl IN Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist'])) 
View == <<c, con, xr, sr>>
====
