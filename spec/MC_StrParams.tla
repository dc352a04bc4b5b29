---- MODULE MC_StrParams ----
(* (a) every text over a small alphabet, parsed and read back; (b) short histories *)
EXTENDS StrParams, Json
CONSTANTS TextLen_, MaxLen
VARIABLE hist
A == {97, 98, 61, 59}
Texts == UNION {[1..n -> A] : n \in 0..TextLen_}
Keys == {<<97>>, <<98>>, <<97, 98>>}
Vals == {<<>>, <<49>>, <<61, 50>>}
(* the text the model itself would print (any order) *)
RECURSIVE TextOf(_, _)
TextOf(f, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN
               k \o <<61>> \o f[k] \o (IF S = {k} THEN <<>> ELSE <<59>> \o TextOf(f, S \ {k}))
First == {[op |-> "create", delim |-> 59, failed |-> 0]} \cup {[op |-> "createstr", delim |-> 59, str |-> t, failed |-> 0] : t \in Texts}
Ops == {[op |-> "tostr", str |-> TextOf(m, DOMAIN m)]}
       \cup {[op |-> "add", key |-> k, val |-> v, failed |-> 0] : k \in Keys, v \in Vals}
       \cup {[op |-> "del", key |-> k] : k \in Keys}
       \cup {[op |-> o, key |-> k] : o \in {"has", "getlong", "getint", "getdouble"}, k \in Keys}
       \cup {[op |-> "getstr", key |-> k, size |-> n] : k \in Keys, n \in 0..3}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == /\ Len(hist) < (IF hist # <<>> /\ hist[1].op = "createstr" THEN IF Len(hist[1].str) > 3 THEN 2 ELSE 3 ELSE MaxLen)
          /\ \E e \in IF ~up THEN IF hist = <<>> THEN First ELSE {} ELSE Ops :
               /\ (hist # <<>> /\ hist[1].op = "createstr" => e.op \in {"tostr", "getstr"})
               /\ Do(e) /\ hist' = Append(hist, e)
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<m, IF hist = <<>> THEN 0 ELSE IF hist[1].op = "create" THEN Len(hist) ELSE 100 + Len(hist), IF hist = <<>> \/ hist[1].op = "create" THEN <<>> ELSE hist[1].str>>
(* printing and parsing give back the map *)
RoundTrip == up /\ Clean(m, d) => /\ Parse(TextOf(m, DOMAIN m), d) = m
                                  /\ Len(TextOf(m, DOMAIN m)) = TextLen(m)
MCInv == Inv /\ RoundTrip
====
