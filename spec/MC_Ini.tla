---- MODULE MC_Ini ----
(* (a) every text over a small alphabet, parsed, listed and dumped; (b) short histories *)
EXTENDS Ini, Json
CONSTANTS TextLen_, MaxLen
VARIABLE hist
A == {97, 61, 91, 93, 59, 32, 10}
Raw == UNION {[1..n -> A] : n \in 0..TextLen_}
Head4 == <<91, 97, 93, 10>>
Texts == Raw \cup {Head4 \o t : t \in Raw}
Secs == {<<97>>, <<65>>, <<98>>}
Keys == {<<107>>, <<75>>, <<108>>}
Vals == {<<>>, <<49>>}
First == {[op |-> "create"]} \cup {[op |-> "parse", str |-> t] : t \in Texts} \cup {[op |-> "load", str |-> t] : t \in {u \in Texts : Len(u) > 4 /\ u[2] = 97}}
View2 == {[op |-> "each", stop |-> n] : n \in 0..2} \cup {[op |-> "dump"]}
Ops == View2 \cup {[op |-> "put", sec |-> s, key |-> k, val |-> v, failed |-> 0] : s \in Secs, k \in Keys, v \in Vals}
       \cup {[op |-> "put", sec |-> s, key |-> k, val |-> <<>>, failed |-> 1, r |-> r] : s \in {<<97>>}, k \in {<<107>>}, r \in {0, 1, 3}}
       \cup {[op |-> o, sec |-> s, key |-> k] : o \in {"delkey", "has", "getint"}, s \in Secs, k \in Keys}
       \cup {[op |-> "get", sec |-> s, key |-> k, size |-> n] : s \in {<<65>>, <<98>>}, k \in {<<107>>}, n \in 0..2}
       \cup {[op |-> o, sec |-> s] : o \in {"delsec", "hassec"}, s \in Secs}
       \cup {[op |-> "dumpmem", size |-> n, r |-> r] : n \in {3, 9, 200}, r \in {0, 1, 3}}
       \cup {[op |-> "save"]}
MCInit == InitCfg(0) /\ hist = <<>>
Text1 == hist # <<>> /\ hist[1].op # "create"
MCNext == /\ Len(hist) < (IF Text1 THEN 2 ELSE MaxLen)
          /\ \E e \in IF ~up THEN IF hist = <<>> THEN First ELSE {} ELSE IF Text1 THEN {[op |-> "each", stop |-> 0]} ELSE Ops :
               Do(e) /\ hist' = Append(hist, e)
Emit == IF up' /\ hist'[1].op # "create" /\ Len(hist') = 1 THEN TRUE ELSE PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<doc, made, IF hist = <<>> THEN 0 ELSE IF ~Text1 THEN Len(hist) ELSE 100 + Len(hist), IF Text1 THEN hist[1].str ELSE <<>>>>
(* writing and reading give the document back (sections without keys are not in the text form) *)
RoundTrip == up /\ CleanDoc(doc) => /\ ~Parse(Dump(doc)).err /\ Parse(Dump(doc)).doc = NonEmpty(doc)
                                    /\ Len(Dump(doc)) >= Sum(doc)
MCInv == Inv /\ RoundTrip
====
