---- MODULE MC_StringBuilder ----
EXTENDS StringBuilder, Json
CONSTANTS MaxLen, Caps
VARIABLES hist, ctr
B(n) == [i \in 1..n |-> 97 + ((ctr + i) % 26)]
Lens == {0, 1, 2, 3, 5, 8}
F(x) == [op |-> "fmt", f |-> x, s |-> B(3), n |-> 100 + ctr, w |-> 2 + (ctr % 6), lit |-> <<>>, failed |-> 0]
Ops == {[op |-> "clear"], [op |-> "destroy"], [op |-> "fmtbad", failed |-> 0], [op |-> "null", which |-> ctr % 4]}
       \cup (IF Len(txt) >= MaxLen THEN {} ELSE
         {[op |-> "char", c |-> 97 + (ctr % 26), failed |-> 0]}
         \cup {[op |-> "str", s |-> B(n), failed |-> 0] : n \in Lens}
         \cup {[op |-> "nstr", s |-> B(n), max |-> k, failed |-> 0] : n \in {0, 2, 4}, k \in {-1, 1, 2, 3, 4, 5}}
         \cup {F(x) : x \in {"%s", "%d", "%s=%d;", "%*s|", "%-*s|", "%.*s", "%0*d", "%s%s", ""}})
Creates == {[op |-> "create", cap |-> c, fail |-> 0] : c \in Caps} \cup {[op |-> "create", cap |-> 4, fail |-> n] : n \in {1, 2}}
MCInit == InitCfg(0) /\ hist = <<>> /\ ctr = 0
MCNext == \E e \in IF ~up THEN IF hist = <<>> THEN Creates ELSE {} ELSE Ops :
            Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out']) /\ ctr' = ctr + 3
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<up, Len(txt), IF hist = <<>> THEN 0 ELSE hist[1].i.cap>>
AppendOnly == [][up /\ up' => txt' = <<>> \/ (Len(txt') >= Len(txt) /\ SubSeq(txt', 1, Len(txt)) = txt)]_<<up, txt>>
====
