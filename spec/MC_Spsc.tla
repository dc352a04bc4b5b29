---- MODULE MC_Spsc ----
EXTENDS Spsc
CONSTANTS Kind, Caps, NP, NC, Sizes
VARIABLES np, nc, sent, got, ctr
mv == <<vars, np, nc, sent, got, ctr>>
MCInit == InitCfg([kind |-> Kind]) /\ np = 0 /\ nc = 0 /\ sent = <<>> /\ got = <<>> /\ ctr = 0
D(n) == [i \in 1..n |-> ctr + i]
PEvents == {[op |-> IF Kind = "ring" THEN "write" ELSE "push", s |-> "p", d |-> D(n)] : n \in Sizes}
CEvents == CASE Kind = "ring" -> {[op |-> o, s |-> "c", n |-> n] : o \in {"read", "peek", "discard"}, n \in Sizes}
             [] Kind = "msg" -> {[op |-> "pop", s |-> "c", n |-> n] : n \in Sizes} \cup {[op |-> "next", s |-> "c"]}
             [] OTHER -> {[op |-> "pop", s |-> "c", n |-> 1]}
QEvents(s) == {[op |-> o, s |-> s] : o \in Queries}
FlatD(c) == IF "d" \in DOMAIN c THEN c.d ELSE <<>>
RetP == /\ pc.st = "done" /\ pc' = No /\ UNCHANGED <<kind, cap, W, R, items, cc, np, nc, got>>
        /\ LET acc == IF pc.e.op \notin {"write", "push"} THEN <<>>
                      ELSE IF kind = "ring" THEN SubSeq(pc.e.d, 1, pc.r)
                      ELSE IF pc.r = Code(TRUE) THEN pc.e.d ELSE <<>>
           IN sent' = sent \o acc /\ ctr' = ctr + Len(acc)
RetC == /\ cc.st = "done" /\ cc' = No /\ UNCHANGED <<kind, cap, W, R, items, pc, np, nc, sent, ctr>>
        /\ got' = got \o (IF cc.e.op \in {"read", "pop", "discard"} THEN FlatD(cc) ELSE <<>>)
MCNext == \/ \E c \in Caps : Setup([cap |-> c]) /\ UNCHANGED <<np, nc, sent, got, ctr>>
          \/ np < NP /\ np' = np + 1 /\ UNCHANGED <<nc, sent, got, ctr>> /\ \E e \in PEvents \cup QEvents("p") : Call(e)
          \/ nc < NC /\ nc' = nc + 1 /\ UNCHANGED <<np, sent, got, ctr>> /\ \E e \in CEvents \cup QEvents("c") : Call(e)
          \/ Silent /\ UNCHANGED <<np, nc, sent, got, ctr>>
          \/ RetP \/ RetC
(* the consumer gets the producer's data, in order, complete: what it has got followed by what
   is still stored is what the producer sent (plus a push whose return is still pending)         *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE (IF kind = "ring" THEN <<s[1].d>> ELSE s[1].d) \o Flat(Tail(s))
Stored == LET held == IF cc.st = "done" /\ cc.e.op \in {"read", "pop", "discard"} THEN FlatD(cc) ELSE <<>> IN held \o Flat(items)
Pend == IF pc.st = "done" /\ pc.e.op \in {"write", "push"}
          THEN (IF kind = "ring" THEN SubSeq(pc.e.d, 1, pc.r) ELSE IF pc.r = Code(TRUE) THEN pc.e.d ELSE <<>>) ELSE <<>>
Conserved == got \o Stored = sent \o Pend
====
