------------------------------- MODULE Spsc -------------------------------
(* One producer ("p") and one consumer ("c") on a lock-free ring: RingBuffer (kind
   "ring", items are bytes), msg_queue ("msg", items are messages behind a 4 byte
   header) and fixed_msg_queue ("fixed", items are records).  C02.
   W and R are the published and the released positions in units (bytes / records);
   every call takes effect at the silent steps between its call and its return.    *)
EXTENDS Integers, Sequences, TLC
VARIABLES kind, cap,
  W, R,     \* units published by the producer / released by the consumer so far
  items,    \* items published but not yet taken, oldest first: [d, e] (e: position after the item)
  pc, cc    \* the producer's and the consumer's call: [st |-> "no"] or [st, op, ...]
vars == <<kind, cap, W, R, items, pc, cc>>
HDR == 4
No == [st |-> "no"]
Min(a, b) == IF a < b THEN a ELSE b
Avail == W - R
Free == cap - Avail

InitCfg(c) == kind = c.kind /\ cap = -1 /\ W = 0 /\ R = 0 /\ items = <<>> /\ pc = No /\ cc = No
Setup(e) == cap = -1 /\ cap' = e.cap /\ UNCHANGED <<kind, W, R, items, pc, cc>>

Queries == {"ar", "aw", "empty", "full"}
ProdOps == IF kind = "ring" THEN {"write"} \cup Queries ELSE {"push"} \cup Queries
ConsOps == Queries \cup (IF kind = "ring" THEN {"read", "peek", "discard"} ELSE IF kind = "msg" THEN {"pop", "next"} ELSE {"pop"})
Call(e) == /\ cap >= 0
           /\ \/ e.s = "p" /\ pc = No /\ e.op \in ProdOps /\ pc' = [st |-> "in", e |-> e] /\ UNCHANGED cc
              \/ e.s = "c" /\ cc = No /\ e.op \in ConsOps /\ cc' = [st |-> "in", e |-> e] /\ UNCHANGED pc
           /\ UNCHANGED <<kind, cap, W, R, items>>

(* ------------------------------------------------------------- the producer *)
Need(e) == CASE kind = "ring" -> Min(Len(e.d), Free) [] kind = "msg" -> HDR + Len(e.d) [] OTHER -> 1
Code(ok) == IF kind = "msg" THEN (IF ok THEN 0 ELSE 5) ELSE (IF ok THEN 1 ELSE 0)
(* look at the free space *)
PSample == /\ pc.st = "in" /\ pc.e.op \in {"write", "push"}
           /\ pc' = IF kind = "ring" THEN [pc EXCEPT !.st = "go"] @@ [n |-> Need(pc.e)]
                    ELSE IF Need(pc.e) <= Free THEN [pc EXCEPT !.st = "go"] @@ [n |-> Need(pc.e)]
                    ELSE [pc EXCEPT !.st = "done"] @@ [r |-> Code(FALSE)]
           /\ UNCHANGED <<kind, cap, W, R, items, cc>>
(* a message's header may become visible first *)
PHeader == /\ kind = "msg" /\ pc.st = "go" /\ pc.n = HDR + Len(pc.e.d)
           /\ W' = W + HDR /\ pc' = [pc EXCEPT !.n = Len(pc.e.d)]
           /\ UNCHANGED <<kind, cap, R, items, cc>>
PPublish == /\ pc.st = "go" /\ W' = W + pc.n
            /\ items' = CASE kind = "ring" -> items \o [i \in 1..pc.n |-> [d |-> pc.e.d[i], e |-> W + i]]
                          [] OTHER -> Append(items, [d |-> pc.e.d, e |-> W + pc.n])
            /\ pc' = [st |-> "done", e |-> pc.e, r |-> IF kind = "ring" THEN pc.n ELSE Code(TRUE)]
            /\ UNCHANGED <<kind, cap, R, cc>>

(* ------------------------------------------------------------- the consumer *)
CSample ==
  /\ cc.st = "in" /\ cc.e.op \in {"read", "peek", "discard", "pop", "next"}
  /\ LET e == cc.e IN
     CASE kind = "ring" ->
            LET n == Min(e.n, Avail) IN
            cc' = [st |-> IF e.op = "peek" \/ n = 0 THEN "done" ELSE "rel", e |-> e, to |-> R + n, r |-> n,
                   d |-> [i \in 1..n |-> items[i].d]]
       [] kind = "fixed" ->
            cc' = IF items = <<>> THEN [st |-> "done", e |-> e, r |-> 0, d |-> <<>>]
                  ELSE [st |-> "rel", e |-> e, to |-> items[1].e, r |-> 1, d |-> items[1].d]
       [] e.op = "next" ->
            cc' = [st |-> "done", e |-> e, r |-> IF items = <<>> THEN 0 ELSE Len(items[1].d)]
       [] OTHER ->
            cc' = IF items = <<>>
                    THEN [st |-> "done", e |-> e, rs |-> {3, 4}, sz |-> e.n, d |-> <<>>]
                  ELSE IF Len(items[1].d) > e.n
                    THEN [st |-> "done", e |-> e, rs |-> {6}, sz |-> Len(items[1].d), d |-> <<>>]
                  ELSE [st |-> "rel", e |-> e, to |-> items[1].e, rs |-> {0}, sz |-> Len(items[1].d), d |-> items[1].d]
  /\ UNCHANGED <<kind, cap, W, R, items, pc>>
CHeader == /\ kind = "msg" /\ cc.st = "rel" /\ cc.to - R = HDR + Len(items[1].d)
           /\ R' = R + HDR /\ UNCHANGED <<kind, cap, W, items, pc, cc>>
CRelease == /\ cc.st = "rel" /\ R' = cc.to
            /\ items' = SelectSeq(items, LAMBDA x : x.e > cc.to)
            /\ cc' = [cc EXCEPT !.st = "done"]
            /\ UNCHANGED <<kind, cap, W, pc>>

(* ------------------------------------------------------------------ queries *)
Answer(o) == CASE o = "ar" -> Avail [] o = "aw" -> Free
               [] o = "empty" -> (IF Avail = 0 THEN 1 ELSE 0) [] o = "full" -> (IF Free = 0 THEN 1 ELSE 0)
PQuery == /\ pc.st = "in" /\ pc.e.op \in Queries /\ pc' = [pc EXCEPT !.st = "done"] @@ [r |-> Answer(pc.e.op)]
          /\ UNCHANGED <<kind, cap, W, R, items, cc>>
CQuery == /\ cc.st = "in" /\ cc.e.op \in Queries /\ cc' = [cc EXCEPT !.st = "done"] @@ [r |-> Answer(cc.e.op)]
          /\ UNCHANGED <<kind, cap, W, R, items, pc>>

Agrees(c, e) == /\ IF "rs" \in DOMAIN c THEN e.r \in c.rs /\ e.sz = c.sz ELSE e.r = c.r
                /\ ("d" \in DOMAIN c /\ c.e.op # "discard" => e.d = c.d /\ e.tail = 1)
Ret(e) == \/ e.s = "p" /\ pc.st = "done" /\ Agrees(pc, e) /\ pc' = No /\ UNCHANGED <<kind, cap, W, R, items, cc>>
          \/ e.s = "c" /\ cc.st = "done" /\ Agrees(cc, e) /\ cc' = No /\ UNCHANGED <<kind, cap, W, R, items, pc>>
Quiet(e) == pc = No /\ cc = No /\ UNCHANGED vars
(* at the end the consumer has drained the queue *)
End(e) == pc = No /\ cc = No /\ Avail = 0 /\ e.live = 0 /\ UNCHANGED vars

Do(e) == \/ e.op = "init" /\ Setup(e)
         \/ e.op \in {"write", "push", "read", "peek", "discard", "pop", "next"} \cup Queries /\ Call(e)
         \/ e.op = "ret" /\ Ret(e)
         \/ e.op = "quiet" /\ Quiet(e)
         \/ e.op = "end" /\ End(e)
Silent == PSample \/ PHeader \/ PPublish \/ CSample \/ CHeader \/ CRelease \/ PQuery \/ CQuery

(* the two positions never cross and never leave the buffer *)
Inv == cap >= 0 => 0 <= Avail /\ Avail <= cap
=============================================================================
