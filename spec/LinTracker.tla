----------------------------- MODULE LinTracker -----------------------------
(* the allocation tracker shared by threads (C26): b maps a live block (its address) to the
   bytes asked for.  A report names exactly the blocks live at one moment. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES b, out
lvars == <<b, out>>
LInit(c) == b = <<>> /\ out = [ok |-> TRUE]
Add(e) == e.p \notin DOMAIN b /\ b' = b @@ [i \in {e.p} |-> [req |-> e.n, exact |-> e.exact, org |-> e.org, line |-> e.line]] /\ out' = [ok |-> TRUE]
Del(e) == e.p \in DOMAIN b /\ b' = [i \in DOMAIN b \ {e.p} |-> b[i]] /\ out' = [ok |-> TRUE]
(* a resize that left the block where it is *)
Stay(e) == e.p \in DOMAIN b /\ UNCHANGED b /\ out' = [ok |-> TRUE]
RECURSIVE SumSz(_, _)
SumSz(s, i) == IF i = 0 THEN 0 ELSE s[i].sz + SumSz(s, i - 1)
Report(e) == /\ UNCHANGED b /\ out' = [total |-> SumSz(e.rep, Len(e.rep))]
             /\ Len(e.rep) = Cardinality(DOMAIN b) /\ {e.rep[i].p : i \in 1..Len(e.rep)} = DOMAIN b
             /\ \A i \in 1..Len(e.rep) : LET r == e.rep[i] x == b[r.p] IN
                  /\ IF x.exact THEN r.sz = x.req ELSE r.sz >= x.req
                  /\ r.org = x.org /\ r.line = x.line
LDo(e) == \/ e.op = "add" /\ Add(e)
          \/ e.op = "del" /\ Del(e)
          \/ e.op = "stay" /\ Stay(e)
          \/ e.op = "report" /\ Report(e)
LInv == TRUE
=============================================================================
