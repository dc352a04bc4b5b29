-------------------------------- MODULE Array --------------------------------
(* array_*: a growable vector of elements of es bytes (C15). *)
EXTENDS Integers, Sequences, TLC
VARIABLES up, es, a, out
vars == <<up, es, a, out>>
InitCfg(c) == up = FALSE /\ es = 0 /\ a = <<>> /\ out = [ok |-> TRUE]
Obs(x) == [len |-> Len(x), items |-> x, contig |-> TRUE]
Create(e) == /\ ~up /\ IF e.fail # 0 THEN UNCHANGED <<up, es, a>> /\ out' = [ok |-> FALSE]
                       ELSE up' = TRUE /\ es' = e.es /\ a' = <<>> /\ out' = [ok |-> TRUE] @@ Obs(<<>>)
(* with failed > 0 an allocation failed during the call: the append may be refused, changing nothing *)
Push(e, v) == /\ UNCHANGED <<up, es>>
              /\ \/ a' = Append(a, v) /\ out' = [ret |-> TRUE] @@ Obs(a')
                 \/ e.failed > 0 /\ a' = a /\ out' = [ret |-> FALSE] @@ Obs(a)
AppendPtr(e) == Len(e.data) = es /\ Push(e, e.data)
(* many appends in a row *)
Fill(e) == /\ UNCHANGED <<up, es>> /\ a' = a \o [i \in 1..e.n |-> [k \in 1..es |-> ((i - 1) + (k - 1) * 3 + ((i - 1) \div 256)) % 256]]
           /\ out' = [ret |-> TRUE] @@ Obs(a')
(* a 32-bit value, given by its bytes in memory order: the lowest es bytes are stored (little endian) *)
AppendValue(e) == es <= 4 /\ Push(e, SubSeq(e.data, 1, es))
(* at 0-based index i: the element; outside the length the debug check stops the program (observed in a child) *)
At(e) == /\ UNCHANGED <<up, es, a>>
         /\ out' = IF e.i < Len(a) THEN [died |-> FALSE, got |-> a[e.i + 1]] @@ Obs(a) ELSE [died |-> TRUE] @@ Obs(a)
Set(e) == /\ UNCHANGED <<up, es>> /\ e.i < Len(a) /\ Len(e.data) = es
          /\ a' = [a EXCEPT ![e.i + 1] = e.data] /\ out' = Obs(a')
Free(e) == up' = FALSE /\ es' = 0 /\ a' = <<>> /\ out' = [ok |-> TRUE]
Do(e) == IF e.op = "create" THEN Create(e)
         ELSE /\ up
              /\ \/ e.op = "append" /\ AppendPtr(e)
                 \/ e.op = "value" /\ AppendValue(e)
                 \/ e.op = "fill" /\ Fill(e)
                 \/ e.op = "at" /\ At(e)
                 \/ e.op = "set" /\ Set(e)
                 \/ e.op = "free" /\ Free(e)
Inv == \A i \in 1..Len(a) : Len(a[i]) = es
=============================================================================
