------------------------------- MODULE RingBuf -------------------------------
(* ring_buf_*: an all-or-nothing byte FIFO (C03).  One slot is kept free, so a
   buffer of size s stores s-1 bytes.  off is a ghost (write offset) that makes
   the model distinguish the wrap positions. *)
EXTENDS Naturals, Sequences, TLC
VARIABLES size, q, off, out
vars == <<size, q, off, out>>
Room(s, x) == s - 1 - Len(x)
Obs(s, x) == [ar |-> Len(x), aw |-> Room(s, x)]
Ret(r, x) == [ret |-> r] @@ Obs(size, x)
InitCfg(c) == size = 0 /\ q = <<>> /\ off = 0 /\ out = [ok |-> FALSE]

(* sizes below 3 bytes are refused; ctl = size of the control block in caller memory *)
Create(e) == LET s == IF e.mode = "alloc" THEN e.req ELSE IF e.req < e.ctl THEN 0 ELSE e.req - e.ctl IN
  /\ size = 0 /\ q' = <<>> /\ off' = 0
  /\ IF s >= 3 THEN size' = s /\ out' = [ok |-> TRUE] @@ Obs(s, <<>>) ELSE size' = 0 /\ out' = [ok |-> FALSE]
Write(e) == LET n == Len(e.data) IN
  /\ size > 0
  /\ IF n > 0 /\ n <= Room(size, q)
       THEN q' = q \o e.data /\ off' = (off + n) % size /\ out' = Ret(n, q')
       ELSE UNCHANGED <<q, off>> /\ out' = Ret(0, q)
  /\ UNCHANGED size
Fits(n) == n > 0 /\ n <= Len(q)
Read(e) == /\ size > 0 /\ UNCHANGED <<size, off>>
           /\ IF Fits(e.n) THEN q' = SubSeq(q, e.n + 1, Len(q)) /\ out' = [got |-> SubSeq(q, 1, e.n), clean |-> TRUE] @@ Ret(e.n, q')
                           ELSE q' = q /\ out' = [got |-> <<>>, clean |-> TRUE] @@ Ret(0, q)
Peek(e) == /\ size > 0 /\ UNCHANGED <<size, off, q>>
           /\ out' = IF Fits(e.n) THEN [got |-> SubSeq(q, 1, e.n), clean |-> TRUE] @@ Ret(e.n, q) ELSE [got |-> <<>>, clean |-> TRUE] @@ Ret(0, q)
Discard(e) == /\ size > 0 /\ UNCHANGED <<size, off>>
              /\ IF Fits(e.n) THEN q' = SubSeq(q, e.n + 1, Len(q)) /\ out' = Ret(e.n, q') ELSE q' = q /\ out' = Ret(0, q)
Clear(e) == size > 0 /\ q' = <<>> /\ off' = 0 /\ out' = Obs(size, <<>>) /\ UNCHANGED size
(* destroying resets the handle; the buffer can then be created anew *)
Destroy(e) == size > 0 /\ size' = 0 /\ q' = <<>> /\ off' = 0 /\ out' = [null |-> TRUE]
Do(e) == \/ e.op = "create" /\ Create(e)
         \/ e.op = "write" /\ Write(e)
         \/ e.op = "read" /\ Read(e)
         \/ e.op = "peek" /\ Peek(e)
         \/ e.op = "discard" /\ Discard(e)
         \/ e.op = "clear" /\ Clear(e)
         \/ e.op = "destroy" /\ Destroy(e)
Inv == size > 0 => Len(q) <= size - 1 /\ ("ar" \in DOMAIN out => out.ar + out.aw = size - 1)
=============================================================================
