----------------------------- MODULE RingBuffer -----------------------------
(* RingBuffer_*: a byte FIFO with partial transfers (C01, basis of C02, C04-C08).
   q    the unread bytes, oldest first
   cap  the capacity (power of two)
   pos  ghost: position of the next write modulo the capacity; it does not
        influence any reply, it only makes the model distinguish wrap positions
        so that every wrap position is turned into an implementation test
   out  the reply of the last call: everything the caller can observe        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES cap, q, pos, out
vars == <<cap, q, pos, out>>

Min(a, b) == IF a < b THEN a ELSE b
Pow2(n) == n \in {2^k : k \in 0..30}
PowUp(n) == CHOOSE p \in {2^k : k \in 0..30} : p >= n /\ (p = 1 \/ p \div 2 < n)
PowDown(n) == CHOOSE p \in {2^k : k \in 0..30} : p <= n /\ 2 * p > n

Obs(c, s) == [ar |-> Len(s), aw |-> c - Len(s), empty |-> (s = <<>>), full |-> (Len(s) = c)]
Ret(r, s) == [ret |-> r] @@ Obs(cap, s)

InitCfg(c) == cap = 0 /\ q = <<>> /\ pos = 0 /\ out = [cap |-> 0]

(* creation; ctl is the size of the control block (observed).  Requests whose
   capacity would be below 4 bytes may be refused.                            *)
CreateOk(c) == cap' = c /\ q' = <<>> /\ pos' = 0 /\ out' = [cap |-> c] @@ Obs(c, <<>>)
CreateFail == cap' = 0 /\ q' = <<>> /\ pos' = 0 /\ out' = [cap |-> 0]
Create(e) ==
  /\ cap = 0
  /\ IF e.mode = "alloc"
       THEN \/ e.req >= 2 /\ CreateOk(PowUp(e.req))
            \/ e.req < 4 /\ CreateFail
       ELSE IF e.req < e.ctl + 4 THEN CreateFail ELSE CreateOk(PowDown(e.req - e.ctl))

Write(e) == LET n == Min(Len(e.data), cap - Len(q)) IN
  /\ cap > 0
  /\ q' = q \o SubSeq(e.data, 1, n)
  /\ pos' = (pos + n) % cap
  /\ out' = Ret(n, q')
  /\ UNCHANGED cap

Take(n) == SubSeq(q, 1, n)
Drop(n) == SubSeq(q, n + 1, Len(q))

Read(e) == LET n == Min(e.n, Len(q)) IN
  /\ cap > 0
  /\ q' = Drop(n)
  /\ out' = [got |-> Take(n), tail |-> TRUE] @@ Ret(n, q')
  /\ UNCHANGED <<cap, pos>>

Peek(e) == LET n == Min(e.n, Len(q)) IN
  /\ cap > 0
  /\ out' = [got |-> Take(n), tail |-> TRUE] @@ Ret(n, q)
  /\ UNCHANGED <<cap, pos, q>>

Discard(e) == LET n == Min(e.n, Len(q)) IN
  /\ cap > 0
  /\ q' = Drop(n)
  /\ out' = Ret(n, q')
  /\ UNCHANGED <<cap, pos>>

Clear(e) == cap > 0 /\ q' = <<>> /\ pos' = 0 /\ out' = Obs(cap, <<>>) /\ UNCHANGED cap

(* chunk bytes moved through the empty buffer, times times: nothing may differ *)
Stream(e) == cap > 0 /\ q = <<>> /\ e.chunk <= cap /\ out' = [bad |-> 0] @@ Obs(cap, <<>>) /\ UNCHANGED <<cap, q, pos>>

Do(e) == \/ e.op = "create" /\ Create(e)
         \/ e.op = "write" /\ Write(e)
         \/ e.op = "read" /\ Read(e)
         \/ e.op = "peek" /\ Peek(e)
         \/ e.op = "discard" /\ Discard(e)
         \/ e.op = "clear" /\ Clear(e)
         \/ e.op = "stream" /\ Stream(e)

(* ---- what C01 states, as invariants of the specification ---- *)
Accounting == cap > 0 => /\ Len(q) <= cap
                         /\ ("ar" \in DOMAIN out => out.ar + out.aw = cap /\ out.empty = (out.ar = 0) /\ out.full = (out.aw = 0))
CapPow2 == cap = 0 \/ Pow2(cap)
Inv == Accounting /\ CapPow2
=============================================================================
