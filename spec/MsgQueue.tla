------------------------------ MODULE MsgQueue ------------------------------
(* msg_queue_*: whole messages behind a 4 byte header in a byte ring (C05). *)
EXTENDS Naturals, Sequences, TLC
VARIABLES cap, q, off, out
vars == <<cap, q, off, out>>
OK == 0   NULLH == 2   EMPTY == 4   FULL == 5   SMALL == 6
HDR == 4
PowDown(n) == CHOOSE p \in {2^k : k \in 0..30} : p <= n /\ 2 * p > n
RECURSIVE UsedBy(_)
UsedBy(s) == IF s = <<>> THEN 0 ELSE HDR + Len(s[1]) + UsedBy(Tail(s))
Obs(c, s) == [popb |-> UsedBy(s), pushb |-> c - UsedBy(s), next |-> IF s = <<>> THEN 0 ELSE Len(s[1])]
Ret(r, s) == [ret |-> r] @@ Obs(cap, s)
InitCfg(c) == cap = 0 /\ q = <<>> /\ off = 0 /\ out = [ok |-> FALSE]
(* ctl: size of the ring's control block inside the requested bytes *)
Create(e) == /\ cap = 0 /\ q' = <<>> /\ off' = 0
             /\ IF e.req < 8 \/ e.req < e.ctl + 4 THEN cap' = 0 /\ out' = [ok |-> FALSE]
                ELSE cap' = PowDown(e.req - e.ctl) /\ out' = [ok |-> TRUE] @@ Obs(cap', <<>>)
Push(e) == LET n == Len(e.data) IN
  /\ cap > 0 /\ UNCHANGED cap
  /\ IF n = 0 THEN UNCHANGED <<q, off>> /\ out' = Ret(NULLH, q)
     ELSE IF cap - UsedBy(q) < HDR + n THEN UNCHANGED <<q, off>> /\ out' = Ret(FULL, q)
     ELSE q' = Append(q, e.data) /\ off' = (off + HDR + n) % cap /\ out' = Ret(OK, q')
(* a message far larger than any queue *)
PushHuge(e) == cap > 0 /\ out' = Ret(FULL, q) /\ UNCHANGED <<cap, q, off>>
Pop(e) ==
  /\ cap > 0 /\ UNCHANGED <<cap, off>>
  /\ IF q = <<>> THEN q' = q /\ out' = Ret(EMPTY, q)
     ELSE IF Len(q[1]) > e.n THEN q' = q /\ out' = [size |-> Len(q[1]), clean |-> TRUE] @@ Ret(SMALL, q)
     ELSE q' = Tail(q) /\ out' = [got |-> q[1], size |-> Len(q[1]), clean |-> TRUE] @@ Ret(OK, q')
Clear(e) == cap > 0 /\ q' = <<>> /\ off' = 0 /\ out' = Obs(cap, <<>>) /\ UNCHANGED cap
(* calls with NULL arguments are refused and change nothing *)
Nulls(e) == /\ out' = [codes |-> [i \in 1..Len(e.codes) |-> NULLH], next0 |-> 0] /\ UNCHANGED <<cap, q, off>>
Destroy(e) == cap > 0 /\ cap' = 0 /\ q' = <<>> /\ off' = 0 /\ out' = [null |-> TRUE]
Do(e) == \/ e.op = "create" /\ Create(e)
         \/ e.op = "push" /\ Push(e)
         \/ e.op = "pushhuge" /\ PushHuge(e)
         \/ e.op = "pop" /\ Pop(e)
         \/ e.op = "clear" /\ Clear(e)
         \/ e.op = "nulls" /\ Nulls(e)
         \/ e.op = "destroy" /\ Destroy(e)
Inv == cap > 0 => UsedBy(q) <= cap
=============================================================================
