----------------------------- MODULE FixedQueue -----------------------------
(* fixed_msg_queue_*: a bounded FIFO of equal-sized records (C06). *)
EXTENDS Integers, Sequences, TLC
VARIABLES rec, max, room, q, phase, out
vars == <<rec, max, room, q, phase, out>>
PowDown(n) == CHOOSE p \in {2^k : k \in 0..30} : p <= n /\ 2 * p > n
Obs(r, s) == [popn |-> Len(s), pushn |-> r - Len(s), empty |-> (s = <<>>), full |-> (Len(s) = r)]
InitCfg(c) == rec = 0 /\ max = 0 /\ room = 0 /\ q = <<>> /\ phase = 0 /\ out = [ok |-> FALSE]
(* room: how many records fit; never more than asked for.  The control block (ctl
   bytes) is taken out of the requested bytes and the rest rounded down to a power
   of two, so it may be less; an implementation that offers more of the requested
   capacity is fine too. *)
Create(e) ==
  /\ rec = 0 /\ q' = <<>> /\ phase' = 0
  /\ IF e.rec < 1 \/ e.max < 1 \/ (e.rec * e.max < e.ctl + 4 /\ ~e.ok)
       THEN rec' = 0 /\ max' = 0 /\ room' = 0 /\ out' = [ok |-> FALSE]
       ELSE /\ rec' = e.rec /\ max' = e.max
            /\ room' = e.pushn /\ e.pushn <= e.max
            /\ (e.rec * e.max >= e.ctl + 4 => e.pushn >= PowDown(e.rec * e.max - e.ctl) \div e.rec)
            /\ out' = [ok |-> TRUE] @@ Obs(e.pushn, <<>>)
Push(e) == /\ rec > 0 /\ Len(e.data) = rec /\ UNCHANGED <<rec, max, room>>
           /\ IF Len(q) < room THEN q' = Append(q, e.data) /\ phase' = (phase + 1) % 4 /\ out' = [ret |-> TRUE] @@ Obs(room, q')
                               ELSE UNCHANGED <<q, phase>> /\ out' = [ret |-> FALSE] @@ Obs(room, q)
Pop(e) == /\ rec > 0 /\ UNCHANGED <<rec, max, room, phase>>
          /\ IF q # <<>> THEN q' = Tail(q) /\ out' = [ret |-> TRUE, got |-> q[1]] @@ Obs(room, q')
                         ELSE q' = q /\ out' = [ret |-> FALSE, clean |-> TRUE] @@ Obs(room, q)
(* many calls in a row; records are all bytes (from + i) % 251 *)
Min(a, b) == IF a < b THEN a ELSE b
Fill(e) == LET k == Min(e.n, room - Len(q)) IN
  /\ rec > 0 /\ UNCHANGED <<rec, max, room>> /\ phase' = (phase + k) % 4
  /\ q' = q \o [i \in 1..k |-> [b \in 1..rec |-> (e.from + i - 1) % 251]] /\ out' = [took |-> k] @@ Obs(room, q')
Num(r) == IF \A i \in 1..Len(r) : r[i] = r[1] THEN r[1] ELSE -1
Drain(e) == LET k == Min(e.n, Len(q)) IN
  /\ rec > 0 /\ UNCHANGED <<rec, max, room, phase>>
  /\ q' = SubSeq(q, k + 1, Len(q)) /\ out' = [nums |-> [i \in 1..k |-> Num(q[i])]] @@ Obs(room, q')
PopNull(e) == rec > 0 /\ UNCHANGED <<rec, max, room, q, phase>> /\ out' = [ret |-> FALSE] @@ Obs(room, q)
Clear(e) == rec > 0 /\ q' = <<>> /\ phase' = 0 /\ UNCHANGED <<rec, max, room>> /\ out' = Obs(room, <<>>)
Destroy(e) == rec > 0 /\ rec' = 0 /\ max' = 0 /\ room' = 0 /\ q' = <<>> /\ phase' = 0 /\ out' = [null |-> TRUE]
Do(e) == \/ e.op = "create" /\ Create(e)
         \/ e.op = "push" /\ Push(e)
         \/ e.op = "pop" /\ Pop(e)
         \/ e.op = "fill" /\ Fill(e)
         \/ e.op = "drain" /\ Drain(e)
         \/ e.op = "popnull" /\ PopNull(e)
         \/ e.op = "clear" /\ Clear(e)
         \/ e.op = "destroy" /\ Destroy(e)
Inv == Len(q) <= room /\ room <= max
=============================================================================
