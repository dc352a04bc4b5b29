------------------------------ MODULE AutoCover ------------------------------
(* auto_cover_buf_*: a stream whose newest bytes are retained (C04).
   keep: the retained bytes, oldest first, ending at the write end.
   Positions are given relative to the write end (back = end - position), so the
   32-bit counters of the implementation do not appear here. *)
EXTENDS Integers, Sequences, TLC
VARIABLES cap, keep, off, out
vars == <<cap, keep, off, out>>
COVERED == -3
NOTENOUGH == -4
Min(a, b) == IF a < b THEN a ELSE b
PowUp(n) == CHOOSE p \in {2^k : k \in 0..30} : p >= n /\ (p = 1 \/ p \div 2 < n)
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
InitCfg(c) == cap = 0 /\ keep = <<>> /\ off = 0 /\ out = [ok |-> FALSE]
(* tiny requests may be refused *)
Create(e) == /\ cap = 0 /\ keep' = <<>> /\ off' = 0
             /\ \/ e.req >= 2 /\ cap' = PowUp(e.req) /\ out' = [ok |-> TRUE]
                \/ e.req < 4 /\ cap' = 0 /\ out' = [ok |-> FALSE]
Write(e) == LET s == keep \o e.data IN
  /\ cap > 0 /\ Len(e.data) <= cap
  /\ keep' = Last(s, Min(Len(s), cap)) /\ off' = (off + Len(e.data)) % cap
  /\ out' = [ret |-> Len(e.data)] /\ UNCHANGED cap
Read(e) ==
  /\ cap > 0 /\ UNCHANGED <<cap, off>>
  /\ IF e.back >= 0 /\ e.back <= Len(keep) /\ e.n <= e.back
       THEN keep' = Last(keep, e.back - e.n) /\ out' = [ret |-> e.n, got |-> SubSeq(Last(keep, e.back), 1, e.n), clean |-> TRUE]
       ELSE /\ UNCHANGED keep
            /\ IF e.back < 0 THEN \E r \in {COVERED, NOTENOUGH} : out' = [ret |-> r, got |-> <<>>, clean |-> TRUE]
               ELSE out' = [ret |-> IF e.back > Len(keep) THEN COVERED ELSE NOTENOUGH, got |-> <<>>, clean |-> TRUE]
Avail(e) ==
  /\ cap > 0 /\ UNCHANGED <<cap, off, keep>>
  /\ IF e.back < 0 THEN \E r \in {COVERED, 0} : out' = [ret |-> r]
     ELSE out' = [ret |-> IF e.back > Len(keep) THEN COVERED ELSE e.back]
(* chunk*times bytes appended; the driver compares nothing but the return values *)
Stream(e) == /\ cap > 0 /\ e.chunk = cap /\ keep' = e.last /\ Len(e.last) = cap /\ out' = [bad |-> 0] /\ UNCHANGED <<cap, off>>
Do(e) == \/ e.op = "create" /\ Create(e)
         \/ e.op = "write" /\ Write(e)
         \/ e.op = "read" /\ Read(e)
         \/ e.op = "avail" /\ Avail(e)
         \/ e.op = "stream" /\ Stream(e)
Inv == Len(keep) <= cap
=============================================================================
