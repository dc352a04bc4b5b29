----------------------------- MODULE FileLogger -----------------------------
(* The file logger (C21): callers put text records into a bounded queue, one writer thread
   stores them, one line each, into a series of files; a new file is started once the current
   one has reached the size limit.  In best-effort mode a record that could not be queued goes
   to a companion file.  Several loggers may be alive at once and one after another in the same
   folder (h: prefix of the file names).

   A log call is recorded when it starts and when it returns; acceptance or refusal, and the
   writer's work, are silent steps.  Files are read when no logger is alive.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  lg,    \* h -> the logger: up, lim, cap, hdr, keep, bad, q, used, wr (being written), wsz, cur, files, closing
  old,   \* h -> files of finished sessions, a sequence of sequences of records
  lost,  \* h -> records in the companion file
  pend   \* thread -> the log call in progress
vars == <<lg, old, lost, pend>>
Hs == 0..1
Down == [up |-> FALSE, lim |-> 0, cap |-> 0, hdr |-> 0, keep |-> FALSE, bad |-> FALSE, q |-> <<>>, cur |-> <<>>, wsz |-> 0, files |-> <<>>, closing |-> FALSE]
InitCfg(c) == /\ lg = [h \in Hs |-> Down] /\ old = [h \in Hs |-> <<>>] /\ lost = [h \in Hs |-> <<>>] /\ pend = <<>>
(* a record is [id, len, txt]: len bytes are queued, the txt bytes before the first NUL are its text *)
Need(h, r) == lg[h].hdr + r.len
RECURSIVE Sum(_, _)
Sum(h, s) == IF s = <<>> THEN 0 ELSE Need(h, Head(s)) + Sum(h, Tail(s))
Used(h) == Sum(h, lg[h].q)
Room(h, r) == Used(h) + Need(h, r) <= lg[h].cap
(* limits below 64 bytes mean: no limit *)
Limit(n) == IF n < 64 THEN 0 ELSE n
Start(e) == /\ ~lg[e.h].up
            /\ IF e.ok THEN lg' = [lg EXCEPT ![e.h] = [Down EXCEPT !.up = TRUE, !.lim = Limit(e.lim), !.cap = e.cap, !.hdr = e.hdr, !.keep = e.keep, !.bad = e.fault]]
                       ELSE (e.fault \/ ~e.valid) /\ e.live = 0 /\ e.threads = 0 /\ UNCHANGED lg
            /\ e.valid \/ ~e.ok
            /\ UNCHANGED <<old, lost, pend>>
Call(e) == /\ lg[e.h].up /\ ~lg[e.h].closing /\ e.t \notin DOMAIN pend
           /\ pend' = pend @@ (e.t :> [h |-> e.h, r |-> [id |-> e.id, len |-> e.len, txt |-> e.txt], code |-> e.code, done |-> FALSE])
           /\ lg' = IF e.fault THEN [h \in Hs |-> [lg[h] EXCEPT !.bad = TRUE]] ELSE lg
           /\ UNCHANGED <<old, lost>>
(* the result of the call is known to the trace: it tells which of the two happened *)
Accept(t) == LET p == pend[t] IN
  /\ ~p.done /\ p.code = 0
  /\ lg' = [lg EXCEPT ![p.h].q = Append(@, p.r)] /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED <<old, lost>>
Refuse(t) == LET p == pend[t] IN
  /\ ~p.done /\ p.code # 0 /\ (~Room(p.h, p.r) \/ lg[p.h].bad)
  /\ lost' = IF lg[p.h].keep THEN [lost EXCEPT ![p.h] = Append(@, p.r.id)] ELSE lost
  /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED <<lg, old>>
Return(e) == e.t \in DOMAIN pend /\ pend[e.t].done /\ pend' = [x \in DOMAIN pend \ {e.t} |-> pend[x]] /\ UNCHANGED <<lg, old, lost>>
(* the writer stores the oldest queued record (records without any byte leave no trace) *)
Stored(g, r) == IF r.len = 0 THEN [g EXCEPT !.q = Tail(@)]
  ELSE LET sz == g.wsz + r.txt + 1 full == g.lim > 0 /\ sz >= g.lim IN
       [g EXCEPT !.q = Tail(@), !.cur = IF full THEN <<>> ELSE Append(@, r.id), !.wsz = IF full THEN 0 ELSE sz,
                 !.files = IF full THEN Append(@, Append(g.cur, r.id)) ELSE @]
Write(h) == lg[h].up /\ lg[h].q # <<>> /\ lg' = [lg EXCEPT ![h] = Stored(lg[h], Head(lg[h].q))] /\ UNCHANGED <<old, lost, pend>>
(* nothing moves any more: every accepted record has been taken care of *)
Quiet(e) == (\A h \in Hs : lg[h].up => lg[h].q = <<>> \/ lg[h].bad) /\ UNCHANGED vars
Stop(e) == /\ lg[e.h].up /\ ~lg[e.h].closing /\ (\A t \in DOMAIN pend : pend[t].h # e.h)
           /\ lg' = [lg EXCEPT ![e.h].closing = TRUE] /\ UNCHANGED <<old, lost, pend>>
Stopped(e) == LET g == lg[e.h] IN
  /\ g.closing /\ e.ret = 0 /\ e.null
  /\ old' = [old EXCEPT ![e.h] = @ \o g.files \o (IF g.cur = <<>> THEN <<>> ELSE <<g.cur>>)]
  /\ lg' = [lg EXCEPT ![e.h] = Down] /\ UNCHANGED <<lost, pend>>
Twice(e) == e.ret = -1 /\ UNCHANGED vars       \* there is nothing to stop
(* the files found: the same pieces, each once (the order of names is not part of the contract) *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Look(e) == /\ \A h \in Hs : ~lg[h].up
           /\ \A h \in Hs : Same(old[h], e.files[h + 1]) /\ e.lost[h + 1] = lost[h]
           /\ e.stray = 0 /\ e.live = 0 /\ e.threads = 0 /\ e.fds = 0 /\ e.held = 0 /\ UNCHANGED vars
Silent == (\E t \in DOMAIN pend : Accept(t) \/ Refuse(t)) \/ (\E h \in Hs : Write(h))
Do(e) == \/ e.op = "init" /\ Start(e)
         \/ e.op = "log" /\ Call(e)
         \/ e.op = "logret" /\ Return(e)
         \/ e.op = "quiet" /\ Quiet(e)
         \/ e.op = "deinit" /\ Stop(e)
         \/ e.op = "deinitret" /\ Stopped(e)
         \/ e.op = "again" /\ Twice(e)
         \/ e.op = "look" /\ Look(e)
Inv == \A h \in Hs : /\ lg[h].lim > 0 => lg[h].wsz < lg[h].lim
                     /\ \A i \in 1..Len(old[h]) : old[h][i] # <<>>
=============================================================================
