----------------------------- MODULE PortThread -----------------------------
(* Portable threads, mutexes, read-write locks and semaphores (C28).
   Threads are numbered programs (0 = main); mx, rw, sm are tables of objects by slot.
   A call is recorded when it starts and when it returns; its effect is one silent step in
   between, possible only when the POSIX meaning of the operation lets it proceed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mx, rw, sm, th, pend, tids, out
vars == <<mx, rw, sm, th, pend, tids, out>>
NOOWNER == -1
NoMx == [up |-> FALSE, ty |-> "normal", own |-> NOOWNER, dep |-> 0]
NoRw == [up |-> FALSE, wr |-> NOOWNER, rd |-> <<>>]
NoSm == [up |-> FALSE, n |-> 0]
NoTh == [st |-> "none", arg |-> 0, res |-> 0, name |-> <<>>]
Slots == 0..3
InitCfg(c) == /\ mx = [i \in Slots |-> NoMx] /\ rw = [i \in Slots |-> NoRw] /\ sm = [i \in Slots |-> NoSm]
              /\ th = [i \in 0..7 |-> IF i = 0 THEN [NoTh EXCEPT !.st = "running"] ELSE NoTh]
              /\ pend = <<>> /\ tids = <<>> /\ out = [ret |-> 0]
EDEADLK == 35
EBUSY == 16
EPERM == 1
EAGAIN == 11
Count(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Bump(f, x, d) == [i \in {j \in DOMAIN f \cup {x} : Count(f, j) + (IF j = x THEN d ELSE 0) > 0} |-> Count(f, i) + (IF i = x THEN d ELSE 0)]
KeepAll == UNCHANGED <<mx, rw, sm, th, tids>>
Ret(r) == out' = [ret |-> r]
(* creation: bad pointer -1, no memory -2, refused by the platform: its error; nothing exists then *)
Fails(e) == e.fault # "" /\ KeepAll /\ out' = [ret |-> IF e.fault = "mem" THEN -2 ELSE IF e.op = "sinit" THEN -1 ELSE EAGAIN, null |-> TRUE]
MInit(e) == \/ e.fault = "" /\ mx' = [mx EXCEPT ![e.s] = [NoMx EXCEPT !.up = TRUE, !.ty = e.ty]] /\ UNCHANGED <<rw, sm, th, tids>> /\ out' = [ret |-> 0, null |-> FALSE]
            \/ Fails(e)
RInit(e) == \/ e.fault = "" /\ rw' = [rw EXCEPT ![e.s] = [NoRw EXCEPT !.up = TRUE]] /\ UNCHANGED <<mx, sm, th, tids>> /\ out' = [ret |-> 0, null |-> FALSE]
            \/ Fails(e)
SInit(e) == \/ e.fault = "" /\ sm' = [sm EXCEPT ![e.s] = [up |-> TRUE, n |-> e.n]] /\ UNCHANGED <<mx, rw, th, tids>> /\ out' = [ret |-> 0, null |-> FALSE]
            \/ Fails(e)
(* an object that does not exist: -1 *)
Missing == KeepAll /\ Ret(-1)
Lock(t, e) == LET m == mx[e.s] IN
  IF ~m.up THEN Missing
  ELSE IF m.own = t /\ m.ty = "error" THEN KeepAll /\ Ret(EDEADLK)
  ELSE /\ m.own = NOOWNER \/ (m.own = t /\ m.ty = "recursive")
       /\ mx' = [mx EXCEPT ![e.s].own = t, ![e.s].dep = @ + 1] /\ UNCHANGED <<rw, sm, th, tids>> /\ Ret(0)
Unlock(t, e) == LET m == mx[e.s] IN
  IF ~m.up THEN Missing
  ELSE IF m.own # t THEN m.ty # "normal" /\ KeepAll /\ Ret(EPERM)
  ELSE mx' = [mx EXCEPT ![e.s].dep = @ - 1, ![e.s].own = IF m.dep = 1 THEN NOOWNER ELSE @] /\ UNCHANGED <<rw, sm, th, tids>> /\ Ret(0)
MDestroy(t, e) == IF ~mx[e.s].up THEN Missing
  ELSE IF mx[e.s].own # NOOWNER THEN KeepAll /\ out' = [ret |-> EBUSY, null |-> FALSE]   \* refused, and still usable
  ELSE mx' = [mx EXCEPT ![e.s] = NoMx] /\ UNCHANGED <<rw, sm, th, tids>> /\ out' = [ret |-> 0, null |-> TRUE]
RdLock(t, e) == IF ~rw[e.s].up THEN Missing
  ELSE rw[e.s].wr = NOOWNER /\ rw' = [rw EXCEPT ![e.s].rd = Bump(@, t, 1)] /\ UNCHANGED <<mx, sm, th, tids>> /\ Ret(0)
WrLock(t, e) == IF ~rw[e.s].up THEN Missing
  ELSE rw[e.s].wr = NOOWNER /\ rw[e.s].rd = <<>> /\ rw' = [rw EXCEPT ![e.s].wr = t] /\ UNCHANGED <<mx, sm, th, tids>> /\ Ret(0)
RwUnlock(t, e) == IF ~rw[e.s].up THEN Missing
  ELSE \/ rw[e.s].wr = t /\ rw' = [rw EXCEPT ![e.s].wr = NOOWNER] /\ UNCHANGED <<mx, sm, th, tids>> /\ Ret(0)
       \/ t \in DOMAIN rw[e.s].rd /\ rw' = [rw EXCEPT ![e.s].rd = Bump(@, t, -1)] /\ UNCHANGED <<mx, sm, th, tids>> /\ Ret(0)
RDestroy(t, e) == IF ~rw[e.s].up THEN Missing
  ELSE rw[e.s].wr = NOOWNER /\ rw[e.s].rd = <<>> /\ rw' = [rw EXCEPT ![e.s] = NoRw] /\ UNCHANGED <<mx, sm, th, tids>> /\ out' = [ret |-> 0, null |-> TRUE]
Wait(t, e) == IF ~sm[e.s].up THEN Missing ELSE sm[e.s].n > 0 /\ sm' = [sm EXCEPT ![e.s].n = @ - 1] /\ UNCHANGED <<mx, rw, th, tids>> /\ Ret(0)
Post(t, e) == IF ~sm[e.s].up THEN Missing ELSE sm' = [sm EXCEPT ![e.s].n = @ + 1] /\ UNCHANGED <<mx, rw, th, tids>> /\ Ret(0)
Value(t, e) == KeepAll /\ IF ~sm[e.s].up THEN Ret(-1) ELSE out' = [ret |-> 0, val |-> sm[e.s].n]
SDestroy(t, e) == IF ~sm[e.s].up THEN Missing ELSE sm' = [sm EXCEPT ![e.s] = NoSm] /\ UNCHANGED <<mx, rw, th, tids>> /\ out' = [ret |-> 0, null |-> TRUE]
(* threads: e.j is the program to run *)
Create(t, e) ==
  \/ e.fault = "" /\ th[e.j].st = "none" /\ th' = [th EXCEPT ![e.j] = [st |-> "created", arg |-> e.arg, res |-> 0, name |-> IF Len(e.name) <= 15 THEN e.name ELSE <<>>]] /\ UNCHANGED <<mx, rw, sm, tids>> /\ out' = [ret |-> 0, null |-> FALSE]
  \/ e.fault # "" /\ KeepAll /\ out' = [ret |-> IF e.fault = "mem" THEN -2 ELSE EAGAIN, null |-> TRUE]
Join(t, e) == IF e.j = t THEN KeepAll /\ Ret(EDEADLK)   \* the thread stays joinable
  ELSE IF th[e.j].st \in {"none", "joined"} THEN Missing
  ELSE th[e.j].st = "ended" /\ th' = [th EXCEPT ![e.j].st = "joined"] /\ UNCHANGED <<mx, rw, sm, tids>> /\ out' = [ret |-> 0, res |-> th[e.j].res]
(* a thread number: the platform's own, and nobody else's *)
GetTid(t, e) == /\ UNCHANGED <<mx, rw, sm, th>> /\ (t \in DOMAIN tids => tids[t] = e.tid) /\ (\A u \in DOMAIN tids \ {t} : th[u].st = "running" => tids[u] # e.tid)
                /\ tids' = [u \in {t} |-> e.tid] @@ tids /\ out' = [ok |-> TRUE]
Take(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
SetName(t, e) == IF "name" \notin DOMAIN e \/ e.name = <<>> THEN KeepAll /\ Ret(-1)
  ELSE th' = [th EXCEPT ![t].name = Take(e.name, 15)] /\ UNCHANGED <<mx, rw, sm, tids>> /\ out' = [ret |-> 0]
(* the name given at creation (if it fits) or set since; <<>>: nothing is promised *)
GetName(t, e) == KeepAll /\ out' = (IF th[t].name = <<>> THEN [ok |-> TRUE] ELSE [name |-> th[t].name])
(* invalid arguments: everything is refused *)
Nulls(t, e) == KeepAll /\ out' = [ok |-> TRUE]
Op(t, e) == CASE e.op = "minit" -> MInit(e) [] e.op = "rinit" -> RInit(e) [] e.op = "sinit" -> SInit(e)
              [] e.op = "lock" -> Lock(t, e) [] e.op = "unlock" -> Unlock(t, e) [] e.op = "mdestroy" -> MDestroy(t, e)
              [] e.op = "rdlock" -> RdLock(t, e) [] e.op = "wrlock" -> WrLock(t, e) [] e.op = "rwunlock" -> RwUnlock(t, e) [] e.op = "rdestroy" -> RDestroy(t, e)
              [] e.op = "wait" -> Wait(t, e) [] e.op = "post" -> Post(t, e) [] e.op = "value" -> Value(t, e) [] e.op = "sdestroy" -> SDestroy(t, e)
              [] e.op = "create" -> Create(t, e) [] e.op = "join" -> Join(t, e) [] e.op = "gettid" -> GetTid(t, e) [] e.op = "setname" -> SetName(t, e) [] e.op = "getname" -> GetName(t, e) [] e.op = "nulls" -> Nulls(t, e)
(* when an operation can proceed (kept apart from its effect so that waiting can be judged) *)
Ready(t, e) == CASE e.op = "lock" -> LET m == mx[e.s] IN ~m.up \/ m.own = NOOWNER \/ (m.own = t /\ m.ty # "normal")
                 [] e.op = "rdlock" -> ~rw[e.s].up \/ rw[e.s].wr = NOOWNER
                 [] e.op = "wrlock" -> ~rw[e.s].up \/ (rw[e.s].wr = NOOWNER /\ rw[e.s].rd = <<>>)
                 [] e.op = "wait" -> ~sm[e.s].up \/ sm[e.s].n > 0
                 [] e.op = "join" -> e.j = t \/ th[e.j].st \in {"none", "joined", "ended"}
                 [] OTHER -> TRUE
Match(o, e) == \A k \in DOMAIN o \cap DOMAIN e : o[k] = e[k]
Call(e) == th[e.t].st = "running" /\ e.t \notin DOMAIN pend /\ pend' = pend @@ [x \in {e.t} |-> [e |-> e.e, r |-> e.r, done |-> FALSE]] /\ UNCHANGED <<mx, rw, sm, th, tids, out>>
Return(e) == pend[e.t].done /\ pend' = [x \in DOMAIN pend \ {e.t} |-> pend[x]] /\ UNCHANGED <<mx, rw, sm, th, tids, out>>
Start(e) == th[e.t].st = "created" /\ e.arg = th[e.t].arg /\ th' = [th EXCEPT ![e.t].st = "running"] /\ UNCHANGED <<mx, rw, sm, pend, tids, out>>
Finish(e) == th[e.t].st = "running" /\ e.t \notin DOMAIN pend /\ th' = [th EXCEPT ![e.t].st = "ended", ![e.t].res = e.res] /\ UNCHANGED <<mx, rw, sm, pend, tids, out>>
(* nobody can move: every thread that is not finished waits for something that is not free *)
Stuck == /\ \A i \in DOMAIN th : th[i].st # "created" /\ (th[i].st = "running" => i \in DOMAIN pend)
         /\ \A i \in DOMAIN pend : ~pend[i].done /\ ~Ready(i, pend[i].e)
Gone == /\ \A i \in Slots : ~mx[i].up /\ ~rw[i].up /\ ~sm[i].up
        /\ \A i \in DOMAIN th \ {0} : th[i].st \in {"none", "joined"}
(* ---- *)
Effect(t) == /\ ~pend[t].done /\ Ready(t, pend[t].e)
             /\ Op(t, pend[t].e) /\ Match(out', pend[t].r)
             /\ pend' = [pend EXCEPT ![t].done = TRUE]
Silent == \E t \in DOMAIN pend : Effect(t)
Do(e) == \/ e.op = "call" /\ Call(e)
         \/ e.op = "ret" /\ Return(e)
         \/ e.op = "start" /\ Start(e)
         \/ e.op = "finish" /\ Finish(e)
         \/ e.op = "deadlock" /\ Stuck /\ UNCHANGED vars
         \/ e.op = "end" /\ pend = <<>> /\ (Gone => e.live = 0) /\ UNCHANGED vars
Inv == /\ \A i \in Slots : /\ (mx[i].own = NOOWNER) <=> (mx[i].dep = 0)
                           /\ mx[i].ty # "recursive" => mx[i].dep <= 1
                           /\ rw[i].wr # NOOWNER => rw[i].rd = <<>>
                           /\ sm[i].n >= 0
       /\ \A i \in DOMAIN pend : th[i].st = "running"
=============================================================================
