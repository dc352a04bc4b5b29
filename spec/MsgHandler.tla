----------------------------- MODULE MsgHandler -----------------------------
(* msg_queue_handler (kind "bytes") and fixed_msg_queue_handler (kind "records"):
   one producer pushing into a bounded queue, one worker thread dispatching to a
   callback, clear (records only) and destroy.  C07, C08.

   Event steps are what the outside sees (calls, returns, callbacks); the steps in
   Silent are the moments inside a call or inside the worker at which it takes
   effect.  A message is a record carrying its whole observable content.          *)
EXTENDS Integers, Sequences, TLC
VARIABLES
  cap,   \* capacity of the queue: bytes or records
  hdr,   \* bytes: space a message needs besides its payload (records: 0)
  kind, faults,
  q,     \* accepted messages not yet taken by the worker, oldest first
  half,  \* bytes of a message being taken whose header has already been released
  pp,    \* the push in progress
  pcl,   \* the clear in progress: "no" "in" "done"
  wk,    \* worker: start idle popped has cb broke stopped
  wt,    \* the worker thread (-1 unknown)
  cur,   \* the message in the worker's hands
  flag,  \* stop requested
  minv,  \* messages with a smaller index have been cleared
  acc,   \* number of accepted messages so far (index of the next one)
  disp,  \* ghost: indexes of the dispatched messages, in dispatch order
  dst    \* destroy: no in done
vars == <<cap, hdr, kind, faults, q, half, pp, pcl, wk, wt, cur, flag, minv, acc, disp, dst>>
cfgv == <<cap, hdr, kind, faults>>

None == [idx |-> -1]
NoPush == [st |-> "no"]
Need(m) == IF kind = "records" THEN 1 ELSE hdr + m.len
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Need(s[1]) + Sum(Tail(s))
Used == Sum(q) + half
Free == cap - Used

InitCfg(c) ==
  /\ cap = -1 /\ hdr = 0 /\ kind = c.kind /\ faults = c.faults
  /\ q = <<>> /\ half = 0 /\ pp = NoPush /\ pcl = "no" /\ wk = "none" /\ wt = -1 /\ cur = None
  /\ flag = FALSE /\ minv = 0 /\ acc = 0 /\ disp = <<>> /\ dst = "no"

(* ------------------------------------------------------------ construction *)
Created(e) == /\ cap = -1 /\ cap' = e.cap /\ hdr' = e.hdr
              /\ wk' = IF wk = "none" THEN "start" ELSE wk
              /\ UNCHANGED <<kind, faults, q, half, pp, pcl, wt, cur, flag, minv, acc, disp, dst>>
(* the worker may report before create has returned *)
NoCreate(e) == cap = -1 /\ faults /\ wk = "none" /\ e.live = 0 /\ e.threads = 0 /\ UNCHANGED vars

(* -------------------------------------------------------------------- push *)
PushCall(e) == /\ cap >= 0 /\ dst = "no" /\ pp = NoPush /\ pcl = "no"
               /\ pp' = [st |-> "in", t |-> e.t, m |-> [what |-> e.what, a1 |-> e.a1, a2 |-> e.a2, len |-> e.len, sum |-> e.sum, idx |-> acc],
                         late |-> (wk = "stopped")]
               /\ UNCHANGED <<cfgv, q, half, pcl, wk, wt, cur, flag, minv, acc, disp, dst>>
Accept == /\ pp.st = "in" /\ ~pp.late /\ Need(pp.m) <= Free
          /\ q' = Append(q, pp.m) /\ acc' = acc + 1 /\ pp' = [pp EXCEPT !.st = "ok"]
          /\ UNCHANGED <<cfgv, half, pcl, wk, wt, cur, flag, minv, disp, dst>>
SeeFull == /\ pp.st = "in" /\ ~pp.late /\ Need(pp.m) > Free
           /\ pp' = [pp EXCEPT !.st = "full"]
           /\ UNCHANGED <<cfgv, q, half, pcl, wk, wt, cur, flag, minv, acc, disp, dst>>
SeeStop == /\ pp.st = "in" /\ flag
           /\ pp' = [pp EXCEPT !.st = "refused"]
           /\ UNCHANGED <<cfgv, q, half, pcl, wk, wt, cur, flag, minv, acc, disp, dst>>
PushRet(e) == /\ pp.st \in {"ok", "full", "refused"} /\ pp.t = e.t
              /\ e.code = (CASE pp.st = "ok" -> 0 [] pp.st = "full" -> 5 [] pp.st = "refused" -> 2)
              /\ pp' = NoPush
              /\ UNCHANGED <<cfgv, q, half, pcl, wk, wt, cur, flag, minv, acc, disp, dst>>

(* ------------------------------------------------------------------- clear *)
ClearCall(e) == /\ kind = "records" /\ pp = NoPush /\ pcl = "no" /\ dst = "no" /\ pcl' = "in"
                /\ UNCHANGED <<cfgv, q, half, pp, wk, wt, cur, flag, minv, acc, disp, dst>>
DoClear == /\ pcl = "in" /\ pcl' = "done" /\ minv' = acc
           /\ UNCHANGED <<cfgv, q, half, pp, wk, wt, cur, flag, acc, disp, dst>>
ClearRet(e) == /\ pcl = "done" /\ pcl' = "no"
               /\ UNCHANGED <<cfgv, q, half, pp, wk, wt, cur, flag, minv, acc, disp, dst>>

(* ------------------------------------------------------------------ worker *)
OnWorker(e) == (wt = -1 \/ wt = e.t) /\ wt' = e.t
Ready(e) == /\ e.s = 0 /\ wk \in {"none", "start"} /\ wk' = "idle" /\ OnWorker(e)
            /\ UNCHANGED <<cfgv, q, half, pp, pcl, cur, flag, minv, acc, disp, dst>>
(* bytes: the header is released first, the rest with the payload *)
PopHdr == /\ wk = "idle" /\ kind = "bytes" /\ q # <<>> /\ half = 0
          /\ cur' = q[1] /\ q' = Tail(q) /\ half' = Need(q[1]) - 4 /\ wk' = "popping"
          /\ UNCHANGED <<cfgv, pp, pcl, wt, flag, minv, acc, disp, dst>>
PopBody == /\ wk = "popping" /\ half' = 0 /\ wk' = "popped"
           /\ UNCHANGED <<cfgv, q, pp, pcl, wt, cur, flag, minv, acc, disp, dst>>
PopRec == /\ wk = "idle" /\ kind = "records" /\ q # <<>>
          /\ cur' = q[1] /\ q' = Tail(q) /\ wk' = "popped"
          /\ UNCHANGED <<cfgv, half, pp, pcl, wt, flag, minv, acc, disp, dst>>
(* from here on a later clear does not reach the message any more *)
Begin == /\ wk = "popped"
         /\ wk' = IF cur.idx < minv THEN "idle" ELSE "has"
         /\ UNCHANGED <<cfgv, q, half, pp, pcl, wt, cur, flag, minv, acc, disp, dst>>
Cb(e) == /\ wk = "has" /\ wk' = "cb" /\ OnWorker(e)
         /\ e.what = cur.what /\ e.a1 = cur.a1 /\ e.a2 = cur.a2 /\ e.len = cur.len /\ e.sum = cur.sum /\ e.ud = 1
         /\ disp' = Append(disp, cur.idx)
         /\ UNCHANGED <<cfgv, q, half, pp, pcl, cur, flag, minv, acc, dst>>
CbRet(e) == /\ wk = "cb" /\ wt = e.t /\ wk' = IF e.ret = 0 THEN "idle" ELSE "broke"
            /\ UNCHANGED <<cfgv, q, half, pp, pcl, wt, cur, flag, minv, acc, disp, dst>>
SetFlag == /\ wk = "broke" /\ ~flag /\ flag' = TRUE
           /\ UNCHANGED <<cfgv, q, half, pp, pcl, wk, wt, cur, minv, acc, disp, dst>>
(* out of memory is the one other reason to stop *)
OutOfMem == /\ faults /\ wk \in {"idle", "popping"} /\ wk' = "broke"
            /\ UNCHANGED <<cfgv, q, half, pp, pcl, wt, cur, flag, minv, acc, disp, dst>>
Stop(e) == /\ e.s = 1 /\ (wk = "broke" \/ (wk = "idle" /\ flag)) /\ wk' = "stopped" /\ flag' = TRUE /\ OnWorker(e)
           /\ UNCHANGED <<cfgv, q, half, pp, pcl, cur, minv, acc, disp, dst>>

(* --------------------------------------------------------------- shut down *)
DestroyCall(e) == /\ cap >= 0 /\ dst = "no" /\ pp = NoPush /\ pcl = "no" /\ dst' = "in" /\ flag' = TRUE
                  /\ UNCHANGED <<cfgv, q, half, pp, pcl, wk, wt, cur, minv, acc, disp>>
Destroyed(e) == /\ dst = "in" /\ wk = "stopped" /\ dst' = "done" /\ e.null = 1
                /\ UNCHANGED <<cfgv, q, half, pp, pcl, wk, wt, cur, flag, minv, acc, disp>>
End(e) == dst = "done" /\ e.live = 0 /\ e.threads = 0 /\ UNCHANGED vars

(* the harness saw the handler at rest: everything that had to be dispatched has been *)
Idle(e) == /\ \/ wk \in {"start", "idle"} /\ q = <<>>
              \/ wk \in {"popped", "popping", "has"} /\ q = <<>> /\ cur.idx < minv
              \/ wk = "stopped" \/ (faults /\ wk = "broke")
           /\ e.free = Free /\ UNCHANGED vars

(* n messages pushed in batches that fit, each batch waited for: all of them are taken and
   dispatched, in order and unchanged (the harness compares), and the handler is at rest again *)
Burst(e) == /\ cap >= 0 /\ dst = "no" /\ pp = NoPush /\ pcl = "no" /\ q = <<>> /\ half = 0 /\ ~flag
            /\ wk \in {"start", "idle"} /\ wk' = "idle"
            /\ e.pushed = e.n /\ e.got = e.n /\ e.bad = 0 /\ e.free = cap
            /\ acc' = acc + e.n
            /\ UNCHANGED <<cfgv, q, half, pp, pcl, wt, cur, flag, minv, disp, dst>>
Do(e) == \/ e.op = "created" /\ Created(e)
         \/ e.op = "nocreate" /\ NoCreate(e)
         \/ e.op = "push" /\ PushCall(e)
         \/ e.op = "pushret" /\ PushRet(e)
         \/ e.op = "clear" /\ ClearCall(e)
         \/ e.op = "clearret" /\ ClearRet(e)
         \/ e.op = "status" /\ e.ud = 1 /\ (Ready(e) \/ Stop(e))
         \/ e.op = "cb" /\ Cb(e)
         \/ e.op = "cbret" /\ CbRet(e)
         \/ e.op = "idle" /\ Idle(e)
         \/ e.op = "burst" /\ Burst(e)
         \/ e.op = "destroy" /\ DestroyCall(e)
         \/ e.op = "destroyed" /\ Destroyed(e)
         \/ e.op = "end" /\ End(e)
Silent == \/ Accept \/ SeeFull \/ SeeStop \/ DoClear \/ PopHdr \/ PopBody \/ PopRec \/ Begin \/ SetFlag \/ OutOfMem

(* ------------------------------------------------- what C07 and C08 state *)
Bounded == cap >= 0 => Free >= 0 /\ Free <= cap
InOrderOnce == \A i, j \in 1..Len(disp) : i < j => disp[i] < disp[j]
Waiting == {q[i].idx : i \in 1..Len(q)} \cup (IF wk \in {"popped", "popping", "has"} THEN {cur.idx} ELSE {})
NothingLost == wk # "broke" /\ wk # "stopped" =>
                 \A i \in 0..(acc - 1) : i < minv \/ i \in Waiting \/ \E k \in 1..Len(disp) : disp[k] = i
Quiet == dst = "done" => wk = "stopped"
Inv == Bounded /\ Quiet
InvAll == Inv /\ InOrderOnce /\ NothingLost
=============================================================================
