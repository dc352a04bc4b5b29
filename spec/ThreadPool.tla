----------------------------- MODULE ThreadPool -----------------------------
(* thpool_*: pools of worker threads taking jobs from a FIFO queue (C09, C10, C11).
   Event steps are calls, returns and the start/end of a job's function; the silent
   steps Enqueue, Take and Sample are the moments at which a call or a worker acts. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Pools
VARIABLES
  size,     \* size[p]: number of workers, -1 while the pool does not exist
  life,     \* life[p]: none init live dying dead
  queue,    \* queue[p]: accepted jobs not yet taken, in order
  adding,   \* jobs being submitted: [j, p, st]
  where,    \* where[j] = pool of job j once its submission has taken effect
  taken,    \* taken[p]: jobs taken by a worker, function not yet entered
  running,  \* running[p]: job -> thread
  ended,    \* finished jobs
  subm,     \* jobs whose submission completed
  waits,    \* waits in progress: [w, p, need]
  asks,     \* queries in progress: [w, p, v]
  units,    \* units[j]: how many functions job j stands for (a run of jobs submitted together to one worker counts as one)
  paused    \* pools whose pause has returned and that have not been resumed since
vars == <<size, life, queue, adding, where, taken, running, ended, subm, waits, asks, units, paused>>
pv == <<size, life, units>>

InitCfg(c) ==
  /\ size = [p \in Pools |-> -1] /\ life = [p \in Pools |-> "none"] /\ queue = [p \in Pools |-> <<>>]
  /\ adding = {} /\ where = <<>> /\ taken = [p \in Pools |-> {}] /\ running = [p \in Pools |-> {}]
  /\ units = <<>> /\ ended = {} /\ subm = {} /\ waits = {} /\ asks = {} /\ paused = {}

InitCall(e) == /\ life[e.p] = "none" /\ life' = [life EXCEPT ![e.p] = "init"] /\ size' = [size EXCEPT ![e.p] = IF e.n < 0 THEN 0 ELSE e.n]
               /\ UNCHANGED <<units, queue, adding, where, taken, running, ended, subm, waits, asks, paused>>
(* creation succeeds, or (only for want of memory or threads) fails and leaves nothing *)
Inited(e) == /\ life[e.p] = "init"
             /\ \/ e.ok = 1 /\ life' = [life EXCEPT ![e.p] = "live"]
                \/ e.ok = 0 /\ e.failed = 1 /\ e.held = 0 /\ life' = [life EXCEPT ![e.p] = "none"]
             /\ UNCHANGED <<size, units, queue, adding, where, taken, running, ended, subm, waits, asks, paused>>

(* --------------------------------------------------------------- submission *)
Usable(p) == life[p] \in {"live", "dying"}
Known == subm \cup {a.j : a \in adding}
AddCall(e) == /\ Usable(e.p) /\ e.j \notin Known
              /\ adding' = adding \cup {[j |-> e.j, p |-> e.p, st |-> "in"]}
              /\ units' = IF e.cnt = 1 THEN units ELSE [j \in {e.j} |-> e.cnt] @@ units
              /\ (e.cnt > 1 => size[e.p] = 1)
              /\ UNCHANGED <<size, life, queue, where, taken, running, ended, subm, waits, asks, paused>>
Enqueue == \E a \in adding :
             /\ a.st = "in" /\ adding' = (adding \ {a}) \cup {[a EXCEPT !.st = "ok"]}
             /\ queue' = [queue EXCEPT ![a.p] = Append(@, a.j)]
             /\ UNCHANGED <<pv, where, taken, running, ended, subm, waits, asks, paused>>
Added(e) == \E a \in adding :
              /\ a.j = e.j /\ a.st = "ok" /\ e.r = 0 /\ adding' = adding \ {a}
              /\ subm' = subm \cup {a.j} /\ where' = [j \in {a.j} |-> a.p] @@ where
              /\ UNCHANGED <<pv, queue, taken, running, ended, waits, asks, paused>>
(* no memory: the job was not accepted and is never run *)
Refused(e) == \E a \in adding :
                /\ a.j = e.j /\ a.st = "in" /\ e.r < 0 /\ e.armed = 1 /\ adding' = adding \ {a}
                /\ UNCHANGED <<pv, queue, where, taken, running, ended, subm, waits, asks, paused>>
AddNull(e) == e.r = 0 /\ UNCHANGED vars   \* r: the call claimed success

(* ------------------------------------------------------------------ workers *)
Busy(p) == Cardinality(taken[p]) + Cardinality(running[p])
TakeP(p) == /\ Usable(p) /\ queue[p] # <<>> /\ Busy(p) < size[p]
            /\ taken' = [taken EXCEPT ![p] = @ \cup {queue[p][1]}] /\ queue' = [queue EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED <<pv, adding, where, running, ended, subm, waits, asks, paused>>
Take == \E p \in Pools : TakeP(p)
Start(e) == \E p \in Pools :
              /\ e.j \in taken[p] /\ p \notin paused /\ Usable(p)
              /\ e.arg = 1 /\ e.lib = 1 /\ \A r \in running[p] : r.t # e.t
              /\ taken' = [taken EXCEPT ![p] = @ \ {e.j}]
              /\ running' = [running EXCEPT ![p] = @ \cup {[j |-> e.j, t |-> e.t]}]
              /\ UNCHANGED <<pv, queue, adding, where, ended, subm, waits, asks, paused>>
Units(j) == IF j \in DOMAIN units THEN units[j] ELSE 1
JobEnd(e) == \E p \in Pools :
               /\ p \notin paused /\ [j |-> e.j, t |-> e.t] \in running[p]
               /\ e.cnt = Units(e.j) /\ e.bad = 0
               /\ running' = [running EXCEPT ![p] = @ \ {[j |-> e.j, t |-> e.t]}]
               /\ ended' = ended \cup {e.j}
               /\ UNCHANGED <<pv, queue, adding, where, taken, subm, waits, asks, paused>>

(* --------------------------------------------------------- wait and queries *)
WaitCall(e) == /\ life[e.p] = "live"
               /\ waits' = waits \cup {[w |-> e.w, p |-> e.p, need |-> {j \in subm : where[j] = e.p}]}
               /\ UNCHANGED <<pv, queue, adding, where, taken, running, ended, subm, asks, paused>>
Waited(e) == \E x \in waits : /\ x.w = e.w /\ x.need \subseteq ended /\ waits' = waits \ {x}
                              /\ UNCHANGED <<pv, queue, adding, where, taken, running, ended, subm, asks, paused>>
QueryCall(e) == /\ Usable(e.p) /\ asks' = asks \cup {[w |-> e.w, p |-> e.p, v |-> -1]}
                /\ UNCHANGED <<pv, queue, adding, where, taken, running, ended, subm, waits, paused>>
(* the count at one moment of the call; it includes the jobs being executed *)
Sample == \E x \in asks : /\ x.v = -1
                          /\ asks' = (asks \ {x}) \cup {[x EXCEPT !.v = Cardinality(running[x.p])]}
                          /\ UNCHANGED <<pv, queue, adding, where, taken, running, ended, subm, waits, paused>>
Answer(e) == \E x \in asks : /\ x.w = e.w /\ x.v >= 0 /\ e.v >= x.v /\ e.v <= size[x.p] /\ asks' = asks \ {x}
                             /\ UNCHANGED <<pv, queue, adding, where, taken, running, ended, subm, waits, paused>>

(* ---------------------------------------------------------- pause and resume *)
PauseCall(e) == life[e.p] = "live" /\ UNCHANGED vars
PauseRet(e) == /\ paused' = paused \cup {e.p}
               /\ UNCHANGED <<pv, queue, adding, where, taken, running, ended, subm, waits, asks>>
(* resume is not selective (documented): every pool may continue *)
ResumeCall(e) == /\ paused' = {}
                 /\ UNCHANGED <<pv, queue, adding, where, taken, running, ended, subm, waits, asks>>
ResumeRet(e) == UNCHANGED vars

(* ----------------------------------------------------------------- shut down *)
DestroyCall(e) == /\ life[e.p] = "live" /\ life' = [life EXCEPT ![e.p] = "dying"]
                  /\ UNCHANGED <<size, units, queue, adding, where, taken, running, ended, subm, waits, asks, paused>>
Destroyed(e) == /\ life[e.p] = "dying" /\ taken[e.p] = {} /\ running[e.p] = {}
                /\ \A a \in adding : a.p # e.p
                /\ life' = [life EXCEPT ![e.p] = "dead"]
                /\ UNCHANGED <<size, units, queue, adding, where, taken, running, ended, subm, waits, asks, paused>>

(* ----------------------------------------- points the harness waited to reach *)
PoolDone(p) == queue[p] = <<>> /\ taken[p] = {} /\ running[p] = {}
AllDone(e) == {j \in subm : where[j] = e.p} \subseteq ended /\ UNCHANGED vars
Fin(e) == e.live = 0 /\ waits = {} /\ (\A p \in Pools : life[p] \in {"none", "dead"}) /\ UNCHANGED vars

Do(e) == \/ e.op = "init" /\ InitCall(e)
         \/ e.op = "inited" /\ Inited(e)
         \/ e.op = "add" /\ AddCall(e)
         \/ e.op = "added" /\ (Added(e) \/ Refused(e))
         \/ e.op = "addnull" /\ AddNull(e)
         \/ e.op = "start" /\ Start(e)
         \/ e.op = "end" /\ JobEnd(e)
         \/ e.op = "wait" /\ WaitCall(e)
         \/ e.op = "waited" /\ Waited(e)
         \/ e.op = "query" /\ QueryCall(e)
         \/ e.op = "answer" /\ Answer(e)
         \/ e.op = "pause" /\ PauseCall(e)
         \/ e.op = "paused" /\ PauseRet(e)
         \/ e.op = "resume" /\ ResumeCall(e)
         \/ e.op = "resumed" /\ ResumeRet(e)
         \/ e.op = "destroy" /\ DestroyCall(e)
         \/ e.op = "destroyed" /\ Destroyed(e)
         \/ e.op \in {"idle", "alldone"} /\ AllDone(e)
         \/ e.op = "fin" /\ Fin(e)
Silent == Enqueue \/ Take \/ Sample

(* ------------------------------------------------------------- what is stated *)
AtMostSize == \A p \in Pools : life[p] # "none" => Busy(p) <= size[p]
DeadIsQuiet == \A p \in Pools : life[p] = "dead" => taken[p] = {} /\ running[p] = {}
Inv == AtMostSize /\ DeadIsQuiet
=============================================================================
