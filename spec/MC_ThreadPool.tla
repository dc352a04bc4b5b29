---- MODULE MC_ThreadPool ----
(* Exhaustive: every interleaving of submitters, workers, waiters, pause/resume and
   destroy within the constants; safety (once, in order, wait implies done) and
   liveness (everything submitted runs, every wait and destroy returns). *)
EXTENDS ThreadPool
CONSTANTS NJobs, NWaits, Sizes, Subs, WithPause
VARIABLES nj, nw, np, nruns, startq, subq
mv == <<vars, nj, nw, np, nruns, startq, subq>>
Aux == <<nj, nw, np, nruns, startq, subq>>
MCInit == InitCfg(0) /\ nj = 0 /\ nw = 0 /\ np = 0 /\ nruns = [j \in 1..NJobs |-> 0] /\ startq = <<>> /\ subq = <<>>
P == CHOOSE p \in Pools : TRUE
Threads == 1..3
Env == \/ \E n \in Sizes : InitCall([p |-> P, n |-> n]) /\ UNCHANGED Aux
       \/ nj < NJobs /\ life[P] = "live" /\ nj' = nj + 1 /\ AddCall([p |-> P, j |-> nj + 1, cnt |-> 1]) /\ UNCHANGED <<nw, np, nruns, startq, subq>>
       \* creation runs out of memory, a limited number of times
       \/ nj < NJobs /\ nj' = nj + 1 /\ Inited([p |-> P, ok |-> 0, failed |-> 1, held |-> 0]) /\ UNCHANGED <<nw, np, nruns, startq, subq>>
       \* a running job submits
       \/ Subs /\ nj < NJobs /\ running[P] # {} /\ nj' = nj + 1 /\ AddCall([p |-> P, j |-> nj + 1, cnt |-> 1]) /\ UNCHANGED <<nw, np, nruns, startq, subq>>
       \/ nw < NWaits /\ nw' = nw + 1 /\ WaitCall([p |-> P, w |-> nw]) /\ UNCHANGED <<nj, np, nruns, startq, subq>>
       \/ WithPause /\ np < 1 /\ life[P] = "live" /\ np' = np + 1 /\ PauseRet([p |-> P]) /\ UNCHANGED <<nj, nw, nruns, startq, subq>>
       \/ waits = {} /\ (\A a \in adding : a.j \in {r.j : r \in running[P]}) /\ DestroyCall([p |-> P]) /\ UNCHANGED Aux
Sys == \/ Inited([p |-> P, ok |-> 1, failed |-> 0, held |-> 0]) /\ UNCHANGED Aux
       \/ Enqueue /\ UNCHANGED <<nj, nw, np, nruns, startq>> /\ subq' = Append(subq, queue'[P][Len(queue'[P])])
       \/ Take /\ UNCHANGED <<nj, nw, np, nruns, subq>> /\ startq' = Append(startq, queue[P][1])
       \/ \E j \in 1..NJobs : Added([j |-> j, r |-> 0]) /\ UNCHANGED Aux
       \/ \E j \in 1..NJobs : Refused([j |-> j, r |-> -2, armed |-> 1]) /\ UNCHANGED Aux
       \/ \E j \in 1..NJobs, t \in Threads : Start([j |-> j, t |-> t, arg |-> 1, lib |-> 1]) /\ (\A u \in Threads : u < t => \E r \in running[P] : r.t = u)
            /\ nruns' = [nruns EXCEPT ![j] = @ + 1] /\ UNCHANGED <<nj, nw, np, startq, subq>>
       \/ \E j \in 1..NJobs, t \in Threads : JobEnd([j |-> j, t |-> t, cnt |-> 1, bad |-> 0]) /\ UNCHANGED Aux
       \/ \E w \in 0..NWaits : Waited([w |-> w]) /\ UNCHANGED Aux
       \/ paused # {} /\ ResumeCall([p |-> P]) /\ UNCHANGED Aux
       \/ Destroyed([p |-> P]) /\ UNCHANGED Aux
MCNext == Env \/ Sys
Spec == MCInit /\ [][MCNext]_mv /\ WF_mv(Sys)
Once == \A j \in 1..NJobs : nruns[j] <= 1
(* jobs are taken in the order in which their submissions took effect *)
InOrder == Len(startq) <= Len(subq) /\ startq = SubSeq(subq, 1, Len(startq))
EndedRan == \A j \in ended : nruns[j] = 1
(* a waiter returns only when everything submitted before its call has finished *)
WaitMeansDone == [][\A x \in waits : x \notin waits' => x.need \subseteq ended]_mv
(* at rest nothing is left behind *)
Rest == /\ adding = {} /\ life[P] # "init" /\ life[P] # "dying"
        /\ (life[P] = "live" /\ size[P] > 0 => PoolDone(P) /\ subm \subseteq ended /\ waits = {})
ComesToRest == <>[]Rest
====
