---------------------------- MODULE MC_PortThread ----------------------------
(* All schedules of a few threads that repeatedly take and give back what they hold.  held[t]:
   what t holds, in order; a thread gives everything back before it ends.  Locks are taken in
   ascending order of slot, so nobody may be stuck. *)
EXTENDS PortThread
CONSTANTS N, Max, Sem
VARIABLES held, n
mvars == <<mx, rw, sm, th, pend, tids, out, held, n>>
T == 1..N
C(t, e) == Call([t |-> t, e |-> e, r |-> <<>>])
Top(t) == IF held[t] = <<>> THEN -1 ELSE held[t][Len(held[t])][2]
Tys == <<"normal", "recursive", "error">>
MCInit == /\ InitCfg(0) /\ held = [t \in T |-> <<>>] /\ n = 0
Ready0 == mx[0].up
Setup == /\ ~Ready0 /\ th[0].st = "running" /\ pend = <<>>
         /\ mx' = [mx EXCEPT ![0] = [NoMx EXCEPT !.up = TRUE], ![1] = [NoMx EXCEPT !.up = TRUE, !.ty = "recursive"]]
         /\ rw' = [rw EXCEPT ![2] = [NoRw EXCEPT !.up = TRUE]] /\ sm' = [sm EXCEPT ![3] = [up |-> TRUE, n |-> Sem]]
         /\ th' = [i \in DOMAIN th |-> IF i \in T THEN [NoTh EXCEPT !.st = "created", !.arg = i] ELSE th[i]]
         /\ UNCHANGED <<pend, tids, out, held, n>>
Begin(t) == th[t].st = "created" /\ Start([t |-> t, arg |-> t]) /\ UNCHANGED <<held, n>>
Acq(t) == /\ n < Max /\ n' = n + 1 /\ Len(held[t]) < 3
          /\ \E op \in {<<"lock", 0>>, <<"lock", 1>>, <<"rdlock", 2>>, <<"wrlock", 2>>, <<"wait", 3>>} :
               /\ op[2] > Top(t) \/ (op = <<"lock", 1>> /\ Top(t) = 1) \/ (op = <<"rdlock", 2>> /\ held[t] # <<>> /\ held[t][Len(held[t])] = op)
               /\ C(t, [op |-> op[1], s |-> op[2]]) /\ held' = [held EXCEPT ![t] = Append(@, op)]
Rel(t) == /\ held[t] # <<>> /\ UNCHANGED n
          /\ LET op == held[t][Len(held[t])] IN C(t, [op |-> CASE op[1] = "lock" -> "unlock" [] op[1] = "wait" -> "post" [] OTHER -> "rwunlock", s |-> op[2]])
          /\ held' = [held EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Back(t) == t \in DOMAIN pend /\ Return([t |-> t]) /\ UNCHANGED <<held, n>>
End(t) == held[t] = <<>> /\ Finish([t |-> t, res |-> 10 + t]) /\ UNCHANGED <<held, n>>
JoinCall == /\ Ready0 /\ 0 \notin DOMAIN pend /\ \E j \in T : /\ th[j].st \notin {"none", "joined"} /\ \A i \in T : i < j => th[i].st = "joined"
                                                           /\ C(0, [op |-> "join", j |-> j]) /\ UNCHANGED <<held, n>>
Eff(t) == t \in DOMAIN pend /\ Effect(t) /\ UNCHANGED <<held, n>>
MCNext == Setup \/ JoinCall \/ Back(0) \/ Eff(0) \/ \E t \in T : Begin(t) \/ Acq(t) \/ Rel(t) \/ Back(t) \/ End(t) \/ Eff(t)
Fair == /\ WF_mvars(Setup) /\ WF_mvars(JoinCall) /\ WF_mvars(Back(0)) /\ WF_mvars(Eff(0))
        /\ \A t \in T : WF_mvars(Begin(t)) /\ WF_mvars(Back(t)) /\ SF_mvars(Eff(t)) /\ WF_mvars(End(t)) /\ WF_mvars(Rel(t))
Spec == MCInit /\ [][MCNext]_mvars /\ Fair
(* what a thread holds (its last call has returned) *)
Holds(t, op) == \E i \in 1..Len(held[t]) : held[t][i] = op /\ (t \notin DOMAIN pend \/ pend[t].done \/ i < Len(held[t]) \/ pend[t].e.op \notin {"lock", "rdlock", "wrlock", "wait"})
Excl == /\ \A s \in {0, 1} : \A t, u \in T : Holds(t, <<"lock", s>>) /\ Holds(u, <<"lock", s>>) => t = u
        /\ \A t, u \in T : Holds(t, <<"wrlock", 2>>) /\ (Holds(u, <<"wrlock", 2>>) \/ Holds(u, <<"rdlock", 2>>)) => t = u
        /\ Cardinality({t \in T : Holds(t, <<"wait", 3>>)}) <= Sem
NeverStuck == ~(Ready0 /\ Stuck)
AllJoined == <>(\A t \in T : th[t].st = "joined" /\ th[t].res = 10 + t)
=============================================================================
