------------------------------ MODULE MC_Locked ------------------------------
(* Why taking the caller's lock around the whole operation is enough (C26): threads run
   put/get/remove in small steps (take the lock, look the bucket up, change it, give the lock
   back, return); the changes of an operation are two separate steps.  Under every schedule the
   observable history is that of an object whose operations happen at one moment (LinObj). *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Thread, Key, MaxOps
VARIABLES pc, arg, found, res, m, cnt, lock, ops
vars == <<pc, arg, found, res, m, cnt, lock, ops>>
NONE == 0
Kinds == {"put", "get", "remove", "size", "fail"}
Args == [k : Kinds, key : Key, v : {1, 2}]
NoArg == [k |-> "none", key |-> CHOOSE k \in Key : TRUE, v |-> 0]
Init == /\ pc = [t \in Thread |-> "idle"] /\ arg = [t \in Thread |-> NoArg] /\ found = [t \in Thread |-> NONE] /\ res = [t \in Thread |-> NONE]
        /\ m = [k \in Key |-> NONE] /\ cnt = 0 /\ lock = {} /\ ops = 0
Call(t) == /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
           /\ \E a \in Args : arg' = [arg EXCEPT ![t] = a]
           /\ pc' = [pc EXCEPT ![t] = "want"] /\ UNCHANGED <<found, res, m, cnt, lock>>
Acquire(t) == pc[t] = "want" /\ lock = {} /\ lock' = {t} /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<arg, found, res, m, cnt, ops>>
Look(t) == /\ pc[t] = "look" /\ found' = [found EXCEPT ![t] = m[arg[t].key]]
           /\ pc' = [pc EXCEPT ![t] = "change"] /\ UNCHANGED <<arg, res, m, cnt, lock, ops>>
Change(t) == /\ pc[t] = "change"
             /\ m' = IF arg[t].k = "put" THEN [m EXCEPT ![arg[t].key] = arg[t].v] ELSE IF arg[t].k = "remove" THEN [m EXCEPT ![arg[t].key] = NONE] ELSE m
             /\ res' = [res EXCEPT ![t] = IF arg[t].k = "size" THEN cnt ELSE found[t]]
             /\ pc' = [pc EXCEPT ![t] = "count"] /\ UNCHANGED <<arg, found, cnt, lock, ops>>
Count(t) == /\ pc[t] = "count"
            /\ cnt' = IF arg[t].k = "put" /\ found[t] = NONE THEN cnt + 1 ELSE IF arg[t].k = "remove" /\ found[t] # NONE THEN cnt - 1 ELSE cnt
            /\ pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<arg, found, res, m, lock, ops>>
Leave(t) == pc[t] = "leave" /\ lock' = {} /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<arg, found, res, m, cnt, ops>>
Return(t) == pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ arg' = [arg EXCEPT ![t] = NoArg] /\ found' = [found EXCEPT ![t] = NONE] /\ res' = [res EXCEPT ![t] = NONE] /\ UNCHANGED <<m, cnt, lock, ops>>
Step(t) == Acquire(t) \/ Look(t) \/ Change(t) \/ Count(t) \/ Leave(t) \/ Return(t)
Next == \E t \in Thread : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thread : WF_vars(Look(t) \/ Change(t) \/ Count(t) \/ Leave(t) \/ Return(t)) /\ SF_vars(Acquire(t))
Inv == /\ \A t \in Thread : lock = {t} <=> pc[t] \in {"look", "change", "count", "leave"}
       /\ (lock = {} => cnt = Cardinality({k \in Key : m[k] # NONE}))
Returns == \A t \in Thread : (pc[t] # "idle") ~> (pc[t] = "idle")
(* the atomic object: the operation takes effect when its last change is made *)
Settled(t) == pc[t] \in {"leave", "done"}
InOp == {t \in Thread : pc[t] = "count"}
aM == IF InOp = {} THEN m ELSE LET t == CHOOSE t \in InOp : TRUE IN [m EXCEPT ![arg[t].key] = found[t]]
aSt == [t \in Thread |-> IF pc[t] = "idle" THEN "idle" ELSE IF Settled(t) THEN "done" ELSE "called"]
aRes == [t \in Thread |-> IF Settled(t) THEN res[t] ELSE NONE]
ACard(f) == Cardinality({k \in Key : f[k] # NONE})
AEffect(t) == /\ aSt[t] = "called" /\ aSt' = [aSt EXCEPT ![t] = "done"]
              /\ aRes' = [aRes EXCEPT ![t] = IF arg[t].k = "size" THEN ACard(aM) ELSE aM[arg[t].key]]
              /\ aM' = IF arg[t].k = "put" THEN [aM EXCEPT ![arg[t].key] = arg[t].v] ELSE IF arg[t].k = "remove" THEN [aM EXCEPT ![arg[t].key] = NONE] ELSE aM
ACall(t) == aSt[t] = "idle" /\ aSt' = [aSt EXCEPT ![t] = "called"] /\ UNCHANGED <<aM, aRes>>
AReturn(t) == aSt[t] = "done" /\ aSt' = [aSt EXCEPT ![t] = "idle"] /\ aRes' = [aRes EXCEPT ![t] = NONE] /\ UNCHANGED aM
Atomic == [][\E t \in Thread : ACall(t) \/ AEffect(t) \/ AReturn(t)]_<<aM, aSt, aRes>>
=============================================================================
