---- MODULE MC_MsgHandler ----
(* Exhaustive exploration of MsgHandler: every environment (pushes, clears, callback
   results, destroy at any moment) within the constants, safety and liveness. *)
EXTENDS MsgHandler
CONSTANTS Kind, NPush, NClear, Caps, Lens, Faults
VARIABLES np, nc
mvars == <<vars, np, nc>>
Msgs == {[op |-> "push", t |-> t, what |-> 100 + np, a1 |-> 0, a2 |-> 0, len |-> n, sum |-> n] : n \in Lens, t \in {0}}
MCInit == InitCfg([kind |-> Kind, faults |-> Faults]) /\ np = 0 /\ nc = 0
CreateStep == \E c \in Caps : Created([cap |-> c, hdr |-> IF Kind = "bytes" THEN 6 ELSE 0]) /\ UNCHANGED <<np, nc>>
EnvPush == np < NPush /\ np' = np + 1 /\ UNCHANGED nc /\ \E e \in Msgs : PushCall(e)
EnvClear == nc < NClear /\ nc' = nc + 1 /\ UNCHANGED np /\ ClearCall([t |-> 0])
EnvDestroy == DestroyCall([t |-> 0]) /\ UNCHANGED <<np, nc>>
Sys == /\ UNCHANGED <<np, nc>>
       /\ \/ Silent
          \/ \E c \in {0, 5, 2} : PushRet([t |-> 0, code |-> c])
          \/ ClearRet([t |-> 0])
          \/ Ready([s |-> 0, t |-> 1])
          \/ Stop([s |-> 1, t |-> 1])
          \/ wk = "has" /\ Cb([what |-> cur.what, a1 |-> 0, a2 |-> 0, len |-> cur.len, sum |-> cur.sum, ud |-> 1, t |-> 1])
          \/ \E r \in {0, 1} : CbRet([ret |-> r, t |-> 1])
          \/ Destroyed([null |-> 1])
MCNext == CreateStep \/ EnvPush \/ EnvClear \/ EnvDestroy \/ Sys
Spec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(CreateStep) /\ WF_mvars(Sys)
(* every behaviour comes to rest with nothing left behind, calls returned and destroy complete *)
AtRest == /\ pp = NoPush /\ pcl = "no" /\ dst # "in"
          /\ \/ wk = "stopped"
             \/ wk = "idle" /\ q = <<>> /\ \A i \in minv..(acc - 1) : \E k \in 1..Len(disp) : disp[k] = i
ComesToRest == <>[]AtRest
(* a message cleared before its dispatch began is never dispatched *)
ClearWins == [][disp' # disp => (cur.idx >= minv \/ wk = "has")]_mvars
NoTakeOfCleared == [][wk = "popped" /\ wk' = "has" => cur.idx >= minv]_mvars
====
