------------------------------ MODULE Lifecycle ------------------------------
(* Ownership across the whole library (C31).  Every object owns what was acquired on its
   behalf (heap blocks, descriptors).  Calls on one object change only what that object
   owns; its destructor returns all of it, empties the caller's handle and leaves memory and
   locks supplied by the caller alone; a failed constructor and a call that keeps nothing
   leave the account as it was.  blk and fd are the totals the process holds after the call. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Owning                  \* kinds whose objects live in memory of their own
VARIABLES objs, out              \* objs[i] = [kind, blk, fd]
vars == <<objs, out>>
InitCfg(c) == objs = <<>> /\ out = [ok |-> TRUE]
Has(i) == i \in DOMAIN objs
Without(f, S) == [i \in DOMAIN f \ S |-> f[i]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN [blk |-> 0, fd |-> 0]
             ELSE LET i == CHOOSE i \in S : TRUE
                      r == Sum(f, S \ {i}) IN [blk |-> r.blk + f[i].blk, fd |-> r.fd + f[i].fd]
Tot(f) == Sum(f, DOMAIN f)
Quiet(e, f) == e.blk = Tot(f).blk /\ e.fd = Tot(f).fd
Create(e) ==
  /\ ~Has(e.id)
  /\ IF e.ok
     THEN /\ objs' = objs @@ [i \in {e.id} |-> [kind |-> e.kind, blk |-> e.blk - Tot(objs).blk, fd |-> e.fd - Tot(objs).fd]]
          /\ objs'[e.id].blk >= IF e.kind \in Owning THEN 1 ELSE 0
          /\ objs'[e.id].fd >= 0
     ELSE e.failed > 0 /\ UNCHANGED objs /\ Quiet(e, objs)
  /\ out' = [intact |-> TRUE]
Use(e) ==
  /\ Has(e.id)
  /\ LET rest == Tot(Without(objs, {e.id})) IN
     objs' = [objs EXCEPT ![e.id].blk = e.blk - rest.blk, ![e.id].fd = e.fd - rest.fd]
  /\ objs'[e.id].blk >= IF objs[e.id].kind \in Owning THEN 1 ELSE 0
  /\ objs'[e.id].fd >= 0
  /\ out' = [intact |-> TRUE]
(* emptied: what the contents needed is returned as well *)
Clear(e) == Use(e) /\ objs'[e.id].blk <= objs[e.id].blk
Destroy(e) ==
  /\ Has(e.id) /\ objs' = Without(objs, {e.id})
  /\ Quiet(e, objs') /\ out' = [intact |-> TRUE, null |-> TRUE]
Once(e) == UNCHANGED objs /\ Quiet(e, objs) /\ out' = [intact |-> TRUE]
Do(e) == \/ e.op = "create" /\ Create(e)
         \/ e.op = "use" /\ Use(e)
         \/ e.op = "clear" /\ Clear(e)
         \/ e.op = "destroy" /\ Destroy(e)
         \/ e.op = "undo" /\ (IF Has(e.id) THEN Destroy(e) ELSE Once(e))
         \/ e.op = "once" /\ Once(e)
         \/ e.op = "end" /\ UNCHANGED objs /\ objs = <<>> /\ out' = [blk |-> 0, fd |-> 0]
Inv == \A i \in DOMAIN objs : objs[i].blk >= 0 /\ objs[i].fd >= 0
=============================================================================
