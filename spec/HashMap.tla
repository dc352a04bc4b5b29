------------------------------- MODULE HashMap -------------------------------
(* hashmap_*: a finite map that owns its keys and values (C13).
   m maps a key (its content) to [ko |-> identity of the key object stored,
   v |-> identity of the value object, 0 for NULL].  Freed objects are reported in
   the order-free lists kf/vf.  The order of iteration is up to the implementation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES up, m, cf, out
vars == <<up, m, cf, out>>
NoCf == [kf |-> FALSE, vf |-> FALSE]
InitCfg(c) == up = FALSE /\ m = <<>> /\ cf = NoCf /\ out = [ok |-> TRUE]
Dom == DOMAIN m
Has(k) == k \in DOMAIN m
Without(f, S) == [i \in DOMAIN f \ S |-> f[i]]
RangeS(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
(* the list reports exactly the objects in S, each once; a NULL (0) is never freed *)
Exactly(s, S) == NoDup(s) /\ RangeS(s) = S \ {0}
KeysOf(f) == IF cf.kf THEN {f[k].ko : k \in DOMAIN f} ELSE {}
ValsOf(f) == IF cf.vf THEN {f[k].v : k \in DOMAIN f} ELSE {}
Freed(e, f) == Exactly(e.kf, KeysOf(f)) /\ Exactly(e.vf, ValsOf(f))
Nothing(e) == e.kf = <<>> /\ e.vf = <<>>
Sz(f) == [sz |-> Cardinality(DOMAIN f), bal |-> TRUE]
Restrict(S) == [k \in S |-> m[k]]

Create(e) == /\ ~up /\ UNCHANGED m
             /\ IF e.failed > 0 THEN UNCHANGED <<up, cf>> /\ out' = [ok |-> FALSE]
                ELSE up' = TRUE /\ cf' = [kf |-> e.kfree, vf |-> e.vfree] /\ out' = [ok |-> TRUE]
Put(e) ==
  /\ UNCHANGED <<up, cf>>
  /\ \/ /\ Has(e.k)   \* the value is replaced, the stored key object stays
        /\ m' = [m EXCEPT ![e.k].v = e.v] /\ e.kf = <<>> /\ Exactly(e.vf, IF cf.vf THEN {m[e.k].v} ELSE {})
        /\ out' = [ret |-> m[e.k].v, nomem |-> FALSE] @@ Sz(m')
     \/ /\ ~Has(e.k) /\ m' = m @@ [k \in {e.k} |-> [ko |-> e.ko, v |-> e.v]]
        /\ Nothing(e) /\ out' = [ret |-> 0, nomem |-> FALSE] @@ Sz(m')   \* (a table that cannot grow is no failure)
     \/ /\ ~Has(e.k) /\ e.failed > 0   \* no memory for the entry: nothing changes
        /\ UNCHANGED m /\ Nothing(e) /\ out' = [ret |-> 0, nomem |-> TRUE] @@ Sz(m)
Get(e) == UNCHANGED <<up, m, cf>> /\ Nothing(e) /\ out' = [ret |-> IF Has(e.k) THEN m[e.k].v ELSE 0] @@ Sz(m)
Remove(e) == /\ UNCHANGED <<up, cf>>
             /\ IF Has(e.k) THEN m' = Without(m, {e.k}) /\ Freed(e, Restrict({e.k})) /\ out' = [ret |-> m[e.k].v] @@ Sz(m')
                            ELSE UNCHANGED m /\ Nothing(e) /\ out' = [ret |-> 0] @@ Sz(m)
Clear(e) == UNCHANGED <<up, cf>> /\ m' = <<>> /\ Freed(e, m) /\ out' = Sz(<<>>)
Free(e) == up' = FALSE /\ m' = <<>> /\ cf' = NoCf /\ Freed(e, m) /\ out' = [bal |-> TRUE]
(* seen: the entries visited, in the order visited; stop: the visit at which the callback
   asked to stop (0 = never); rm: the keys the callback removed while visiting them *)
Foreach(e) ==
  LET keys == [i \in 1..Len(e.seen) |-> e.seen[i].k]
      n == Cardinality(Dom)
      want == IF e.stop = 0 \/ e.stop > n THEN n ELSE e.stop
      gone == RangeS(e.rm) \cap RangeS(keys) IN
  /\ UNCHANGED <<up, cf>>
  /\ Len(keys) = want /\ NoDup(keys) /\ RangeS(keys) \subseteq Dom
  /\ \A i \in 1..Len(e.seen) : e.seen[i].ko = m[keys[i]].ko /\ e.seen[i].v = m[keys[i]].v
  /\ m' = Without(m, gone) /\ Freed(e, Restrict(gone)) /\ out' = Sz(m')
Size(e) == UNCHANGED <<up, m, cf>> /\ out' = [ret |-> Cardinality(Dom)]
NullMap(e) == UNCHANGED <<up, m, cf>> /\ Nothing(e) /\ out' = [ret |-> 0]
Do(e) == IF e.op = "create" THEN Create(e)
         ELSE IF e.op = "nullmap" THEN NullMap(e)
         ELSE /\ up
              /\ \/ e.op = "put" /\ Put(e)
                 \/ e.op = "get" /\ Get(e)
                 \/ e.op = "remove" /\ Remove(e)
                 \/ e.op = "clear" /\ Clear(e)
                 \/ e.op = "free" /\ Free(e)
                 \/ e.op = "foreach" /\ Foreach(e)
                 \/ e.op = "size" /\ Size(e)
(* no key or value object is owned twice *)
Inv == \A j, k \in DOMAIN m : j # k => m[j].ko # m[k].ko /\ (m[j].v # 0 => m[j].v # m[k].v)
=============================================================================
