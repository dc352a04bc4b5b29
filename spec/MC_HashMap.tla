---- MODULE MC_HashMap ----
(* every history over a few keys; for the model checker the reply part of a record
   (freed objects, visiting order, failed allocations) is existentially chosen *)
EXTENDS HashMap, Json
CONSTANTS NKeys, MaxLen
VARIABLES hist, nxt
Seqs(S) == IF S = {} THEN {<<>>} ELSE {CHOOSE s \in [1..Cardinality(S) -> S] : RangeS(s) = S}
Fr(k, f) == [kf |-> CHOOSE s \in Seqs(KeysOf(f)) : TRUE, vf |-> CHOOSE s \in Seqs(ValsOf(f) \ {0}) : TRUE]
NoFr == [kf |-> <<>>, vf |-> <<>>]
K == 1..NKeys
Ops == {[op |-> "put", k |-> k, ko |-> nxt, v |-> v, failed |-> 0] @@ (IF Has(k) THEN [kf |-> <<>>, vf |-> IF cf.vf /\ m[k].v # 0 THEN <<m[k].v>> ELSE <<>>] ELSE NoFr) : k \in K, v \in {0, nxt + 1}}
       \cup {[op |-> "put", k |-> k, ko |-> nxt, v |-> nxt + 1, failed |-> 1, fail |-> 1] @@ NoFr : k \in K \ Dom}
       \cup {[op |-> "get", k |-> k] @@ NoFr : k \in K}
       \cup {[op |-> "remove", k |-> k] @@ Fr(k, IF Has(k) THEN Restrict({k}) ELSE <<>>) : k \in K}
       \cup {[op |-> o] @@ Fr(0, m) : o \in {"clear", "free"}}
       \cup UNION {{[op |-> "foreach", stop |-> st, rm |-> r, seen |-> s] @@ Fr(0, Restrict(RangeS(r) \cap {s[i].k : i \in 1..Len(s)})) :
               r \in UNION {Seqs(S) : S \in SUBSET Dom},
               s \in {[i \in 1..(IF st = 0 \/ st > Cardinality(Dom) THEN Cardinality(Dom) ELSE st) |-> [k |-> o[i], ko |-> m[o[i]].ko, v |-> m[o[i]].v]] : o \in Seqs(Dom)}} : st \in 0..NKeys}
MCInit == InitCfg(0) /\ hist = <<>> /\ nxt = 1
MCNext == /\ Len(hist) < MaxLen
          /\ \E e \in IF ~up THEN {[op |-> "create", cap |-> 1, hash |-> h, kfree |-> a, vfree |-> b, lock |-> TRUE, failed |-> 0] : h \in {"const", "id"}, a, b \in BOOLEAN} ELSE Ops :
              /\ (~up => hist = <<>>)
              /\ Do(e) /\ hist' = Append(hist, e) /\ nxt' = nxt + 2
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<up, cf, [k \in DOMAIN m |-> m[k].v = 0], Len(hist)>>
(* every object ever stored is freed exactly once by the time the map is gone *)
MCInv == Inv
====
