---- MODULE MC_Tracker ----
(* histories over two blocks; the report part of a record is what the specification demands *)
EXTENDS Tracker, Json
CONSTANTS MaxLen
VARIABLE hist
Ids == {1, 2}
Rep(f, o) == [rep |-> IF ~o THEN <<>> ELSE LET S == {[id |-> i, sz |-> f[i].sz, line |-> f[i].line, org |-> f[i].org] : i \in Tracked(f)} IN
                CHOOSE s \in [1..Cardinality(S) -> S] : RangeS(s) = S,
              total |-> IF o THEN SumSz(f, Tracked(f)) ELSE 0]
Org == [org |-> 1, line |-> 7, fail |-> 0, fill |-> 9]
Basic == {[op |-> "malloc", id |-> i, n |-> 3] : i \in Ids \ DOMAIN b}
      \cup {[op |-> "calloc", id |-> i, c |-> 2, s |-> 2, huge |-> 0] : i \in Ids \ DOMAIN b}
      \cup {[op |-> "strdup", id |-> i, str |-> <<65>>] : i \in Ids \ DOMAIN b}
Mine == {i \in DOMAIN b : b[i].kind = Kind /\ i \notin smashed}
Reall == {[op |-> "realloc", id |-> i, n |-> n] : i \in (Ids \ DOMAIN b) \cup Mine, n \in {0, 2, 6}}
Others == {[op |-> "free", id |-> i] : i \in Mine}
      \cup (IF on THEN {[op |-> "tryfree", id |-> i] : i \in Ids} \cup {[op |-> "tryreport"]} ELSE {})
      \cup {[op |-> "read", id |-> i] : i \in DOMAIN b}
      \cup {[op |-> "smash", id |-> i, side |-> s, at |-> a] : i \in DOMAIN b, s \in {"before", "after"}, a \in {0, 7}}
      \cup {[op |-> "mend", id |-> i] : i \in DOMAIN b}
      \cup {[op |-> o] : o \in {"init", "uninit", "reset"}}
(* the report after the step; for realloc the implementation's slack is chosen as 2 *)
After(e) == IF e.op = "realloc" /\ e.n > 0
              THEN LET old == IF Has(e.id) THEN b[e.id].sz ELSE 0 IN
                   {Rep(Without(b, {e.id}) @@ [i \in {e.id} |-> [kind |-> Kind, sz |-> z, line |-> l, org |-> 1]], on) : z \in {IF old >= e.n THEN old ELSE e.n + 2}, l \in {7}}
            ELSE {Rep(f, o) : f \in {b, Without(b, {IF "id" \in DOMAIN e THEN e.id ELSE 0})}
                      \cup (IF e.op \in {"malloc", "calloc", "strdup"} THEN {b @@ [i \in {e.id} |-> [kind |-> Kind, sz |-> IF e.op = "malloc" THEN 3 ELSE IF e.op = "calloc" THEN 4 ELSE 2, line |-> 7, org |-> 1]]} ELSE {})
                      \cup (IF e.op = "reset" THEN {<<>>} ELSE {}), o \in {on, e.op = "init"}}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == /\ Len(hist) < MaxLen
          /\ \E e0 \in Basic \cup Reall \cup Others : \E r \in After(e0) :
               LET e == e0 @@ r @@ Org IN Do(e) /\ hist' = Append(hist, e)
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<on, smashed, [i \in DOMAIN b |-> <<b[i].kind, b[i].req>>]>>
====
