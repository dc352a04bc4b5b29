------------------------------- MODULE Mplite -------------------------------
(* mplite_*: a buddy allocator in caller-provided memory (C12).
   Blocks are [s, l]: 2^l atoms starting at atom s.  free/live partition the pool. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES atom, nblk, free, live, req, st, out
vars == <<atom, nblk, free, live, req, st, out>>
MAXREQ == 1073741824
P(k) == 2^k
Log(n) == CHOOSE k \in 0..30 : P(k) >= n /\ (k = 0 \/ P(k - 1) < n)
Max(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN P(x.l) + Sum(S \ {x})

(* the fresh pool: the binary decomposition of nblk, largest first *)
RECURSIVE Fresh(_, _, _)
Fresh(o, n, k) == IF k < 0 THEN {} ELSE IF o + P(k) <= n THEN {[s |-> o, l |-> k]} \cup Fresh(o + P(k), n, k - 1) ELSE Fresh(o, n, k - 1)
Buddy(b) == [s |-> IF (b.s \div P(b.l)) % 2 = 0 THEN b.s + P(b.l) ELSE b.s - P(b.l), l |-> b.l]
RECURSIVE Coalesce(_)
Coalesce(F) == IF \E b \in F : Buddy(b) \in F
                 THEN LET b == CHOOSE b \in F : Buddy(b) \in F IN
                      Coalesce((F \ {b, Buddy(b)}) \cup {[s |-> IF b.s < Buddy(b).s THEN b.s ELSE Buddy(b).s, l |-> b.l + 1]})
                 ELSE F
AtomsOf(b) == b.s..(b.s + P(b.l) - 1)
(* splitting block b down to the sub-block of 2^l atoms at o leaves one sibling per level *)
Carve(b, o, l) == {Buddy([s |-> (o \div P(k)) * P(k), l |-> k]) : k \in l..(b.l - 1)}

NoStat == [n |-> 0, tot |-> 0, exc |-> 0, out |-> 0, cnt |-> 0, maxo |-> 0, maxc |-> 0, maxr |-> 0]
StatSeq(s) == <<s.n, s.tot, s.exc, s.out, s.cnt, s.maxo, s.maxc, s.maxr>>
Obs(F, s) == [maxmem |-> IF F = {} THEN 0 ELSE P(MaxOf({b.l : b \in F})) * atom, freemem |-> Sum(F) * atom, stats |-> StatSeq(s), intact |-> TRUE]

InitCfg(c) == atom = 0 /\ nblk = 0 /\ free = {} /\ live = <<>> /\ req = <<>> /\ st = NoStat /\ out = [ret |-> 0]
Init_(e) ==
  /\ req' = <<>> /\ st' = NoStat /\ live' = <<>>
  /\ IF e.size <= 0 \/ e.min <= 0 THEN atom' = 0 /\ nblk' = 0 /\ free' = {} /\ out' = [ret |-> -1]
     ELSE LET a == Max(8, P(Log(e.min))) IN
          /\ atom' = a /\ nblk' = e.size \div (a + 1) /\ free' = Fresh(0, nblk', 30)
          /\ out' = [ret |-> 0, maxmem |-> IF free' = {} THEN 0 ELSE P(MaxOf({b.l : b \in free'})) * a, freemem |-> nblk' * a, stats |-> StatSeq(NoStat), intact |-> TRUE]

Fits(n) == n > 0 /\ n <= MAXREQ /\ \E b \in free : P(b.l) * atom >= n
LogFor(n) == CHOOSE k \in 0..30 : P(k) * atom >= n /\ (k = 0 \/ P(k - 1) * atom < n)
Asked(s, n) == IF n > 0 /\ n <= MAXREQ THEN [s EXCEPT !.maxr = Max(@, n)] ELSE s
Out(s, full, n) == LET t == Asked(s, n) IN
  [t EXCEPT !.n = @ + 1, !.tot = @ + full, !.exc = @ + full - n, !.out = @ + full, !.cnt = @ + 1, !.maxo = Max(@, s.out + full), !.maxc = Max(@, s.cnt + 1)]
Back(s, full) == [s EXCEPT !.out = @ - full, !.cnt = @ - 1]

(* a block of the right size carved out of some free block; returned at atom o *)
Alloc(id, n, o, s0) == LET l == LogFor(n) IN
  \E b \in free : /\ b.l >= l /\ o \in AtomsOf(b) /\ o % P(l) = b.s % P(l)
                  /\ free' = (free \ {b}) \cup Carve(b, o, l)
                  /\ live' = [i \in {id} |-> [s |-> o, l |-> l]] @@ live
                  /\ st' = Out(s0, P(l) * atom, n)
Malloc(e) ==
  /\ atom > 0 /\ e.id \notin DOMAIN live
  /\ IF Fits(e.n)
       THEN /\ e.off >= 0 /\ e.off % atom = 0 /\ Alloc(e.id, e.n, e.off \div atom, st)
            /\ req' = [i \in {e.id} |-> e.n] @@ req
            /\ out' = [zero |-> TRUE] @@ Obs(free', st')
       ELSE /\ UNCHANGED <<free, live, req>> /\ st' = Asked(st, e.n) /\ out' = [off |-> -1] @@ Obs(free, st')
  /\ UNCHANGED <<atom, nblk>>
Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]
Free(e) ==
  /\ atom > 0 /\ e.id \in DOMAIN live
  /\ LET b == live[e.id] IN free' = Coalesce(free \cup {b}) /\ st' = Back(st, P(b.l) * atom)
  /\ live' = Without(live, e.id) /\ req' = Without(req, e.id)
  /\ out' = Obs(free', st') /\ UNCHANGED <<atom, nblk>>
SizeOf(id) == P(live[id].l) * atom
Good(n) == n > 0 /\ \E k \in 0..30 : n = P(k)
Realloc(e) ==
  /\ atom > 0 /\ e.id \in DOMAIN live /\ UNCHANGED <<atom, nblk>>
  /\ LET old == live[e.id] IN
     IF ~Good(e.n) THEN UNCHANGED <<free, live, req, st>> /\ out' = [off |-> -1] @@ Obs(free, st)
     ELSE IF e.n <= SizeOf(e.id) THEN UNCHANGED <<free, live, st>> /\ req' = [req EXCEPT ![e.id] = Max(@, e.n)] /\ out' = [off |-> old.s * atom] @@ Obs(free, st)
     ELSE IF ~Fits(e.n) THEN UNCHANGED <<free, live, req>> /\ st' = Asked(st, e.n) /\ out' = [off |-> -1] @@ Obs(free, st')
     ELSE LET l == LogFor(e.n) o == e.off \div atom IN
          /\ e.off >= 0 /\ e.off % atom = 0
          /\ \E b \in free : /\ b.l >= l /\ o \in AtomsOf(b) /\ o % P(l) = b.s % P(l)
                             /\ free' = Coalesce(((free \ {b}) \cup Carve(b, o, l)) \cup {old})
          /\ live' = [live EXCEPT ![e.id] = [s |-> o, l |-> l]] /\ req' = [req EXCEPT ![e.id] = e.n]
          /\ st' = Back(Out(st, P(l) * atom, e.n), P(old.l) * atom)
          /\ out' = [prefix |-> TRUE] @@ Obs(free', st')
Resize(e) == /\ atom > 0 /\ e.id \in DOMAIN live /\ UNCHANGED <<atom, nblk, free, live, req, st>>
             /\ out' = [ret |-> IF Good(e.n) /\ e.n <= SizeOf(e.id) THEN 0 ELSE -1] @@ Obs(free, st)
Roundup(e) == /\ atom > 0 /\ UNCHANGED <<atom, nblk, free, live, req, st>>
              /\ out' = [ret |-> IF e.n < 1 \/ e.n > MAXREQ THEN 0 ELSE P(LogFor(e.n)) * atom]
(* single queries, for concurrent histories *)
Query(e) == /\ atom > 0 /\ UNCHANGED <<atom, nblk, free, live, req, st>>
            /\ out' = [ret |-> IF e.op = "freemem" THEN Sum(free) * atom ELSE Obs(free, st).maxmem]
State(e) == atom > 0 /\ UNCHANGED <<atom, nblk, free, live, req, st>> /\ out' = Obs(free, st)
(* the script named a block that is not live / is live: nothing was called *)
Skip(e) == e.skip = 1 /\ out' = [skip |-> 1] /\ UNCHANGED <<atom, nblk, free, live, req, st>>
Nulls(e) == out' = [ret |-> 0] /\ UNCHANGED <<atom, nblk, free, live, req, st>>
Do(e) == \/ "skip" \in DOMAIN e /\ Skip(e)
         \/ "skip" \notin DOMAIN e /\ \/ e.op = "init" /\ Init_(e)
                                      \/ e.op = "malloc" /\ Malloc(e)
                                      \/ e.op = "free" /\ Free(e)
                                      \/ e.op = "realloc" /\ Realloc(e)
                                      \/ e.op = "resize" /\ Resize(e)
                                      \/ e.op = "roundup" /\ Roundup(e)
                                      \/ e.op \in {"maxmem", "freemem"} /\ Query(e)
                                      \/ e.op = "state" /\ State(e)
                                      \/ e.op = "nulls" /\ Nulls(e)
(* what C12 states, as invariants of the model *)
Apart(a, b) == a.s + P(a.l) <= b.s \/ b.s + P(b.l) <= a.s
Blocks == {live[i] : i \in DOMAIN live}
Disjoint == /\ \A i, j \in DOMAIN live : i # j => Apart(live[i], live[j])
            /\ \A i \in DOMAIN live, b \in free : Apart(live[i], b)
Inside == \A i \in DOMAIN live : live[i].s >= 0 /\ live[i].s + P(live[i].l) <= nblk
BigEnough == \A i \in DOMAIN live : P(live[i].l) * atom >= req[i]
Complete == atom > 0 => Sum(free) + Sum({[l |-> live[i].l, k |-> i] : i \in DOMAIN live}) = nblk
FreshAgain == (atom > 0 /\ live = <<>>) => free = Fresh(0, nblk, 30)
Inv == Disjoint /\ Inside /\ BigEnough
MCInv == Inv /\ Complete /\ FreshAgain
=============================================================================
