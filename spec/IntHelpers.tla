----------------------------- MODULE IntHelpers ------------------------------
(* Power-of-two helpers over all 32-bit values and the hash functions (C30).
   A 32-bit value is <<h, l>>: its upper and lower 16 bits (TLC's integers have 32 bits with sign). *)
EXTENDS Integers, Sequences, TLC
VARIABLES seen, out      \* seen: hash of every key hashed so far in this run
vars == <<seen, out>>
InitCfg(c) == seen = {} /\ out = [ok |-> TRUE]
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == a = b \/ Lt(a, b)
P(k) == IF k < 16 THEN <<0, 2 ^ k>> ELSE <<2 ^ (k - 16), 0>>       \* 2^k
Powers == {P(k) : k \in 1..31}                                     \* (1 does not count as one here)
IsPow(a) == a \in Powers
Zero == <<0, 0>>
UpSet(a) == {p \in Powers : Leq(a, p)}
DownSet(a) == {p \in Powers : Leq(p, a)}
Least(S) == CHOOSE p \in S : \A q \in S : Leq(p, q)
Greatest(S) == CHOOSE p \in S : \A q \in S : Leq(q, p)
Down(a) == IF DownSet(a) = {} THEN Zero ELSE Greatest(DownSet(a))
UpOk(a, v) == IF a = Zero THEN v = Zero ELSE IF UpSet(a) = {} THEN TRUE ELSE v = Least(UpSet(a))   \* above 2^31 nothing can be said
Pred(a) == IF a[2] > 0 THEN <<a[1], a[2] - 1>> ELSE <<a[1] - 1, 65535>>
(* one value *)
One(e) == /\ UNCHANGED seen
          /\ UpOk(e.v, e.up)
          /\ out' = [down |-> Down(e.v), pow |-> IsPow(e.v)]
(* a whole interval [e.from, e.to]: the driver reports where the answer changes; r.a is the first value of a run.
   Both roundings are monotone, so a run is right if both its ends are; a run of "no" must skip every power. *)
Runs(e) == [i \in 1..Len(e.runs) |-> [a |-> e.runs[i].a, b |-> IF i = Len(e.runs) THEN e.to ELSE Pred(e.runs[i + 1].a), v |-> e.runs[i].v]]
Sweep(e) == /\ UNCHANGED seen
            /\ Len(e.runs) > 0 /\ e.runs[1].a = e.from
            /\ \A i \in 1..Len(e.runs) : LET r == Runs(e)[i] IN
                 /\ e.f = "down" => r.v = Down(r.a) /\ r.v = Down(r.b)
                 /\ e.f = "up" => UpOk(r.a, r.v) /\ UpOk(r.b, r.v)
                 /\ e.f = "pow" => IF r.v = <<0, 1>> THEN r.a = r.b /\ IsPow(r.a) ELSE \A p \in Powers : Lt(p, r.a) \/ Lt(r.b, p)
            /\ out' = [done |-> TRUE]
(* a hash depends on nothing but the hashed value *)
Hash(e) == LET S == {x \in seen : x.f = e.f /\ x.key = e.key} IN
           /\ \A x \in S : x.h = e.h
           /\ seen' = seen \cup {[f |-> e.f, key |-> e.key, h |-> e.h]}
           /\ out' = [done |-> TRUE]
Do(e) == \/ e.op = "one" /\ One(e)
         \/ e.op = "sweep" /\ Sweep(e)
         \/ e.op = "hash" /\ Hash(e)
Inv == \A x, y \in seen : x.f = y.f /\ x.key = y.key => x.h = y.h
=============================================================================
