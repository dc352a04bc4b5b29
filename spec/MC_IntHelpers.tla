---- MODULE MC_IntHelpers ----
(* the definitions themselves, at and around every power of two *)
EXTENDS IntHelpers
VARIABLES v, done
Succ(a) == IF a[2] < 65535 THEN <<a[1], a[2] + 1>> ELSE <<a[1] + 1, 0>>
Values == {Zero, <<0, 1>>, <<65535, 65535>>} \cup {P(k) : k \in 1..31} \cup {Pred(P(k)) : k \in 1..31} \cup {Succ(P(k)) : k \in 1..31}
          \cup {<<h, l>> : h \in {0, 1, 255, 32767, 32768, 65535}, l \in {0, 1, 7, 4096, 40000, 65535}}
Init == InitCfg(0) /\ v \in Values /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<v, seen, out>>
Laws == /\ \A w \in Values : Leq(v, w) => Leq(Down(v), Down(w))                 \* monotone
        /\ Leq(Down(v), v)
        /\ IsPow(v) <=> (v = Down(v) /\ v # Zero)
        /\ UpSet(v) # {} /\ v # Zero => Leq(v, Least(UpSet(v))) /\ (v # Least(UpSet(v)) => Lt(Down(v), v))
        /\ \A w \in Values : Leq(v, w) /\ UpSet(w) # {} => Leq(Least(UpSet(v)), Least(UpSet(w)))
====
