------------------------------ MODULE StrParams ------------------------------
(* str_params: a map from strings to strings with a "k=v<delim>k=v" text form (C17).
   Strings are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, NumText
VARIABLES up, d, m, out
vars == <<up, d, m, out>>
InitCfg(c) == up = FALSE /\ d = 59 /\ m = <<>> /\ out = [ok |-> TRUE]
EQ == 61
Has(k) == k \in DOMAIN m
Put(f, k, v) == [x \in {k} |-> v] @@ f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ---- text form *)
RECURSIVE Tokens(_, _, _)
Tokens(s, c, cur) == IF s = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
                     ELSE IF Head(s) = c THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Tokens(Tail(s), c, <<>>)
                     ELSE Tokens(Tail(s), c, Append(cur, Head(s)))
Eqs(t) == {i \in 1..Len(t) : t[i] = EQ}
FirstEq(t) == CHOOSE i \in Eqs(t) : \A j \in Eqs(t) : i <= j
KeyOf(t) == IF Eqs(t) = {} THEN t ELSE SubSeq(t, 1, FirstEq(t) - 1)
ValOf(t) == IF Eqs(t) = {} THEN <<>> ELSE SubSeq(t, FirstEq(t) + 1, Len(t))
RECURSIVE Load(_, _)
Load(ts, f) == IF ts = <<>> THEN f ELSE Load(Tail(ts), IF KeyOf(Head(ts)) = <<>> THEN f ELSE Put(f, KeyOf(Head(ts)), ValOf(Head(ts))))
Parse(s, c) == Load(Tokens(s, c, <<>>), <<>>)
Free(s, cs) == \A i \in 1..Len(s) : s[i] \notin cs
Clean(f, c) == \A k \in DOMAIN f : k # <<>> /\ Free(k, {EQ, c}) /\ Free(f[k], {c})
RECURSIVE SumLen(_, _)
SumLen(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Len(k) + 1 + Len(f[k]) + SumLen(f, S \ {k})
TextLen(f) == LET n == Cardinality(DOMAIN f) IN SumLen(f, DOMAIN f) + IF n = 0 THEN 0 ELSE n - 1

(* creation succeeds with everything, or fails (only for want of memory) with nothing *)
Made(e, mm) == /\ ~up /\ d' = e.delim
               /\ \/ up' = TRUE /\ m' = mm /\ out' = [ok |-> TRUE]
                  \/ e.failed > 0 /\ up' = FALSE /\ m' = <<>> /\ out' = [ok |-> FALSE, kept |-> 0]
Create(e) == Made(e, <<>>)
CreateStr(e) == Made(e, Parse(e.str, e.delim))
Destroy(e) == up' = FALSE /\ m' = <<>> /\ UNCHANGED d /\ out' = [leak |-> 0]
Add(e) == /\ UNCHANGED <<up, d>>
          /\ \/ e.failed = 0 /\ m' = Put(m, e.key, e.val) /\ out' = [ret |-> 0]
             \/ e.failed > 0 /\ e.ret = 0 /\ m' = Put(m, e.key, e.val) /\ out' = [ret |-> 0]
             \/ e.failed > 0 /\ m' = m /\ out' = [ret |-> -12]
(* adding a number stores its text *)
AddNum(e) == UNCHANGED <<up, d>> /\ m' = Put(m, e.key, e.txt) /\ out' = [ret |-> 0]
Del(e) == UNCHANGED <<up, d>> /\ m' = Without(m, e.key) /\ out' = [done |-> TRUE]
HasKey(e) == UNCHANGED <<up, d, m>> /\ out' = [ret |-> Has(e.key)]
Miss == [ret |-> -2, same |-> TRUE]
GetStr(e) == /\ UNCHANGED <<up, d, m>>
             /\ out' = IF ~Has(e.key) THEN Miss
                       ELSE IF Len(m[e.key]) + 1 > e.size THEN [ret |-> -12, same |-> TRUE]
                       ELSE [ret |-> 0, got |-> m[e.key]]
Bad == [ret |-> -22, same |-> TRUE]
GetInt(e, r) == /\ UNCHANGED <<up, d, m>>
                /\ IF ~Has(e.key) THEN out' = Miss
                   ELSE LET t == IntText(m[e.key]) IN
                        IF t = NONE THEN out' = Bad
                        ELSE IF InRange(t, r) THEN out' = [ret |-> 0, txt |-> t]
                        ELSE e.ret < 0 /\ out' = [same |-> TRUE]   \* does not fit: an error, never another number
GetDbl(e) == /\ UNCHANGED <<up, d, m>>
             /\ IF ~Has(e.key) THEN out' = Miss
                ELSE LET v == m[e.key] IN
                     IF Canon10(v) THEN out' = [ret |-> 0, txt |-> v]
                     ELSE IF PlainInt(v) THEN out' = [ret |-> 0, txt |-> v \o Zeros10]
                     ELSE IF NotANumber(v) THEN out' = Bad
                     ELSE e.ret \in {0, -22} /\ out' = [ret |-> e.ret]
(* the text has every entry exactly once: its length is exact and, when no key or value
   contains a separator, parsing it gives the same map *)
ToStr(e) == /\ UNCHANGED <<up, d, m>>
            /\ Len(e.str) = TextLen(m) /\ (Clean(m, d) => Parse(e.str, d) = m) /\ out' = [null |-> FALSE]
Do(e) == IF e.op = "create" THEN Create(e) ELSE IF e.op = "createstr" THEN CreateStr(e)
         ELSE IF e.op = "destroy" THEN Destroy(e)   \* also of nothing
         ELSE /\ up
              /\ \/ e.op = "add" /\ Add(e)
                 \/ e.op \in {"addlong", "addint", "adddouble", "addfloat"} /\ AddNum(e)
                 \/ e.op = "del" /\ Del(e)
                 \/ e.op = "has" /\ HasKey(e)
                 \/ e.op = "getstr" /\ GetStr(e)
                 \/ e.op = "getlong" /\ GetInt(e, I64)
                 \/ e.op = "getint" /\ GetInt(e, I32)
                 \/ e.op \in {"getdouble", "getfloat"} /\ GetDbl(e)
                 \/ e.op = "tostr" /\ ToStr(e)
Inv == TRUE
=============================================================================
