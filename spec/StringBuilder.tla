---------------------------- MODULE StringBuilder ----------------------------
(* stringbuilder_*: the text is the concatenation of what was appended (C23).  Texts are byte sequences. *)
EXTENDS Integers, Sequences, TLC, NumText
VARIABLES up, txt, out
vars == <<up, txt, out>>
InitCfg(c) == up = FALSE /\ txt = <<>> /\ out = [ok |-> TRUE]
Obs(x) == [len |-> Len(x), text |-> x, term |-> TRUE]
Create(e) == /\ ~up
             /\ IF e.fail # 0 THEN up' = FALSE /\ txt' = txt /\ out' = [ok |-> FALSE]
                ELSE up' = TRUE /\ txt' = <<>> /\ out' = [ok |-> TRUE] @@ Obs(<<>>)
(* a non-empty append succeeds unless an allocation failed during the call, and then changes nothing *)
Add(e, s) == /\ UNCHANGED up
             /\ \/ s # <<>> /\ txt' = txt \o s /\ out' = [ret |-> TRUE] @@ Obs(txt')
                \/ (s = <<>> \/ e.failed > 0) /\ txt' = txt /\ out' = [ret |-> FALSE] @@ Obs(txt)
Min(a, b) == IF a < b THEN a ELSE b
(* max = -1 stands for the largest size_t.  The header does not say what max = 0 means: nothing or the whole string *)
Pref(e) == SubSeq(e.s, 1, IF e.max = -1 THEN Len(e.s) ELSE Min(Len(e.s), e.max))
NStr(e) == IF e.max = 0 THEN Add(e, <<>>) \/ Add(e, e.s) ELSE Add(e, Pref(e))
Spaces(n) == [i \in 1..n |-> 32]
Zeros(n) == [i \in 1..n |-> 48]
PadL(s, w) == IF Len(s) < w THEN Spaces(w - Len(s)) \o s ELSE s
PadR(s, w) == IF Len(s) < w THEN s \o Spaces(w - Len(s)) ELSE s
IntT(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
(* what the format named by e.f makes of string s, numbers n and w *)
Fmt(e) == CASE e.f = "%s" -> e.s
            [] e.f = "%d" -> IntT(e.n)
            [] e.f = "%s=%d;" -> e.s \o <<61>> \o IntT(e.n) \o <<59>>
            [] e.f = "%*s|" -> PadL(e.s, e.w) \o <<124>>
            [] e.f = "%-*s|" -> PadR(e.s, e.w) \o <<124>>
            [] e.f = "%.*s" -> SubSeq(e.s, 1, Min(e.w, Len(e.s)))
            [] e.f = "%0*d" -> Zeros(IF e.w > Len(Dec(e.n)) THEN e.w - Len(Dec(e.n)) ELSE 0) \o Dec(e.n)
            [] e.f = "%%%c" -> <<37, e.n>>
            [] e.f = "" -> <<>>
            [] e.f = "%s%s" -> e.s \o e.s
            [] OTHER -> e.lit \* no conversion: the format itself
Do(e) == IF e.op = "create" THEN Create(e)
         ELSE /\ up
              /\ \/ e.op = "char" /\ Add(e, <<e.c>>)
                 \/ e.op = "str" /\ Add(e, e.s)
                 \/ e.op = "nstr" /\ NStr(e)
                 \/ e.op = "fmt" /\ Add(e, Fmt(e))
                 \/ e.op = "fmtbad" /\ Add(e, <<>>)     \* a conversion that fails (an invalid wide character)
                 \/ e.op = "null" /\ UNCHANGED <<up, txt>> /\ out' = [ret |-> FALSE] @@ Obs(txt)  \* a missing argument
                 \/ e.op = "clear" /\ UNCHANGED up /\ txt' = <<>> /\ out' = [ret |-> TRUE] @@ Obs(<<>>)
                 \/ e.op = "destroy" /\ up' = FALSE /\ txt' = <<>> /\ out' = [ok |-> TRUE, live |-> 0]
Inv == up \/ txt = <<>>
=============================================================================
