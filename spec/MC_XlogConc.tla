---- MODULE MC_XlogConc ----
(* two loggers and a thread that changes settings: what may come out, and that every call can return *)
EXTENDS XlogConc
CONSTANT Logger, Setter, Mins
VARIABLES left, out
mvars == <<vars, left, out>>
Ev(t, lv) == [op |-> "pcall", t |-> t, lev |-> lv, msg |-> <<64 + t>>, d |-> 0, s |-> 0, us |-> 0, thr |-> 1]
MCInit == /\ InitCfg([set |-> [format |-> 0]]) /\ left = [t \in Logger \cup Setter |-> 2] /\ out = <<>>
Use(t) == left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED out
Calls == \/ \E t \in Logger, lv \in {1, 4} : Use(t) /\ Do(Ev(t, lv))
         \/ \E t \in Setter : Use(t) /\ \/ \E v \in Mins : Do([op |-> "scall", t |-> t, what |-> "min", v |-> v])
                                        \/ \E v \in {0, 4, 12} : Do([op |-> "scall", t |-> t, what |-> "target", v |-> v])
Cbs == \E t \in DOMAIN pend : /\ pend[t].st = "cb" /\ Do([op |-> "cbb", t |-> t, txt |-> pend[t].txt, lev |-> pend[t].lev, user |-> pend[t].user, size |-> Len(pend[t].txt) + 1])
                              /\ out' = Append(out, pend[t].txt) /\ UNCHANGED left
Cbe == \E t \in DOMAIN pend : Do([op |-> "cbe", t |-> t, kept |-> 1]) /\ UNCHANGED <<left, out>>
Rets == \E t \in DOMAIN pend : Do([op |-> "ret", t |-> t]) /\ UNCHANGED <<left, out>>
Sil == Silent /\ UNCHANGED <<left, out>>
MCNext == Calls \/ Cbs \/ Cbe \/ Rets \/ Sil
Spec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(Cbs \/ Cbe \/ Rets \/ Sil)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* no more records than calls of that thread, on either target *)
Bounded == \A t \in Logger : Count(con, <<64 + t>>) <= 2 - left[t] /\ Count(out, <<64 + t>>) <= 2 - left[t]
Returns == <>[](pend = <<>> \/ \E t \in DOMAIN left : left[t] > 0)
====
