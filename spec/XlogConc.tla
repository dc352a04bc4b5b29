------------------------------ MODULE XlogConc ------------------------------
(* xlog with several logging threads and threads that change its settings (C20).  A logging call consults the
   target and the minimum level somewhere between call and return (seen), and makes its whole record with the
   settings of one moment; records do not overlap on the console or in the user callback. *)
EXTENDS LogText, FiniteSets
VARIABLES c, pend, con, busy
vars == <<c, pend, con, busy>>
Base == [min |-> 1, up |-> 0, tag |-> <<88, 76, 111, 103>>, target |-> 12, format |-> 12, flush |-> 0, tz |-> 0, user |-> 1]
InitCfg(k) == c = [f \in DOMAIN Base |-> IF f \in DOMAIN k.set THEN k.set[f] ELSE Base[f]] /\ pend = <<>> /\ con = <<>> /\ busy = 0
Set(e) == IF e.what = "tag" THEN [c EXCEPT !.tag = LTake(e.tag, 23)] ELSE [c EXCEPT ![e.what] = e.v]
Start(e, r) == e.t \notin DOMAIN pend /\ pend' = [x \in {e.t} |-> r] @@ pend /\ UNCHANGED <<c, con, busy>>
Finish(e) == e.t \in DOMAIN pend /\ pend[e.t].st = "done" /\ pend' = [x \in DOMAIN pend \ {e.t} |-> pend[x]] /\ UNCHANGED <<c, con, busy>>
Step(t, st) == pend' = [pend EXCEPT ![t].st = st]
(* ---- silent steps *)
Apply(t) == /\ pend[t].st = "set" /\ c' = Set(pend[t].e)
            /\ pend' = [x \in DOMAIN pend |-> IF x = t THEN [pend[x] EXCEPT !.st = "done"]
                        ELSE IF pend[x].st = "in" THEN [pend[x] EXCEPT !.seen = [target |-> @.target \cup {c'.target}, min |-> @.min \cup {c'.min}]] ELSE pend[x]]
            /\ UNCHANGED <<con, busy>>
MayPass(p) == \E g \in p.seen.target, m \in p.seen.min : Enabled(g, m, p.e.lev)
MayDrop(p) == \E g \in p.seen.target, m \in p.seen.min : ~Enabled(g, m, p.e.lev)
Drop(t) == pend[t].st = "in" /\ MayDrop(pend[t]) /\ Step(t, "done") /\ UNCHANGED <<c, con, busy>>
TextOf(e) == HeadText(c, e, Raised(c.up, e.lev), IF "tag" \in DOMAIN e THEN e.tag ELSE c.tag) \o e.msg
Emit(t) == LET p == pend[t] x == TextOf(p.e) back == Bit(c.target, 8) /\ c.user # 0 IN
  /\ p.st = "in" /\ busy = 0 /\ MayPass(p)
  /\ con' = (IF Bit(c.target, 4) THEN Append(con, x) ELSE con)
  /\ pend' = [pend EXCEPT ![t] = IF back THEN [st |-> "cb", txt |-> x, lev |-> Raised(c.up, p.e.lev), user |-> c.user] ELSE [st |-> "done"]]
  /\ busy' = (IF back THEN t ELSE 0) /\ UNCHANGED c
Silent == \E t \in DOMAIN pend : Apply(t) \/ Drop(t) \/ Emit(t)
(* ---- events *)
CbBegin(e) == /\ e.t \in DOMAIN pend /\ pend[e.t].st = "cb" /\ busy = e.t
              /\ e.txt = pend[e.t].txt /\ e.lev = pend[e.t].lev /\ e.user = pend[e.t].user /\ e.size = Len(e.txt) + 1
              /\ Step(e.t, "cbing") /\ UNCHANGED <<c, con, busy>>
CbEnd(e) == /\ e.t \in DOMAIN pend /\ pend[e.t].st = "cbing" /\ e.kept = 1 /\ Step(e.t, "done") /\ busy' = 0 /\ UNCHANGED <<c, con>>
Do(e) == \/ e.op = "pcall" /\ Start(e, [st |-> "in", e |-> e, seen |-> [target |-> {c.target}, min |-> {c.min}]])
         \/ e.op = "scall" /\ Start(e, [st |-> "set", e |-> e])
         \/ e.op = "ncall" /\ Start(e, [st |-> "done"])
         \/ e.op = "ret" /\ Finish(e) /\ ("r" \in DOMAIN e => e.r = 0)
         \/ e.op = "cbb" /\ CbBegin(e)
         \/ e.op = "cbe" /\ CbEnd(e)
         \/ e.op = "fin" /\ pend = <<>> /\ e.lines = con /\ e.live = 0 /\ UNCHANGED vars
Inv == (busy # 0 => busy \in DOMAIN pend /\ pend[busy].st \in {"cb", "cbing"}) /\ Cardinality({t \in DOMAIN pend : pend[t].st \in {"cb", "cbing"}}) <= 1
=============================================================================
