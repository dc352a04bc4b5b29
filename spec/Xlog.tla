-------------------------------- MODULE Xlog --------------------------------
(* xlog and slog used by one thread (C20): which records reach which target, and their exact bytes.
   con is the file that the standard output goes to at present. *)
EXTENDS LogText
VARIABLES c, con, xr, sr, smin, out
vars == <<c, con, xr, sr, smin, out>>
Defaults == [min |-> 1, up |-> 0, tag |-> <<88, 76, 111, 103>>, target |-> 4, format |-> 6, flush |-> 0, tz |-> 8, user |-> 0]
InitCfg(k) == /\ c = Defaults /\ con = "s0" /\ xr = FALSE /\ sr = FALSE /\ smin = 1 /\ out = [ok |-> TRUE]
Getters(k) == [gmin |-> k.min, gtarget |-> k.target, gformat |-> k.format, gflush |-> k.flush]
Set(k) == c' = k /\ out' = Getters(k) /\ UNCHANGED <<con, xr, sr, smin>>
Setter(e) ==
  \/ e.op = "min" /\ Set(IF e.v \in 0..5 THEN [c EXCEPT !.min = e.v] ELSE c)
  \/ e.op = "up" /\ Set([c EXCEPT !.up = e.v])
  \/ e.op = "target" /\ Set(IF e.v >= 0 THEN [c EXCEPT !.target = e.v] ELSE c)
  \/ e.op = "format" /\ Set(IF e.v >= 0 THEN [c EXCEPT !.format = e.v] ELSE c)
  \/ e.op = "flush" /\ Set(IF e.v >= 0 THEN [c EXCEPT !.flush = e.v] ELSE c)
  \/ e.op = "tz" /\ Set(IF e.v \in -12..12 THEN [c EXCEPT !.tz = e.v] ELSE c)
  \/ e.op = "cb" /\ Set([c EXCEPT !.user = e.v])
  \/ e.op = "tag" /\ Set(IF "tag" \in DOMAIN e THEN [c EXCEPT !.tag = LTake(e.tag, 23)] ELSE c)
(* ---- records *)
Body(e) == IF e.style = 1 THEN e.msg \o DecText(e.n) \o <<37, e.ch>> ELSE e.msg
Tracer == <<116, 114, 97, 99, 101, 114>>
FuncOf(e) == IF e.style \in {4, 5} THEN Tracer ELSE IF e.style \in {2, 3} \/ "func" \notin DOMAIN e THEN <<>> ELSE e.func
LineOf(e) == IF e.style \in {4, 5} THEN e.at ELSE IF e.style \in {2, 3} \/ "func" \notin DOMAIN e THEN 0 ELSE e.line
TagOf(e) == IF e.style \in {3, 5} \/ "tag" \notin DOMAIN e THEN c.tag ELSE e.tag
Nothing == [cbs |-> <<>>, grown |-> <<>>, leak |-> 0]
Grown(t) == IF t = <<>> THEN <<>> ELSE <<[sink |-> con, txt |-> t]>>
Record(lev, t) == [cbs |-> IF Bit(c.target, 8) /\ c.user # 0 THEN <<[lev |-> lev, txt |-> t, size |-> Len(t) + 1, user |-> c.user]>> ELSE <<>>,
                   grown |-> IF Bit(c.target, 4) THEN Grown(t \o <<10>>) ELSE <<>>, leak |-> 0]
                  @@ (IF Bit(c.target, 4) /\ c.flush # 0 THEN [late |-> 0] ELSE <<>>)
Failed(e) == "failed" \in DOMAIN e /\ e.failed > 0
Logged(e, where, msg) == LET lev == Raised(c.up, e.lev) t == HeadText(c, e, lev, TagOf(e)) \o where \o msg IN
  \/ ~Enabled(c.target, c.min, e.lev) /\ out' = Nothing
  \/ Enabled(c.target, c.min, e.lev) /\ out' = Record(lev, t)
  \/ Failed(e) /\ out' = Nothing
Same == UNCHANGED <<c, con, xr, sr, smin>>
(* ---- slog: the level filter is its own, the header is fixed *)
STag(e) == <<91, LevelChar(e.lev), 47>> \o e.tag \o <<93>>
SMsg(e) == CASE e.op = "slog" /\ e.style = 0 -> STag(e) \o <<32>> \o e.msg
             [] e.op = "slog" /\ e.style = 1 -> STag(e) \o Where(Tracer, 6, e.at) \o e.msg
             [] OTHER -> STag(e) \o <<32>> \o Dump(e.data, 256)
Slog(e) == Same /\ out' = [grown |-> IF smin # 0 /\ smin <= e.lev THEN Grown(SMsg(e) \o <<10>>) ELSE <<>>]
(* ---- redirection of the standard output to a fresh file and back *)
Named(e) == "file" \in DOMAIN e /\ e.file # ""
Do(e) ==
  \/ Setter(e)
  \/ e.op = "print" /\ Same /\ \E k \in Cuts(FuncOf(e)) : Logged(e, Where(FuncOf(e), k, LineOf(e)), Body(e))
  \/ e.op = "hex" /\ Same /\ Logged([e EXCEPT !.style = 0], <<>>, Dump(e.data, 512))
  \/ e.op \in {"init", "cleanup"} /\ Same /\ out' = Getters(c)
  \/ e.op = "defaults" /\ Same /\ out' = Getters(Defaults)
  \/ e.op = "smin" /\ UNCHANGED <<c, con, xr, sr>> /\ smin' = (IF e.v \in 0..5 THEN e.v ELSE smin) /\ out' = [gmin |-> smin']
  \/ e.op \in {"slog", "shex"} /\ Slog(e)
  \/ e.op = "tofile" /\ UNCHANGED <<c, smin>> /\ con' = (IF Named(e) THEN e.file ELSE con)
     /\ (IF e.s = 1 THEN xr' = xr /\ sr' = (sr \/ Named(e)) ELSE xr' = (xr \/ Named(e)) /\ sr' = sr)
     /\ out' = (IF Named(e) THEN [fsize |-> 0, lost |-> 0] ELSE [lost |-> 0])
  \/ e.op = "back" /\ UNCHANGED <<c, smin>> /\ con' = (IF (e.s = 1 /\ sr) \/ (e.s = 0 /\ xr) THEN "tty" ELSE con)
     /\ (IF e.s = 1 THEN sr' = FALSE /\ xr' = xr ELSE xr' = FALSE /\ sr' = sr) /\ out' = [lost |-> 0]
Inv == /\ c.min \in 0..5 /\ c.target >= 0 /\ c.format >= 0 /\ c.flush >= 0 /\ c.tz \in -12..12 /\ Len(c.tag) <= 23
(* whatever is emitted is at or above the minimum, and only to enabled targets *)
Exact == \A lev \in 0..6 : Enabled(c.target, c.min, lev) => lev >= c.min /\ c.min > 0 /\ lev \in 1..5
=============================================================================
