-------------------------------- MODULE Time ---------------------------------
(* Calendar conversions and time texts (C22).  An instant is a day number d (0 = 1970-01-01) and a second s of
   that day; the calendar is the Gregorian one, given by year lengths and month lengths.  The time cache has no
   place here: the texts are functions of the clock alone. *)
EXTENDS Integers, Sequences, TLC
VARIABLES up, out
vars == <<up, out>>
InitCfg(c) == up = TRUE /\ out = [ok |-> TRUE]
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Leaps(y) == y \div 4 - y \div 100 + y \div 400
DayOfYear1(y) == 365 * (y - 1970) + Leaps(y - 1) - Leaps(1969)     \* day number of 1 January
YearOf(d) == LET g == 1970 + d \div 366 IN CHOOSE y \in g..(g + 3 + d \div 60000) : DayOfYear1(y) <= d /\ d < DayOfYear1(y + 1)
RECURSIVE MonthOf(_, _, _)
MonthOf(y, n, m) == IF n < MonthLen(y, m) THEN [mon |-> m, mday |-> n + 1] ELSE MonthOf(y, n - MonthLen(y, m), m + 1)
Date(d) == LET y == YearOf(d) md == MonthOf(y, d - DayOfYear1(y), 1)
           IN [year |-> y, mon |-> md.mon, mday |-> md.mday, wday |-> (d + 4) % 7, yday |-> d - DayOfYear1(y)]
Clock(s) == [hour |-> s \div 3600, min |-> (s \div 60) % 60, sec |-> s % 60]
(* the same instant on a clock tz hours ahead *)
LocalDay(d, s, tz) == LET t == s + tz * 3600 IN IF t < 0 THEN d - 1 ELSE IF t >= 86400 THEN d + 1 ELSE d
LocalSec(s, tz) == (s + tz * 3600) % 86400
Local(e) == Date(LocalDay(e.d, e.s, e.tz)) @@ Clock(LocalSec(e.s, e.tz)) @@ [isdst |-> 0, ret |-> 0]
(* ---- sweeps: the driver merges neighbouring instants whose fields advance regularly; the ends of each run decide *)
(* days: same second of the day, each run within one month *)
DayRun(e, r) == LET a == Date(LocalDay(r.d, e.s, e.tz)) b == Date(LocalDay(r.d + r.n - 1, e.s, e.tz)) IN
  /\ r.n >= 1
  /\ a.year = r.year /\ a.mon = r.mon /\ a.mday = r.mday /\ a.wday = r.wday /\ a.yday = r.yday
  /\ b.year = r.year /\ b.mon = r.mon /\ b.mday = r.mday + r.n - 1 /\ b.yday = r.yday + r.n - 1
RECURSIVE Chain(_, _, _)
Chain(runs, i, d) == IF i > Len(runs) THEN d ELSE IF runs[i].d # d THEN -999999 ELSE Chain(runs, i + 1, d + runs[i].n)
Days(e) == /\ \A i \in 1..Len(e.runs) : DayRun(e, e.runs[i])
           /\ Chain(e.runs, 1, e.d) = e.to + 1
           /\ out' = [hms |-> LocalSec(e.s, e.tz)]
(* seconds of one UTC day: normalised clock fields that count up by one, on one date *)
SecRun(e, r) == LET x == Date(LocalDay(e.d, r.s, e.tz)) IN
  /\ r.n >= 1 /\ LocalDay(e.d, r.s, e.tz) = LocalDay(e.d, r.s + r.n - 1, e.tz)
  /\ r.hms = LocalSec(r.s, e.tz) /\ x.year = r.year /\ x.mon = r.mon /\ x.mday = r.mday
RECURSIVE ChainS(_, _, _)
ChainS(runs, i, s) == IF i > Len(runs) THEN s ELSE IF runs[i].s # s THEN -999999 ELSE ChainS(runs, i + 1, s + runs[i].n)
Secs(e) == /\ \A i \in 1..Len(e.runs) : SecRun(e, e.runs[i])
           /\ ChainS(e.runs, 1, 0) = 86400
           /\ out' = [ok |-> TRUE]
(* ---- texts *)
P2(n) == <<48 + n \div 10, 48 + (n % 10)>>
P3(n) == <<48 + n \div 100>> \o P2(n % 100)
P4(n) == P2(n \div 100) \o P2(n % 100)
Stamp(e) == LET x == Local(e) IN
  IF e.file THEN P2(x.mon) \o P2(x.mday) \o P2(x.hour) \o P2(x.min) \o P2(x.sec) \o <<46>> \o P3(e.us \div 1000)
  ELSE P2(x.mon) \o <<45>> \o P2(x.mday) \o <<32>> \o P2(x.hour) \o <<58>> \o P2(x.min) \o <<58>> \o P2(x.sec) \o <<46>> \o P3(e.us \div 1000)
DayName(w) == <<<<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>>>[w + 1]
MonName(m) == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
                <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>[m]
Rfc(e) == LET x == Date(e.d) c == Clock(e.s) IN
  DayName(x.wday) \o <<44,32>> \o P2(x.mday) \o <<32>> \o MonName(x.mon) \o <<32>> \o P4(x.year) \o <<32>>
  \o P2(c.hour) \o <<58>> \o P2(c.min) \o <<58>> \o P2(c.sec) \o <<32>>
  \o (CASE e.kind = "1123" -> <<71,77,84>> [] e.kind = "2822" -> <<43,48,48,48,48>> [] OTHER -> <<85,84,67>>)
RfcOut(e) == IF e.size >= Len(Rfc(e)) + 1 /\ ~e.small THEN [ret |-> 0, text |-> Rfc(e)] ELSE [refused |-> TRUE, untouched |-> TRUE]
Do(e) == /\ UNCHANGED up
         /\ \/ e.op = "date" /\ out' = Local(e)
            \/ e.op = "days" /\ Days(e)
            \/ e.op = "secs" /\ Secs(e)
            \/ e.op = "str" /\ out' = [text |-> Stamp(e), ret |-> Len(Stamp(e))]
            \/ e.op = "cur" /\ out' = [text |-> Stamp(e), ret |-> Len(Stamp(e))]
            \/ e.op = "ms" /\ out' = [day |-> e.d, ms |-> e.s * 1000 + e.us \div 1000]
            \/ e.op = "rfc" /\ out' = RfcOut(e)
            \/ e.op = "zone" /\ out' = [ret |-> e.offset]
            \/ e.op = "init" /\ out' = [ret |-> 0]
            \/ e.op = "cleanup" /\ out' = [ret |-> 0]
Inv == up
=============================================================================
