---- MODULE MC_Time ----
(* the day-to-date function against the calendar's own rule: the day after *)
EXTENDS Time
CONSTANTS From, Count
VARIABLE day
Init == InitCfg(0) /\ day = From
Next == day < From + Count /\ day' = day + 1 /\ UNCHANGED <<up, out>>
After(x) == IF x.mday < MonthLen(x.year, x.mon) THEN [x EXCEPT !.mday = @ + 1, !.wday = (@ + 1) % 7, !.yday = @ + 1]
            ELSE IF x.mon < 12 THEN [x EXCEPT !.mday = 1, !.mon = @ + 1, !.wday = (@ + 1) % 7, !.yday = @ + 1]
            ELSE [x EXCEPT !.mday = 1, !.mon = 1, !.year = @ + 1, !.wday = (@ + 1) % 7, !.yday = 0]
Steps == Date(day + 1) = After(Date(day))
Epoch == day = 0 => Date(0) = [year |-> 1970, mon |-> 1, mday |-> 1, wday |-> 4, yday |-> 0]
====
