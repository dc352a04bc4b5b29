------------------------------ MODULE LogText ------------------------------
(* The text of one log record as a function of the settings, the call and the clock (C20). *)
EXTENDS Integers, Sequences, TLC
LOCAL T == INSTANCE Time WITH up <- TRUE, out <- <<>>
LOCAL S == INSTANCE Strings WITH up <- TRUE, out <- <<>>
LTake(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Bit(n, b) == (n \div b) % 2 = 1
LevelChar(lev) == <<86, 68, 73, 87, 69>>[lev]
Pad8(s) == IF Len(s) >= 8 THEN s ELSE s \o [i \in 1..(8 - Len(s)) |-> 32]
RECURSIVE Right5(_, _)
Right5(n, w) == IF w = 0 THEN <<>> ELSE Right5(n \div 10, w - 1) \o (IF n = 0 THEN <<32>> ELSE <<48 + (n % 10)>>)
Shown == 22                                  \* characters of a tag that a header shows
(* enabled: there is a target, logging is not off, the level is real and not below the minimum *)
Enabled(target, min, lev) == target # 0 /\ min # 0 /\ lev >= min /\ lev < 6
Raised(up, lev) == IF up # 0 /\ lev < up THEN up ELSE lev
HeadParts(c, e, lev, tag) ==
  (IF Bit(c.format, 2) THEN T!Stamp([d |-> e.d, s |-> e.s, us |-> e.us, tz |-> c.tz, file |-> FALSE]) ELSE <<>>)
  \o (IF Bit(c.format, 4) THEN <<32, LevelChar(lev), 47>> \o Pad8(LTake(tag, Shown)) ELSE <<>>)
  \o (IF Bit(c.format, 8) THEN <<40>> \o Right5(e.thr, 5) \o <<41>> ELSE <<>>)
HeadText(c, e, lev, tag) == LET h == HeadParts(c, e, lev, tag) IN IF h = <<>> THEN <<>> ELSE h \o <<58, 32>>
(* a function name of up to 400 bytes is shown whole, a longer one may be cut *)
Where(func, k, line) == IF line > 0 THEN <<40>> \o LTake(func, k) \o <<58>> \o S!Dec(line) \o <<41, 32>> ELSE <<>>
Cuts(func) == IF Len(func) <= 400 THEN {Len(func)} ELSE 400..Len(func)
Dump(data, cap) == S!Hex([cap |-> cap, data |-> data])
DecText(n) == S!Dec(n)
=============================================================================
