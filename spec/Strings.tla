------------------------------- MODULE Strings -------------------------------
(* The string helpers as functions over byte sequences (C24).  A C string is the sequence of its bytes;
   an output buffer of n bytes holds a string of at most n - 1 bytes. *)
EXTENDS Integers, Sequences, TLC, NumText
VARIABLES up, out
vars == <<up, out>>
InitCfg(c) == up = TRUE /\ out = [ok |-> TRUE]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
In(b, s) == \E i \in 1..Len(s) : s[i] = b
(* ---- bounded copy: result text, and the length that was wanted *)
Cpy(e) == [ret |-> Len(e.src)] @@ IF e.size = 0 THEN [text |-> <<>>] ELSE [text |-> Take(e.src, e.size - 1)]
(* the destination holds e.dst; if that already fills e.size bytes nothing is appended *)
Cat(e) == [ret |-> Len(e.src) + Min(e.size, Len(e.dst)),
           text |-> IF e.size <= Len(e.dst) THEN e.dst ELSE e.dst \o Take(e.src, e.size - 1 - Len(e.dst))]
(* ---- replacing: leftmost non-overlapping occurrences; the empty pattern occurs nowhere *)
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Subst(_, _, _)
Subst(s, p, r) == IF s = <<>> THEN <<>>
                  ELSE IF Prefix(p, s) THEN r \o Subst(SubSeq(s, Len(p) + 1, Len(s)), p, r)
                  ELSE <<Head(s)>> \o Subst(Tail(s), p, r)
Replace(s, p, r) == IF p = <<>> THEN s ELSE Subst(s, p, r)
(* ---- splitting at any byte of d; empty pieces do not count *)
RECURSIVE Pieces(_, _, _)
Pieces(s, d, cur) == LET done == IF cur = <<>> THEN <<>> ELSE <<cur>> IN
  IF s = <<>> THEN done
  ELSE IF In(Head(s), d) THEN done \o Pieces(Tail(s), d, <<>>)
  ELSE Pieces(Tail(s), d, Append(cur, Head(s)))
(* ---- trimming a byte set from both ends *)
RECURSIVE TrimL(_, _)
TrimL(s, d) == IF s # <<>> /\ In(Head(s), d) THEN TrimL(Tail(s), d) ELSE s
RECURSIVE TrimR(_, _)
TrimR(s, d) == IF s # <<>> /\ In(s[Len(s)], d) THEN TrimR(SubSeq(s, 1, Len(s) - 1), d) ELSE s
(* ---- UTF-8: a code point starts at every byte that is not 10xxxxxx *)
Utf8(s) == LET S == {i \in 1..Len(s) : s[i] \div 64 # 2} IN IF S = {} THEN 0 ELSE LET RECURSIVE Card(_) Card(n) == IF n = 0 THEN 0 ELSE Card(n - 1) + (IF n \in S THEN 1 ELSE 0) IN Card(Len(s))
UpToNul(s) == LET Z == {i \in 1..Len(s) : s[i] = 0} IN IF Z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)
(* ---- hexadecimal dump *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexAll(_)
HexAll(s) == IF s = <<>> THEN <<>> ELSE <<32, HexDigit(Head(s) \div 16), HexDigit(Head(s) % 16)>> \o HexAll(Tail(s))
Notice(n) == <<104,101,120,32,116,114,117,110,99,97,116,101,100,40>> \o Dec(n) \o <<41,58>>
(* too small a buffer holds a terminated beginning of the announcement and the bytes that still fit whole *)
Hex(e) == IF e.cap >= 3 * Len(e.data) + 1 THEN HexAll(e.data)
          ELSE IF e.cap = 0 THEN <<>>
          ELSE LET t == Take(Notice(Len(e.data)), e.cap - 1)
               IN t \o HexAll(Take(e.data, (e.cap - 1 - Len(t)) \div 3))
(* ---- ASCII case *)
Up(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
Low(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Sign(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1
(* long inputs: the main text is a block repeated e.times times (MC_Strings checks on small
   blocks that the functions map repetitions as stated here) *)
Rep(s, k) == [i \in 1..(Len(s) * k) |-> s[((i - 1) % Len(s)) + 1]]
(* no occurrence of p begins inside the block and ends outside it *)
Inside(p, s) == \A i \in 1..Len(s) : Prefix(SubSeq(p, 1, Min(Len(p), Len(s) - i + 1)), SubSeq(s, i, Len(s))) => i + Len(p) - 1 <= Len(s)
DoRep(e) ==
  LET k == e.times IN
  \/ e.op = "cpy" /\ LET t == Rep(e.src, k) IN out' = [ret |-> Len(t), text |-> Take(t, e.size - 1)] /\ e.size > 0
  \/ e.op = "cat" /\ LET t == Rep(e.src, k) IN out' = [ret |-> Len(t) + Len(e.dst), text |-> e.dst \o Take(t, e.size - 1 - Len(e.dst))] /\ e.size > Len(e.dst)
  \/ e.op = "replace" /\ e.failed = 0 /\ e.pat # <<>> /\ Inside(e.pat, e.s) /\ Replace(e.s, e.pat, e.rep) # <<>> /\ out' = [text |-> Rep(Replace(e.s, e.pat, e.rep), k)]
  \/ e.op = "split" /\ In(e.s[Len(e.s)], e.delim) /\ Pieces(e.s, e.delim, <<>>) # <<>> /\ out' = [tokens |-> Take(Rep(Pieces(e.s, e.delim, <<>>), k), e.max)]
  \/ e.op = "trim" /\ (IF \A i \in 1..Len(e.s) : In(e.s[i], e.cset) THEN out' = [text |-> <<>>]
                       ELSE ~In(Head(e.s), e.cset) /\ ~In(e.s[Len(e.s)], e.cset) /\ out' = [text |-> Rep(e.s, k)])
  \/ e.op = "utf8" /\ out' = [ret |-> k * Utf8(e.s)]
  \/ e.op = "utf8n" /\ e.max % Len(e.s) = 0 /\ e.max <= Len(e.s) * k /\ out' = [ret |-> (e.max \div Len(e.s)) * Utf8(e.s)]
  \/ e.op = "hex" /\ e.cap >= 3 * Len(e.data) * k + 1 /\ out' = [text |-> Rep(HexAll(e.data), k), ret |-> 3 * Len(e.data) * k, term |-> TRUE]
  \/ e.op = "hex" /\ e.cap < 3 * Len(e.data) * k + 1 /\ e.cap > 60
       /\ LET t == Notice(Len(e.data) * k) m == (e.cap - 1 - Len(t)) \div 3
          IN out' = [text |-> t \o Take(Rep(HexAll(e.data), k), 3 * m), ret |-> Len(t) + 3 * m, term |-> TRUE]
  \/ e.op = "upper" /\ out' = [text |-> Map(Up, Rep(e.s, k))]
  \/ e.op = "lower" /\ out' = [text |-> Map(Low, Rep(e.s, k))]
Do(e) == /\ UNCHANGED up
         /\ IF "times" \in DOMAIN e THEN DoRep(e) ELSE
            \/ e.op = "cpy" /\ out' = Cpy(e)
            \/ e.op = "cat" /\ out' = Cat(e)
            \/ e.op = "replace" /\ e.failed = 0 /\ out' = [text |-> Replace(e.s, e.pat, e.rep)]
            \/ e.op = "replace" /\ e.failed > 0 /\ out' = [isnull |-> TRUE]
            \/ e.op = "split" /\ out' = [tokens |-> Take(Pieces(e.s, e.delim, <<>>), e.max)]
            \/ e.op = "trim" /\ out' = [text |-> TrimR(TrimL(e.s, e.cset), e.cset)]
            \/ e.op = "utf8" /\ out' = [ret |-> Utf8(e.s)]
            \/ e.op = "utf8n" /\ out' = [ret |-> Utf8(UpToNul(Take(e.s, e.max)))]
            \/ e.op = "hex" /\ out' = [text |-> Hex(e), ret |-> Len(Hex(e)), term |-> e.cap > 0]
            \/ e.op = "upper" /\ out' = [text |-> Map(Up, e.s)]
            \/ e.op = "lower" /\ out' = [text |-> Map(Low, e.s)]
            \/ e.op = "icmp" /\ out' = [ret |-> Sign(Map(Low, e.s), Map(Low, e.r))]
            \/ e.op = "nicmp" /\ out' = [ret |-> Sign(Map(Low, Take(e.s, e.max)), Map(Low, Take(e.r, e.max)))]
            \/ e.op = "fmtlen" /\ out' = [ret |-> Len(e.s) + Len(Dec(e.n)) + 1]
(* what must hold of the definitions themselves *)
Inv == up
=============================================================================
