------------------------------ MODULE NumText ------------------------------
(* Numbers as byte sequences: C integer syntax (base 0) to decimal text, ranges, decimal fractions. *)
EXTENDS Integers, Sequences
NONE == <<>>
(* ---- numbers *)
Digit(b) == b >= 48 /\ b <= 57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
Space(b) == b = 32 \/ (b >= 9 /\ b <= 13)
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ Space(Head(s)) THEN Trim(Tail(s)) ELSE s
Signed(s) == s # <<>> /\ Head(s) \in {43, 45}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Neg(s) == s # <<>> /\ Head(s) = 45
HexD(b) == Digit(b) \/ (b >= 97 /\ b <= 102) \/ (b >= 65 /\ b <= 70)
HexV(b) == IF Digit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
RECURSIVE Num(_, _, _)
Num(s, base, acc) == IF s = <<>> THEN acc ELSE Num(Tail(s), base, acc * base + HexV(Head(s)))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Sgn(neg, t) == IF neg /\ t # <<48>> THEN <<45>> \o t ELSE t
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Leq(Tail(a), Tail(b))
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Leq(a, b))
I32 == [p |-> <<50,49,52,55,52,56,51,54,52,55>>, n |-> <<50,49,52,55,52,56,51,54,52,56>>]
I64 == [p |-> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, n |-> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>]
(* the C rules for base 0: decimal, 0... octal, 0x... hexadecimal; the result as decimal text, or NONE.
   Hexadecimal and octal numbers are only used within 28 bits. *)
IntText(v) == LET t == Trim(v) b == Body(t) IN
  IF Len(b) >= 3 /\ b[1] = 48 /\ b[2] \in {120, 88} /\ \A i \in 3..Len(b) : HexD(b[i]) THEN Sgn(Neg(t), Dec(Num(SubSeq(b, 3, Len(b)), 16, 0)))
  ELSE IF ~AllDigits(b) THEN NONE
  ELSE IF b[1] = 48 THEN IF \E i \in 1..Len(b) : b[i] > 55 THEN NONE ELSE Sgn(Neg(t), Dec(Num(b, 8, 0)))
  ELSE Sgn(Neg(t), b)
InRange(t, r) == IF t[1] = 45 THEN AtMost(Tail(t), r.n) ELSE AtMost(t, r.p)
(* texts of the form [-]digits.dddddddddd, and short plain integers, are doubles we can name *)
Dot(s) == {i \in 1..Len(s) : s[i] = 46}
Canon10(s) == LET b == IF Neg(s) THEN Tail(s) ELSE s IN
  \E i \in Dot(b) : i > 1 /\ i = Len(b) - 10 /\ AllDigits(SubSeq(b, 1, i - 1)) /\ AllDigits(SubSeq(b, i + 1, Len(b))) /\ (i = 2 \/ b[1] # 48)
Zeros10 == <<46,48,48,48,48,48,48,48,48,48,48>>
PlainInt(s) == AllDigits(s) /\ Len(s) <= 15 /\ (Len(s) = 1 \/ s[1] # 48)
NotANumber(s) == LET b == Body(Trim(s)) IN b = <<>> \/ (Head(b) >= 64 /\ Head(b) \notin {73, 105, 78, 110}) \/ (~Digit(Head(b)) /\ Head(b) < 64 /\ Head(b) # 46) \/ b[Len(b)] \in {122, 61}

=============================================================================
