-------------------------------- MODULE Codec --------------------------------
(* base64 (RFC 4648, padded) and URL form encoding as functions over byte sequences (C25). *)
EXTENDS Integers, Sequences, TLC
VARIABLES up, out
vars == <<up, out>>
InitCfg(c) == up = TRUE /\ out = [ok |-> TRUE]
Min(a, b) == IF a < b THEN a ELSE b
(* ---- base64 alphabet *)
Ch(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
Upper(b) == b >= 65 /\ b <= 90
Lower(b) == b >= 97 /\ b <= 122
Digit(b) == b >= 48 /\ b <= 57
IsB64(b) == Upper(b) \/ Lower(b) \/ Digit(b) \/ b = 43 \/ b = 47
Val(b) == IF Upper(b) THEN b - 65 ELSE IF Lower(b) THEN b - 71 ELSE IF Digit(b) THEN b + 4 ELSE IF b = 43 THEN 62 ELSE 63
RECURSIVE Enc64(_)
Enc64(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Len(s) = 1 THEN <<Ch(s[1] \div 4), Ch((s[1] % 4) * 16), 61, 61>>
  ELSE IF Len(s) = 2 THEN <<Ch(s[1] \div 4), Ch((s[1] % 4) * 16 + s[2] \div 16), Ch((s[2] % 16) * 4), 61>>
  ELSE <<Ch(s[1] \div 4), Ch((s[1] % 4) * 16 + s[2] \div 16), Ch((s[2] % 16) * 4 + s[3] \div 64), Ch(s[3] % 64)>> \o Enc64(SubSeq(s, 4, Len(s)))
(* decoding reads the leading run of alphabet bytes; a single left-over byte carries nothing *)
RECURSIVE Lead(_)
Lead(s) == IF s # <<>> /\ IsB64(Head(s)) THEN <<Head(s)>> \o Lead(Tail(s)) ELSE <<>>
RECURSIVE Dec64(_)
Dec64(s) ==
  IF Len(s) < 2 THEN <<>>
  ELSE LET a == Val(s[1]) b == Val(s[2]) IN <<a * 4 + b \div 16>> \o
    IF Len(s) = 2 THEN <<>>
    ELSE LET c == Val(s[3]) IN <<(b % 16) * 16 + c \div 4>> \o
      IF Len(s) = 3 THEN <<>> ELSE <<(c % 4) * 64 + Val(s[4])>> \o Dec64(SubSeq(s, 5, Len(s)))
EncSize(n) == ((n + 2) \div 3) * 4 + 1
DecSize(n) == ((n + 3) \div 4) * 3 + 1
(* fewer than two bytes are not encoded by this library *)
B64Enc(e) == \/ e.data # <<>> /\ out' = [ret |-> Len(Enc64(e.data)) + 1, text |-> Enc64(e.data), size |-> EncSize(Len(e.data))]
             \/ Len(e.data) < 2 /\ out' = [ret |-> -1, size |-> EncSize(Len(e.data))]
B64Dec(e) == LET d == Dec64(Lead(e.s)) IN out' = [ret |-> Len(d), data |-> d, term |-> TRUE, size |-> DecSize(Len(e.s))]
(* ---- URL encoding *)
Plain(b) == Upper(b) \/ Lower(b) \/ Digit(b) \/ b \in {46, 45, 42, 95}
HexU(n) == IF n < 10 THEN 48 + n ELSE 55 + n
One(b) == IF Plain(b) THEN <<b>> ELSE IF b = 32 THEN <<43>> ELSE <<37, HexU(b \div 16), HexU(b % 16)>>
RECURSIVE UrlEnc(_)
UrlEnc(s) == IF s = <<>> THEN <<>> ELSE One(Head(s)) \o UrlEnc(Tail(s))
UEnc(e) == LET t == UrlEnc(e.data) IN
  \/ Len(t) + 1 <= e.cap /\ out' = [ret |-> Len(t), text |-> t, term |-> TRUE]
  \/ (e.data = <<>> \/ Len(t) + 1 > e.cap) /\ out' = [refused |-> TRUE]
(* ---- URL decoding: until the input ends, the buffer is full or an escape is cut off at the end *)
IsHex(b) == Digit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexV(b) == IF Digit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
RECURSIVE UDec(_, _, _, _)
UDec(s, i, room, acc) ==
  IF i > Len(s) \/ room = 0 THEN [bad |-> FALSE, data |-> acc, pos |-> i - 1]
  ELSE IF s[i] = 43 THEN UDec(s, i + 1, room - 1, Append(acc, 32))
  ELSE IF s[i] = 37 THEN
         IF i + 2 > Len(s) THEN [bad |-> FALSE, data |-> acc, pos |-> i - 1]
         ELSE IF IsHex(s[i + 1]) /\ IsHex(s[i + 2]) THEN UDec(s, i + 3, room - 1, Append(acc, HexV(s[i + 1]) * 16 + HexV(s[i + 2])))
         ELSE [bad |-> TRUE, data |-> <<>>, pos |-> 0]
  ELSE IF Plain(s[i]) THEN UDec(s, i + 1, room - 1, Append(acc, s[i]))
  ELSE [bad |-> TRUE, data |-> <<>>, pos |-> 0]
UrlDec(e) == LET r == UDec(e.s, 1, e.cap - 1, <<>>) IN
  IF e.s = <<>> \/ e.cap < 2 THEN out' = [refused |-> TRUE]
  ELSE IF r.bad THEN out' = [refused |-> TRUE]
  ELSE out' = [ret |-> Len(r.data), data |-> r.data, term |-> TRUE] @@ (IF "nolast" \in DOMAIN e THEN [refused |-> FALSE] ELSE [pos |-> r.pos])
(* long inputs: the input is a block repeated e.times times, where each function maps a
   repetition to the repetition of the block's image (MC_Codec checks that on small blocks) *)
Rep(s, k) == [i \in 1..(Len(s) * k) |-> s[((i - 1) % Len(s)) + 1]]
DoRep(e) ==
  LET k == e.times IN
  \/ /\ e.op = "b64enc" /\ Len(e.data) % 3 = 0
     /\ LET t == Rep(Enc64(e.data), k) IN out' = [ret |-> Len(t) + 1, text |-> t, size |-> EncSize(Len(e.data) * k)]
  \/ /\ e.op = "b64dec" /\ Len(e.s) % 4 = 0 /\ Len(Lead(e.s)) = Len(e.s)
     /\ LET d == Rep(Dec64(e.s), k) IN out' = [ret |-> Len(d), data |-> d, term |-> TRUE, size |-> DecSize(Len(e.s) * k)]
  \/ /\ e.op = "urlenc"
     /\ LET t == Rep(UrlEnc(e.data), k) IN
        out' = IF Len(t) + 1 <= e.cap THEN [ret |-> Len(t), text |-> t, term |-> TRUE] ELSE [refused |-> TRUE]
  \/ /\ e.op = "urldec"
     /\ LET r == UDec(e.s, 1, Len(e.s), <<>>) d == Rep(r.data, k) IN
        /\ ~r.bad /\ r.pos = Len(e.s) /\ e.cap > Len(d)
        /\ out' = [ret |-> Len(d), data |-> d, term |-> TRUE, pos |-> Len(e.s) * k]
Do(e) == /\ UNCHANGED up
         /\ IF "times" \in DOMAIN e THEN DoRep(e) ELSE
            \/ e.op = "b64enc" /\ B64Enc(e)
            \/ e.op = "b64dec" /\ B64Dec(e)
            \/ e.op = "urlenc" /\ UEnc(e)
            \/ e.op = "urldec" /\ UrlDec(e)
Inv == up
=============================================================================
