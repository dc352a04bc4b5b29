-------------------------------- MODULE Ini --------------------------------
(* An INI document: an ordered list of sections with ordered keys, names compared without
   regard to case (C18), and its text form (C19).  Strings are sequences of bytes.
   doc is a sequence of [s |-> name, kv |-> sequence of [k |-> key, v |-> value]].      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, NumText
VARIABLES up, doc, made, out
vars == <<up, doc, made, out>>
InitCfg(c) == up = FALSE /\ doc = <<>> /\ made = 0 /\ out = [ok |-> TRUE]
OK == 0 FAILED == 1 INVALID == 2 NOMEM == 3 MISSING == 4

(* ---- names *)
Low(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Low(a[i]) = Low(b[i])
SecAt(d, s) == {i \in 1..Len(d) : Same(d[i].s, s)}
KeyAt(kv, k) == {j \in 1..Len(kv) : Same(kv[j].k, k)}
The(S) == CHOOSE i \in S : TRUE
Put(d, s, k, v) ==
  IF SecAt(d, s) = {} THEN Append(d, [s |-> s, kv |-> <<[k |-> k, v |-> v]>>])
  ELSE LET i == The(SecAt(d, s)) kv == d[i].kv IN
       [d EXCEPT ![i].kv = IF KeyAt(kv, k) = {} THEN Append(kv, [k |-> k, v |-> v])
                           ELSE [kv EXCEPT ![The(KeyAt(kv, k))].v = v]]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* ---- text form: reading *)
LF == 10  SEMI == 59  HASH == 35  LBR == 91  RBR == 93
MaxLine == 383
RECURSIVE Lines(_)
Lines(t) == IF t = <<>> THEN <<>>
            ELSE LET C == {i \in 1..Len(t) : t[i] = LF} IN
                 IF C = {} THEN <<t>>
                 ELSE LET i == CHOOSE i \in C : \A j \in C : i <= j IN <<SubSeq(t, 1, i)>> \o Lines(SubSeq(t, i + 1, Len(t)))
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
LStrip(s) == Trim(s)
Strip(s) == LStrip(RStrip(s))
(* the first position of a byte of cs or of an inline comment (white space, then ';'); Len+1 if none *)
Stops(s, cs) == {i \in 1..Len(s) : s[i] \in cs \/ (i > 1 /\ s[i] = SEMI /\ Space(s[i - 1]))}
Stop(s, cs) == IF Stops(s, cs) = {} THEN Len(s) + 1 ELSE CHOOSE i \in Stops(s, cs) : \A j \in Stops(s, cs) : i <= j
UpTo(s, i) == SubSeq(s, 1, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))
(* st: [sec, prev, doc, err] *)
Pair(st, k, v) == IF st.sec = <<>> \/ k = <<>> THEN [st EXCEPT !.err = TRUE] ELSE [st EXCEPT !.doc = Put(st.doc, st.sec, k, v)]
Bom(l) == Len(l) >= 3 /\ l[1] = 239 /\ l[2] = 187 /\ l[3] = 191
Line(st, raw, first) ==
  IF Len(raw) > MaxLine THEN [st EXCEPT !.err = TRUE]
  ELSE LET l == IF first /\ Bom(raw) THEN SubSeq(raw, 4, Len(raw)) ELSE raw
           t == Strip(l)
           indented == (first /\ Bom(raw)) \/ (l # <<>> /\ Space(l[1])) IN
       IF t = <<>> \/ t[1] \in {SEMI, HASH} THEN st
       ELSE IF st.prev # <<>> /\ indented THEN Pair(st, st.prev, RStrip(UpTo(t, Stop(t, {}))))
       ELSE IF t[1] = LBR
         THEN LET r == After(t, 1) i == Stop(r, {RBR}) IN
              IF i <= Len(r) /\ r[i] = RBR THEN [st EXCEPT !.sec = UpTo(r, i), !.prev = <<>>] ELSE [st EXCEPT !.err = TRUE]
       ELSE LET i == Stop(t, {61, 58}) IN
            IF i <= Len(t) /\ t[i] \in {61, 58}
              THEN LET k == RStrip(UpTo(t, i)) w == After(t, i) v == Strip(UpTo(w, Stop(w, {}))) IN
                   [Pair(st, k, v) EXCEPT !.prev = k]
            ELSE Pair(st, RStrip(UpTo(t, i)), <<>>)
RECURSIVE Run(_, _, _)
Run(ls, st, first) == IF ls = <<>> THEN st ELSE Run(Tail(ls), Line(st, Head(ls), first), FALSE)
Parse(t) == Run(Lines(t), [sec |-> <<>>, prev |-> <<>>, doc |-> <<>>, err |-> FALSE], TRUE)

(* ---- text form: writing *)
CRLF == <<13, 10>>
RECURSIVE DumpKv(_)
DumpKv(kv) == IF kv = <<>> THEN <<>> ELSE Head(kv).k \o <<32, 61, 32>> \o Head(kv).v \o CRLF \o DumpKv(Tail(kv))
RECURSIVE Dump(_)
Dump(d) == IF d = <<>> THEN <<>> ELSE <<LBR>> \o Head(d).s \o <<RBR>> \o CRLF \o DumpKv(Head(d).kv) \o CRLF \o Dump(Tail(d))
(* documents whose text form is unambiguous *)
NoComment(s) == Stops(s, {LF}) = {}
CleanSec(s) == s # <<>> /\ NoComment(s) /\ \A i \in 1..Len(s) : s[i] # RBR
CleanKey(k) == k # <<>> /\ NoComment(k) /\ Strip(k) = k /\ k[1] \notin {SEMI, HASH, LBR} /\ \A i \in 1..Len(k) : k[i] \notin {61, 58}
CleanVal(v) == NoComment(v) /\ Strip(v) = v /\ (v = <<>> \/ v[1] # SEMI)
CleanDoc(d) == \A i \in 1..Len(d) : CleanSec(d[i].s) /\ \A j \in 1..Len(d[i].kv) : CleanKey(d[i].kv[j].k) /\ CleanVal(d[i].kv[j].v)
NonEmpty(d) == SelectSeq(d, LAMBDA x : x.kv # <<>>)
RECURSIVE Flat(_)
Flat(d) == IF d = <<>> THEN <<>> ELSE [j \in 1..Len(Head(d).kv) |-> [s |-> Head(d).s, k |-> Head(d).kv[j].k, v |-> Head(d).kv[j].v]] \o Flat(Tail(d))

(* ---- operations *)
Stay == UNCHANGED <<up, doc, made>>
RECURSIVE Sum(_)
Sum(d) == IF d = <<>> THEN 0 ELSE Len(Head(d).s) + 6 + Sum(Tail(d))
Open(t) == LET p == Parse(t) IN
           IF p.err THEN up' = FALSE /\ doc' = <<>> /\ made' = 0 /\ out' = [ok |-> FALSE]
           ELSE up' = TRUE /\ doc' = p.doc /\ made' = Sum(p.doc) /\ out' = [ok |-> TRUE]
Load(e) == IF Len(e.str) < 6 THEN UNCHANGED <<up, doc, made>> /\ out' = [ok |-> FALSE] ELSE Open(e.str)
PutOp(e) ==
  LET new == SecAt(doc, e.sec) = {} IN
  /\ UNCHANGED up
  /\ IF e.sec = <<>> \/ e.key = <<>> THEN UNCHANGED <<doc, made>> /\ out' = [r |-> INVALID]
     ELSE \/ /\ (IF e.failed = 0 THEN TRUE ELSE e.r = OK)
             /\ doc' = Put(doc, e.sec, e.key, e.val) /\ made' = made + (IF new THEN Len(e.sec) + 6 ELSE 0) /\ out' = [r |-> OK]
          \* out of memory: nothing but perhaps the empty section is there
          \/ /\ e.failed > 0 /\ e.r \in {NOMEM, FAILED} /\ out' = [r |-> e.r]
             /\ \/ UNCHANGED <<doc, made>>
                \/ new /\ doc' = Append(doc, [s |-> e.sec, kv |-> <<>>]) /\ made' = made + Len(e.sec) + 6
Look(s, k) == \* <<>> or <<value>>
  IF SecAt(doc, s) = {} THEN <<>> ELSE LET kv == doc[The(SecAt(doc, s))].kv IN IF KeyAt(kv, k) = {} THEN <<>> ELSE <<kv[The(KeyAt(kv, k))].v>>
LookCode(s, k) == IF s = <<>> THEN INVALID ELSE IF SecAt(doc, s) = {} THEN MISSING ELSE IF k = <<>> THEN INVALID
                  ELSE IF Look(s, k) = <<>> THEN MISSING ELSE OK
Get(e) == /\ Stay
          /\ LET c == LookCode(e.sec, e.key) IN
             out' = IF c # OK THEN [r |-> c, same |-> TRUE]
                    ELSE LET v == Look(e.sec, e.key)[1] IN
                         IF e.size = 0 THEN [r |-> OK, same |-> TRUE]
                         ELSE IF e.size <= Len(v) THEN [r |-> NOMEM, same |-> TRUE]
                         ELSE [r |-> OK, val |-> v]
HasKey(e) == Stay /\ out' = [r |-> LookCode(e.sec, e.key)]
HasSec(e) == Stay /\ out' = [r |-> IF e.sec = <<>> THEN INVALID ELSE IF SecAt(doc, e.sec) = {} THEN MISSING ELSE OK]
DelKey(e) == /\ UNCHANGED <<up, made>>
             /\ IF Look(e.sec, e.key) = <<>> THEN doc' = doc /\ out' = [r |-> MISSING]
                ELSE LET i == The(SecAt(doc, e.sec)) IN
                     doc' = [doc EXCEPT ![i].kv = Drop(@, The(KeyAt(@, e.key)))] /\ out' = [r |-> OK]
DelSec(e) == /\ UNCHANGED <<up, made>>
             /\ IF SecAt(doc, e.sec) = {} THEN doc' = doc /\ out' = [r |-> MISSING]
                ELSE doc' = Drop(doc, The(SecAt(doc, e.sec))) /\ out' = [r |-> OK]
(* the handler asks to stop at its e.stop-th call (0: never) *)
Each(e) == LET f == Flat(doc) IN
           Stay /\ out' = [r |-> OK, seen |-> IF e.stop > 0 /\ e.stop < Len(f) THEN SubSeq(f, 1, e.stop) ELSE f]
DumpOp(e) == Stay /\ out' = [str |-> Dump(doc)]
(* must fit; a buffer with room for the text and the documented slack is never refused *)
DumpMem(e) == LET t == Dump(doc) n == Len(t) + 1 IN
  /\ Stay
  /\ \/ e.size >= n /\ doc # <<>> /\ e.r = OK /\ out' = [r |-> OK, n |-> n, str |-> t, tail |-> TRUE]
     \/ (e.size < n \/ e.size < made + 64) /\ e.r = NOMEM /\ out' = [r |-> NOMEM, n |-> e.size, same |-> TRUE]
     \/ doc = <<>> /\ e.r \in {FAILED, NOMEM} /\ out' = [n |-> e.size, same |-> TRUE]
(* a failed save leaves the file alone *)
Save(e) == Stay /\ out' = IF doc = <<>> THEN [r |-> FAILED, kept |-> TRUE] ELSE [r |-> OK, file |-> Dump(doc)]
GetNum(e, rng) ==
  /\ Stay
  /\ LET c == LookCode(e.sec, e.key) IN
     IF c # OK THEN out' = [r |-> c]
     ELSE LET t == IntText(Look(e.sec, e.key)[1]) IN
          IF t # NONE /\ InRange(t, rng) THEN out' = [r |-> OK, txt |-> t] ELSE out' = [r |-> FAILED]
GetDbl(e, digits) ==
  /\ Stay
  /\ LET c == LookCode(e.sec, e.key) IN
     IF c # OK THEN out' = [r |-> c]
     ELSE LET v == Look(e.sec, e.key)[1] IN
          IF Canon10(v) THEN out' = [r |-> OK, txt |-> v]
          ELSE IF PlainInt(v) /\ Len(v) <= digits THEN out' = [r |-> OK, txt |-> v \o Zeros10]
          ELSE IF NotANumber(v) THEN out' = [r |-> FAILED]
          ELSE e.r \in {OK, FAILED} /\ out' = [r |-> e.r]
Word(v, w) == Same(v, w)
Starts(v, w) == Len(v) >= Len(w) /\ Same(SubSeq(v, 1, Len(w)), w)
TRU == <<116,114,117,101>> FAL == <<102,97,108,115,101>> YES == <<121,101,115>> NOO == <<110,111>>
GetBool(e) ==
  /\ Stay
  /\ LET c == LookCode(e.sec, e.key) IN
     IF c # OK THEN out' = [r |-> c]
     ELSE LET v == Look(e.sec, e.key)[1] t == IntText(v) IN
          IF Word(v, TRU) \/ Word(v, YES) THEN out' = [r |-> OK, b |-> TRUE]
          ELSE IF Word(v, FAL) \/ Word(v, NOO) THEN out' = [r |-> OK, b |-> FALSE]
          ELSE IF t # NONE /\ InRange(t, I64) THEN out' = [r |-> OK, b |-> t # <<48>>]
          ELSE IF Starts(v, TRU) \/ Starts(v, YES) \/ Starts(v, FAL) \/ Starts(v, NOO) THEN e.r \in {OK, FAILED} /\ out' = [r |-> e.r]
          ELSE out' = [r |-> FAILED]
IsPathOut(s) == s # <<>> /\ (\A i \in 1..Len(s) : s[i] # LF)
                /\ LET t == LStrip(s) IN t = <<>> \/ t[1] \notin {HASH, LBR}
Destroy(e) == up' = FALSE /\ doc' = <<>> /\ made' = 0 /\ out' = [r |-> OK, leak |-> 0, fds |-> 0]
Do(e) == \/ ~up /\ e.op = "none" /\ Stay /\ out' = [op |-> "none"]   \* there is no document
         \/ e.op = "ispath" /\ Stay /\ out' = [b |-> IsPathOut(e.str)]
         \/ ~up /\ e.op = "create" /\ up' = TRUE /\ UNCHANGED <<doc, made>> /\ out' = [ok |-> TRUE]
         \/ ~up /\ e.op = "parse" /\ Open(e.str)
         \/ ~up /\ e.op = "load" /\ Load(e)
         \/ /\ up
            /\ \/ e.op = "put" /\ PutOp(e)
               \/ e.op = "get" /\ Get(e)
               \/ e.op = "has" /\ HasKey(e)
               \/ e.op = "hassec" /\ HasSec(e)
               \/ e.op = "delkey" /\ DelKey(e)
               \/ e.op = "delsec" /\ DelSec(e)
               \/ e.op = "each" /\ Each(e)
               \/ e.op = "dump" /\ DumpOp(e)
               \/ e.op = "dumpmem" /\ DumpMem(e)
               \/ e.op = "save" /\ Save(e)
               \/ e.op = "getint" /\ GetNum(e, I32)
               \/ e.op \in {"getlong", "getll"} /\ GetNum(e, I64)
               \/ e.op = "getdouble" /\ GetDbl(e, 15)
               \/ e.op = "getfloat" /\ GetDbl(e, 7)
               \/ e.op = "getbool" /\ GetBool(e)
               \/ e.op = "destroy" /\ Destroy(e)
(* no two sections and no two keys of a section have the same name *)
Inv == /\ \A i, j \in 1..Len(doc) : Same(doc[i].s, doc[j].s) => i = j
       /\ \A n \in 1..Len(doc) : \A i, j \in 1..Len(doc[n].kv) : Same(doc[n].kv[i].k, doc[n].kv[j].k) => i = j
=============================================================================
