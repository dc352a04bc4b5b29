--------------------------- MODULE MC_FileLogger ---------------------------
(* Exhaustive exploration of FileLogger: two callers, one logger with a tiny queue, two sessions. *)
EXTENDS FileLogger
CONSTANTS MaxRec, Sessions, Keep
VARIABLES n, ses, acc, ref, base
mvars == <<n, ses, acc, ref, base, lg, old, lost, pend>>
MInit == InitCfg(<<>>) /\ n = 0 /\ ses = 0 /\ acc = <<>> /\ ref = <<>> /\ base = 0
Rec(k) == [id |-> k, len |-> (k % 3) * 30, txt |-> (k % 3) * 30 - (IF k % 3 = 2 THEN 1 ELSE 0)]
SStart == ~lg[0].up /\ ses < Sessions /\ ses' = ses + 1 /\ Start([h |-> 0, ok |-> TRUE, fault |-> FALSE, valid |-> TRUE, lim |-> 64, cap |-> 70, hdr |-> 5, keep |-> Keep])
          /\ acc' = <<>> /\ base' = Len(old[0]) /\ UNCHANGED <<n, ref>>
SCall == \E t \in 1..2, code \in {0, 5} : n < MaxRec /\ n' = n + 1
          /\ Call([t |-> t, h |-> 0, id |-> n + 1, len |-> Rec(n + 1).len, txt |-> Rec(n + 1).txt, code |-> code, fault |-> FALSE]) /\ UNCHANGED <<ses, acc, ref, base>>
SAccept == \E t \in DOMAIN pend : Room(pend[t].h, pend[t].r) /\ Accept(t) /\ acc' = Append(acc, pend[t].r) /\ UNCHANGED <<n, ses, ref, base>>
SRefuse == \E t \in DOMAIN pend : Refuse(t) /\ ref' = Append(ref, pend[t].r.id) /\ UNCHANGED <<n, ses, acc, base>>
(* the code of a call is decided by what happens, not before: drop calls that guessed wrong *)
SGuess == \E t \in DOMAIN pend : /\ ~pend[t].done
          /\ (pend[t].code = 0) = ~Room(pend[t].h, pend[t].r)
          /\ pend' = [pend EXCEPT ![t].code = 5 - @] /\ UNCHANGED <<n, ses, acc, ref, base, lg, old, lost>>
SRet == \E t \in DOMAIN pend : Return([t |-> t]) /\ UNCHANGED <<n, ses, acc, ref, base>>
SWrite == Write(0) /\ UNCHANGED <<n, ses, acc, ref, base>>
SStop == Stop([h |-> 0]) /\ UNCHANGED <<n, ses, acc, ref, base>>
SStopped == pend = <<>> /\ Stopped([h |-> 0, ret |-> 0, null |-> TRUE]) /\ UNCHANGED <<n, ses, acc, ref, base>>
MNext == SStart \/ SCall \/ SAccept \/ SRefuse \/ SGuess \/ SRet \/ SWrite \/ SStop \/ SStopped
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(SAccept \/ SRefuse \/ SGuess) /\ WF_mvars(SRet) /\ WF_mvars(SWrite)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
NonEmpty(s) == SelectSeq(s, LAMBDA r : r.len > 0)
Pre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Session == SubSeq(old[0], base + 1, Len(old[0]))
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE Rec(Head(s)).txt + 1 + Bytes(Tail(s))
(* exactly once, in order: files, then what is being filled, then what is queued *)
InOrder == /\ lg[0].up => Flat(lg[0].files) \o lg[0].cur \o Ids(NonEmpty(lg[0].q)) = Ids(NonEmpty(acc))
           /\ ~lg[0].up => Pre(Flat(Session), Ids(NonEmpty(acc)))
(* every finished file reached the limit with its last record and not before *)
Pieces == \A i \in 1..Len(lg[0].files) : LET f == lg[0].files[i] IN Bytes(f) >= 64 /\ Bytes(SubSeq(f, 1, Len(f) - 1)) < 64
Companion == lost[0] = IF Keep THEN ref ELSE <<>>
Bounded == Used(0) <= lg[0].cap
MInv == Inv /\ InOrder /\ Pieces /\ Companion /\ Bounded
Returns == \A t \in 1..2 : (t \in DOMAIN pend) ~> (t \notin DOMAIN pend)
Drains == (lg[0].up /\ lg[0].q # <<>>) ~> (~lg[0].up \/ lg[0].q = <<>>)
=============================================================================
