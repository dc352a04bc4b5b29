------------------------------- MODULE Tracker -------------------------------
(* lcu_* allocation calls with and without the allocation tracker (C16).
   b maps a block's name to [sz |-> tracked size, req |-> bytes usable, data |-> contents,
   org |-> origin, line |-> line, kind |-> "tracked" | "plain" | "orphan"].
   "plain": obtained while tracking was off; "orphan": forgotten by a reset. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES on, b, smashed, out
vars == <<on, b, smashed, out>>
InitCfg(c) == on = FALSE /\ b = <<>> /\ smashed = {} /\ out = [ok |-> TRUE]
Has(i) == i \in DOMAIN b
Without(f, S) == [i \in DOMAIN f \ S |-> f[i]]
RangeS(s) == {s[i] : i \in 1..Len(s)}
Tracked(f) == {i \in DOMAIN f : f[i].kind = "tracked"}
RECURSIVE SumSz(_, _)
SumSz(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i].sz + SumSz(f, S \ {i})
(* the report names every tracked block exactly once; orphans and plain blocks never.  With
   tracking off nothing is reported; while a guard is damaged the driver asks for no report. *)
ReportOk(e, f, o) ==
  IF ~o THEN e.rep = <<>> /\ e.total = 0
  ELSE smashed # {} \/ (/\ Len(e.rep) = Cardinality(Tracked(f))
        /\ RangeS(e.rep) = {[id |-> i, sz |-> f[i].sz, line |-> f[i].line, org |-> f[i].org] : i \in Tracked(f)}
        /\ e.total = SumSz(f, Tracked(f)))
Kind == IF on THEN "tracked" ELSE "plain"
Blk(n, sz, d, e) == [sz |-> IF on THEN sz ELSE 0, req |-> n, data |-> d, org |-> e.org, line |-> e.line, kind |-> Kind]
Null(e) == UNCHANGED <<on, b, smashed>> /\ out' = [null |-> TRUE] /\ ReportOk(e, b, on)
Fill(n, v) == [i \in 1..n |-> v]
(* a block of n bytes with contents d (the driver fills what a call leaves unspecified) *)
New(e, n, d) == /\ UNCHANGED <<on, smashed>>
                /\ b' = b @@ [i \in {e.id} |-> Blk(n, n, d, e)]
                /\ out' = [null |-> FALSE, data |-> d] /\ ReportOk(e, b', on)
Alloc(e, n, d) == IF e.fail # 0 THEN Null(e) ELSE New(e, n, d)
MinN(x, y) == IF x < y THEN x ELSE y
Malloc(e) == ~Has(e.id) /\ IF e.n < 0 THEN Null(e) ELSE Alloc(e, e.n, Fill(e.n, e.fill))
Calloc(e) == ~Has(e.id) /\ IF e.huge # 0 THEN Null(e) ELSE Alloc(e, e.c * e.s, Fill(e.c * e.s, 0))
Strdup(e) == ~Has(e.id) /\ Alloc(e, Len(e.str) + 1, e.str \o <<0>>)
Strndup(e) == ~Has(e.id) /\ LET s == SubSeq(e.str, 1, MinN(e.n, Len(e.str))) IN Alloc(e, Len(s) + 1, s \o <<0>>)
(* realloc may hand out more than asked; the tracked size is whatever is reported, at least the request *)
SzIn(e, i) == IF ~on \/ ~(\E r \in RangeS(e.rep) : r.id = i) THEN 0 ELSE (CHOOSE r \in RangeS(e.rep) : r.id = i).sz
MaxN(x, y) == IF x > y THEN x ELSE y
Realloc(e) == smashed = {} /\
  IF ~Has(e.id)
    THEN IF e.n = 0 \/ e.n < 0 \/ e.fail # 0 THEN Null(e)
         ELSE /\ UNCHANGED <<on, smashed>>
              /\ b' = b @@ [i \in {e.id} |-> Blk(e.n, SzIn(e, e.id), Fill(e.n, e.fill), e)]
              /\ (on => b'[e.id].sz >= e.n)
              /\ out' = [null |-> FALSE, pre |-> <<>>] /\ ReportOk(e, b', on)
  ELSE /\ b[e.id].kind = Kind
       /\ IF e.n = 0 THEN /\ UNCHANGED <<on, smashed>> /\ b' = Without(b, {e.id}) /\ out' = [null |-> TRUE] /\ ReportOk(e, b', on)
          ELSE LET old == b[e.id]
                   k == MinN(old.req, e.n)
                   nd == SubSeq(old.data, 1, k) \o Fill(e.n - k, e.fill)
                   (* a block that stays where it is keeps its origin; a new one carries the caller's *)
                   org == IF on /\ e.n <= old.sz THEN <<old.org, old.line>> ELSE <<e.org, e.line>> IN
               IF e.n < 0 THEN Null(e) ELSE
               \/ /\ e.fail = 0 \/ (on /\ e.n <= old.sz)
                  /\ UNCHANGED <<on, smashed>>
                  /\ b' = [b EXCEPT ![e.id] = [sz |-> SzIn(e, e.id), req |-> e.n, data |-> nd, org |-> org[1], line |-> org[2], kind |-> Kind]]
                  /\ (on => b'[e.id].sz >= e.n)
                  /\ out' = [null |-> FALSE, pre |-> SubSeq(old.data, 1, k)] /\ ReportOk(e, b', on)
               \/ e.fail # 0 /\ Null(e)
Free(e) == /\ Has(e.id) /\ b[e.id].kind = Kind /\ e.id \notin smashed /\ UNCHANGED <<on, smashed>>
           /\ b' = Without(b, {e.id}) /\ out' = [data |-> b[e.id].data, null |-> TRUE] /\ ReportOk(e, b', on)
(* a call tried in a child process: it aborts exactly when the block is not a live one of
   the tracker, or a guard byte of it is damaged *)
TryFree(e) == /\ on /\ UNCHANGED <<on, b, smashed>> /\ ReportOk(e, b, on)
              /\ out' = [died |-> ~Has(e.id) \/ b[e.id].kind # "tracked" \/ e.id \in smashed]
TryReport(e) == on /\ UNCHANGED <<on, b, smashed>> /\ ReportOk(e, b, on) /\ out' = [died |-> smashed # {}]
Write(e) == /\ Has(e.id) /\ Len(e.data) <= b[e.id].req /\ UNCHANGED <<on, smashed>>
            /\ b' = [b EXCEPT ![e.id].data = e.data \o SubSeq(@, Len(e.data) + 1, Len(@))]
            /\ out' = [wrote |-> TRUE] /\ ReportOk(e, b', on)
Read(e) == Has(e.id) /\ UNCHANGED <<on, b, smashed>> /\ out' = [data |-> b[e.id].data] /\ ReportOk(e, b, on)
Smash(e) == /\ on /\ Has(e.id) /\ b[e.id].kind = "tracked" /\ smashed = {} /\ UNCHANGED <<on, b>>
            /\ smashed' = {e.id} /\ out' = [ok |-> TRUE]
Mend(e) == smashed = {e.id} /\ smashed' = {} /\ UNCHANGED <<on, b>> /\ out' = [ok |-> TRUE]
Init_(e) == on' = TRUE /\ UNCHANGED <<b, smashed>> /\ out' = [ok |-> TRUE] /\ ReportOk(e, b, TRUE)
Uninit(e) == /\ (on => Tracked(b) = {}) /\ on' = FALSE /\ UNCHANGED <<b, smashed>> /\ out' = [ok |-> TRUE] /\ ReportOk(e, b, FALSE)
Reset(e) == /\ smashed = {} /\ UNCHANGED <<on, smashed>>
            /\ b' = IF on THEN [i \in DOMAIN b |-> IF b[i].kind = "tracked" THEN [b[i] EXCEPT !.kind = "orphan"] ELSE b[i]] ELSE b
            /\ out' = [ok |-> TRUE] /\ ReportOk(e, b', on)
Nulls(e) == UNCHANGED <<on, b, smashed>> /\ out' = [ok |-> TRUE] /\ ReportOk(e, b, on)
(* n blocks of s bytes each, obtained and returned in one step: all of them are reported while
   they live, then none *)
Many(e) == /\ smashed = {} /\ UNCHANGED <<on, b, smashed>>
           /\ LET n0 == Cardinality(Tracked(b))
                  t0 == SumSz(b, Tracked(b)) IN
              out' = [null |-> FALSE, cnt |-> IF on THEN n0 + e.n ELSE 0, tot |-> IF on THEN t0 + e.n * e.s ELSE 0,
                      cnt2 |-> IF on THEN n0 + e.n - (e.n + 1) \div 2 ELSE 0, tot2 |-> IF on THEN t0 + (e.n - (e.n + 1) \div 2) * e.s ELSE 0, intact |-> TRUE]
           /\ ReportOk(e, b, on)
Do(e) == \/ e.op = "malloc" /\ Malloc(e)
         \/ e.op = "calloc" /\ Calloc(e)
         \/ e.op = "strdup" /\ Strdup(e)
         \/ e.op = "strndup" /\ Strndup(e)
         \/ e.op = "realloc" /\ Realloc(e)
         \/ e.op = "free" /\ Free(e)
         \/ e.op = "tryfree" /\ TryFree(e)
         \/ e.op = "tryreport" /\ TryReport(e)
         \/ e.op = "write" /\ Write(e)
         \/ e.op = "read" /\ Read(e)
         \/ e.op = "smash" /\ Smash(e)
         \/ e.op = "mend" /\ Mend(e)
         \/ e.op = "init" /\ Init_(e)
         \/ e.op = "uninit" /\ Uninit(e)
         \/ e.op = "reset" /\ Reset(e)
         \/ e.op = "many" /\ Many(e)
         \/ e.op = "nulls" /\ Nulls(e)
Inv == /\ \A i \in DOMAIN b : Len(b[i].data) = b[i].req /\ (b[i].kind = "tracked" => b[i].sz >= b[i].req)
       /\ (~on => Tracked(b) = {})
=============================================================================
