------------------------------- MODULE FileSys -------------------------------
(* file_util_*, file_iterator_foreach: a small file system (C27).
   fs maps a path (sequence of names, <<>> is the scratch directory) to a node:
   k = "d" directory, "f" file with content b, "x" dangling link, "s" link to a directory. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
VARIABLES fs, out
vars == <<fs, out>>
D == [k |-> "d", b |-> <<>>]
F(b) == [k |-> "f", b |-> b]
InitCfg(c) == fs = (<<>> :> D) /\ out = [ok |-> TRUE]
Clean(p) == SelectSeq(p, LAMBDA x : x # "" /\ x # ".")
IsDir(f, q) == q \in DOMAIN f /\ f[q].k = "d"
Kind(q) == IF q \in DOMAIN fs THEN fs[q].k ELSE "none"
Min2(a, b) == IF a < b THEN a ELSE b
Kids(q) == {r \in DOMAIN fs : Len(r) = Len(q) + 1 /\ SubSeq(r, 1, Len(q)) = q}
Rest == [leak |-> 0]
(* ---- directories *)
NoDir(p) == \E i \in 1..Len(p) : Len(p[i]) > 255
TextLen(e) == FoldLeft(LAMBDA a, x : a + Len(x), 0, e.p) + Len(e.p) - 1 + (IF e.trail THEN 1 ELSE 0) + e.plen
(* every prefix that ends in a slash; n counts the directories asked of the system, of which number e.fail fails
   and number e.race is made by somebody else just before *)
RECURSIVE Mk(_, _, _, _)
Mk(e, f, i, n) ==
  IF i > (IF e.trail THEN Len(e.p) ELSE Len(e.p) - 1) THEN [f |-> f, ok |-> TRUE]
  ELSE LET q == Clean(SubSeq(e.p, 1, i)) IN
       IF IsDir(f, q) THEN Mk(e, f, i + 1, n)
       ELSE IF q \in DOMAIN f \/ Len(e.p[i]) > 255 \/ e.fail = n + 1 THEN [f |-> f, ok |-> FALSE]
       ELSE Mk(e, (q :> D) @@ f, i + 1, n + 1)
MkDirs(e) == LET r == IF TextLen(e) > 256 THEN [f |-> fs, ok |-> FALSE] ELSE Mk(e, fs, 1, 0)
             IN fs' = r.f /\ out' = [ok |-> r.ok] @@ Rest
(* ---- byte transfer through a descriptor: pat[i] limits what the i-th system call moves (0, -1: it fails) *)
RECURSIVE Moved(_, _)
Moved(n, pat) == IF n = 0 \/ pat = <<>> THEN n
                 ELSE IF pat[1] <= 0 THEN 0
                 ELSE IF pat[1] >= n THEN n ELSE pat[1] + Moved(n - pat[1], Tail(pat))
Write(e) == LET q == Clean(e.p)
                n == Moved(Len(e.data), e.pat)
                old == IF e.app /\ Kind(q) = "f" THEN fs[q].b ELSE <<>> IN
            fs' = (q :> F(old \o SubSeq(e.data, 1, n))) @@ fs /\ out' = [n |-> n] @@ Rest
Read(e) == LET b == fs[Clean(e.p)].b
               avail == IF e.off >= Len(b) THEN 0 ELSE Min2(e.max, Len(b) - e.off)
               n == Moved(avail, e.pat) IN
           UNCHANGED fs /\ out' = [n |-> n, got |-> SubSeq(b, e.off + 1, e.off + n), clean |-> TRUE] @@ Rest
ReadAll(e) == LET q == Clean(e.p) IN
  /\ UNCHANGED fs
  /\ IF Kind(q) = "f" /\ e.fault = 0
     THEN \/ out' = [ok |-> TRUE, len |-> Len(fs[q].b), got |-> fs[q].b, term |-> TRUE] @@ Rest
          \/ fs[q].b = <<>> /\ out' = [ok |-> FALSE, null |-> TRUE] @@ Rest   \* an empty file may be refused
     ELSE out' = [ok |-> FALSE, null |-> TRUE] @@ Rest
(* ---- sizes *)
Size(e) == LET q == Clean(e.p) IN
  /\ UNCHANGED fs
  /\ out' = (IF Kind(q) = "f" THEN [size |-> Len(fs[q].b), fsize |-> Len(fs[q].b), pos |-> 0]
             ELSE IF Kind(q) \in {"d", "s"} THEN [dir |-> TRUE] ELSE [size |-> -1, nofile |-> TRUE]) @@ Rest
Access(e) == UNCHANGED fs /\ out' = [ok |-> Kind(Clean(e.p)) \in {"d", "f", "s"}] @@ Rest
(* ---- text lines *)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Lines(b) == LET cut == SetToSortSeq({i \in 1..Len(b) : b[i] = 10}, <)
                n == Len(cut) + (IF b # <<>> /\ b[Len(b)] # 10 THEN 1 ELSE 0) IN
            [i \in 1..n |-> SubSeq(b, IF i = 1 THEN 1 ELSE cut[i-1] + 1, IF i > Len(cut) THEN Len(b) ELSE cut[i] - 1)]
NoCr(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
NoLead(s) == LET k == {i \in 1..Len(s) : ~IsSpace(s[i])} IN IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, Len(s))
TextLines(b) == LET l == Lines(b)
                    r == [i \in 1..Len(l) |-> [num |-> i - 1, txt |-> NoLead(NoCr(l[i]))]] IN
                SelectSeq(r, LAMBDA x : x.txt # <<>>)
ReadTxt(e) == LET q == Clean(e.p) IN
  /\ UNCHANGED fs
  /\ IF Kind(q) = "f"
     THEN LET t == TextLines(fs[q].b) IN
          out' = (IF e.stop > 0 /\ e.stop <= Len(t) THEN [ret |-> e.code, lines |-> SubSeq(t, 1, e.stop)]
                  ELSE [ret |-> 0, lines |-> t]) @@ Rest
     ELSE out' = [failed |-> TRUE, lines |-> <<>>] @@ Rest
(* ---- iteration: every entry of the directory once (not below it) *)
Entry(q) == [name |-> q[Len(q)], type |-> IF fs[q].k = "f" THEN 0 ELSE 1, size |-> IF fs[q].k = "f" THEN Len(fs[q].b) ELSE 0]
All(q) == {Entry(r) : r \in {r \in Kids(q) : fs[r].k # "x"}}
Dangling(q) == \E r \in Kids(q) : fs[r].k = "x"
Iter(e) == LET q == Clean(e.p)
               seen == {e.seen[i] : i \in 1..Len(e.seen)} IN
  /\ UNCHANGED fs
  /\ IF Kind(q) # "d" THEN out' = [failed |-> TRUE, seen |-> <<>>] @@ Rest
     ELSE IF e.stop > 0 /\ e.stop <= Cardinality(All(q))
          THEN /\ seen \subseteq All(q) /\ Cardinality(seen) = e.stop /\ Len(e.seen) = e.stop
               /\ (Dangling(q) \/ ~e.failed) /\ out' = [dirok |-> TRUE] @@ Rest
          ELSE /\ seen = All(q) /\ Len(e.seen) = Cardinality(seen)
               /\ out' = [dirok |-> TRUE, failed |-> Dangling(q)] @@ Rest \* an entry that cannot be examined must not pass unnoticed
(* ---- path text: a slash is appended when there is none, unless the buffer has no room for it *)
RECURSIVE NoTrail(_)
NoTrail(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN NoTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Slash(e) == LET t == NoTrail(e.s)
                c == IF \E i \in 1..Len(e.s) : e.s[i] = 92 THEN 92 ELSE 47 IN
  /\ UNCHANGED fs
  /\ IF e.size < 3 \/ t = <<>> THEN out' = [ok |-> FALSE, after |-> e.s] @@ Rest
     ELSE IF t[Len(t)] = c THEN \E a \in {e.s, t} : out' = [ok |-> TRUE, after |-> a] @@ Rest
     ELSE IF Len(t) + 2 <= e.size THEN out' = [ok |-> TRUE, after |-> Append(t, c)] @@ Rest
     ELSE out' = [ok |-> FALSE, after |-> e.s] @@ Rest
(* ---- set up by the test, not by the library *)
Put(e) == fs' = (Clean(e.p) :> [k |-> e.kind, b |-> e.data]) @@ fs /\ out' = Rest
Unlink(e) == LET q == Clean(e.p) IN fs' = [x \in DOMAIN fs \ {r \in DOMAIN fs : Len(r) >= Len(q) /\ SubSeq(r, 1, Len(q)) = q} |-> fs[x]] /\ out' = Rest
Do(e) == \/ e.op = "mkdirs" /\ MkDirs(e)
         \/ e.op = "write" /\ Write(e)
         \/ e.op = "read" /\ Read(e)
         \/ e.op = "readall" /\ ReadAll(e)
         \/ e.op = "size" /\ Size(e)
         \/ e.op = "access" /\ Access(e)
         \/ e.op = "readtxt" /\ ReadTxt(e)
         \/ e.op = "iter" /\ Iter(e)
         \/ e.op = "slash" /\ Slash(e)
         \/ e.op = "put" /\ Put(e)
         \/ e.op = "rm" /\ Unlink(e)
         \/ e.op = "big" /\ UNCHANGED fs /\ out' = [ok |-> FALSE, null |-> TRUE] @@ Rest \* more bytes than the length can state
         \/ e.op = "tree" /\ UNCHANGED fs /\ out' = [leak |-> 0] \* a look from outside at everything there is
            /\ {e.nodes[i] : i \in 1..Len(e.nodes)} = {[p |-> q, k |-> fs[q].k, b |-> fs[q].b] : q \in DOMAIN fs \ {<<>>}}
(* the tree is well formed: the parent of every node is a directory *)
Inv == IsDir(fs, <<>>) /\ \A q \in DOMAIN fs \ {<<>>} : IsDir(fs, SubSeq(q, 1, Len(q) - 1))
=============================================================================
