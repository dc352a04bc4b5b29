-------------------------------- MODULE List --------------------------------
(* list_*: a sequence of element pointers (C14).  Elements are small numbers naming
   the pointers; 0 is NULL.  freed = the elements given to the free callback, in order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES up, s, cb, out
vars == <<up, s, cb, out>>
InitCfg(c) == up = FALSE /\ s = <<>> /\ cb = FALSE /\ out = [ok |-> TRUE]
Obs(x) == [len |-> Len(x), empty |-> Len(x) = 0, front |-> IF x = <<>> THEN 0 ELSE x[1], back |-> IF x = <<>> THEN 0 ELSE x[Len(x)], items |-> x]
Ret(r, x, f) == [ret |-> r, freed |-> IF cb THEN f ELSE <<>>] @@ Obs(x)
Create(e) == /\ ~up /\ IF e.fail # 0 THEN UNCHANGED <<up, s, cb>> /\ out' = [ok |-> FALSE]
                       ELSE up' = TRUE /\ s' = <<>> /\ cb' = e.cb /\ out' = [ok |-> TRUE] @@ Obs(<<>>)
Added(e, x) == /\ UNCHANGED <<up, cb>>
               /\ IF e.x = 0 \/ e.fail # 0 THEN s' = s /\ out' = Ret(FALSE, s, <<>>) ELSE s' = x /\ out' = Ret(TRUE, x, <<>>)
Append_(e) == Added(e, Append(s, e.x))
(* many appends or prepends in a row *)
Fill(e) == LET new == [i \in 1..e.n |-> 1 + ((IF e.front_ = 0 THEN i - 1 ELSE e.n - i) % 4000)] IN
           /\ UNCHANGED <<up, cb>> /\ s' = (IF e.front_ = 0 THEN s \o new ELSE new \o s) /\ out' = Ret(TRUE, s', <<>>)
Prepend(e) == Added(e, <<e.x>> \o s)
(* insert after the node at position pos; pos = Len(s) means the node list_back_node names; pos = 0 is no node *)
Insert(e) == IF e.pos = 0 \/ e.pos > Len(s) THEN /\ UNCHANGED <<up, cb, s>> /\ out' = Ret(FALSE, s, <<>>)
             ELSE Added(e, SubSeq(s, 1, e.pos) \o <<e.x>> \o SubSeq(s, e.pos + 1, Len(s)))
First(x, q) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Remove(e) == /\ UNCHANGED <<up, cb>>
             /\ IF e.x # 0 /\ In(e.x, s) THEN s' = Drop(s, First(e.x, s)) /\ out' = Ret(TRUE, s', <<e.x>>)
                                         ELSE s' = s /\ out' = Ret(FALSE, s, <<>>)
Contains(e) == UNCHANGED <<up, s, cb>> /\ out' = Ret(e.x # 0 /\ In(e.x, s), s, <<>>)
Clear(e) == UNCHANGED <<up, cb>> /\ s' = <<>> /\ out' = Ret(TRUE, <<>>, s)
Free(e) == up' = FALSE /\ s' = <<>> /\ cb' = FALSE /\ out' = [freed |-> IF cb THEN s ELSE <<>>]
(* mode "plain": nothing; "rm": the callback removes the elements of the set rm while they
   are visited (only used on lists without repetitions); "pre": it prepends e.x at visit e.at *)
RECURSIVE FoldRm(_, _)
FoldRm(q, v) == IF v = <<>> THEN q ELSE FoldRm(Drop(q, First(Head(v), q)), Tail(v))
Foreach(e) ==
  LET n == Len(s)
      k == IF e.stop = 0 \/ e.stop > n THEN n ELSE e.stop
      seen == SubSeq(s, 1, k)
      gone == IF e.mode = "rm" THEN SelectSeq(seen, LAMBDA x : In(x, e.rm)) ELSE <<>> IN
  /\ UNCHANGED <<up, cb>>
  /\ s' = (IF e.mode = "pre" /\ e.at >= 1 /\ e.at <= k THEN <<e.x>> ELSE <<>>) \o FoldRm(s, gone)
  /\ out' = [seen |-> seen, node |-> IF e.stop = 0 \/ e.stop > n THEN 0 ELSE s[k]] @@ Ret(TRUE, s', gone)
Nulls(e) == UNCHANGED <<up, s, cb>> /\ out' = [ret |-> 0]
Do(e) == IF e.op = "create" THEN Create(e) ELSE IF e.op = "nulls" THEN Nulls(e)
         ELSE /\ up
              /\ \/ e.op = "append" /\ Append_(e)
                 \/ e.op = "prepend" /\ Prepend(e)
                 \/ e.op = "fill" /\ Fill(e)
                 \/ e.op = "insert" /\ Insert(e)
                 \/ e.op = "remove" /\ Remove(e)
                 \/ e.op = "contains" /\ Contains(e)
                 \/ e.op = "clear" /\ Clear(e)
                 \/ e.op = "free" /\ Free(e)
                 \/ e.op = "foreach" /\ Foreach(e)
Inv == \A i \in 1..Len(s) : s[i] # 0
=============================================================================
