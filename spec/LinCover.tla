------------------------------ MODULE LinCover ------------------------------
(* the auto-cover buffer as an object shared by threads through the caller's lock (C26);
   positions count from the creation of the buffer, so the writer's progress is tracked here *)
EXTENDS AutoCover
VARIABLE written
lvars == <<cap, keep, off, out, written>>
LInit(c) == InitCfg(c) /\ written = 0
LDo(e) == /\ Do(IF e.op \in {"read", "avail"} THEN [back |-> written - e.pos] @@ e ELSE e)
          /\ written' = IF e.op = "write" THEN written + Len(e.data) ELSE written
LInv == Inv
=============================================================================
