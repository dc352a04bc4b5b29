------------------------------- MODULE Global -------------------------------
(* lcu_global_init / lcu_global_cleanup with the two modules they look after (C29).
   n: inits minus cleanups; xl, tm: the logger's and the clock's services exist;
   set: what the program last chose for the logger. *)
EXTENDS Integers, Sequences, TLC
VARIABLES n, xl, tm, set, out
vars == <<n, xl, tm, set, out>>
InitCfg(c) == n = 0 /\ xl = FALSE /\ tm = FALSE /\ set = [level |-> 1, target |-> 4, format |-> 6] /\ out = [ret |-> 0]
Obs == [logger |-> xl', clock |-> tm', mem |-> (xl' \/ tm'), twice |-> 0, level |-> set'.level, target |-> set'.target, format |-> set'.format]
Bad == [bad |-> TRUE]
Good(r) == [ret |-> r, bad |-> r < 0]
GInit(e) == /\ UNCHANGED set
            /\ IF n > 0 THEN n' = n + 1 /\ UNCHANGED <<xl, tm>> /\ out' = Good(0) @@ Obs
               ELSE IF e.failed > 0 THEN n' = 0 /\ xl' = FALSE /\ tm' = FALSE /\ out' = Bad @@ Obs
               ELSE n' = 1 /\ xl' = TRUE /\ tm' = TRUE /\ out' = Good(IF xl THEN 1 ELSE 0) @@ Obs
GCleanup == /\ UNCHANGED set
            /\ IF n # 1 THEN n' = (IF n > 0 THEN n - 1 ELSE 0) /\ UNCHANGED <<xl, tm>> /\ out' = Good(0) @@ Obs
               ELSE n' = 0 /\ xl' = FALSE /\ tm' = FALSE /\ out' = Good(IF xl THEN 0 ELSE 1) @@ Obs
(* the modules' own functions: each is idempotent and tells if there was nothing to do *)
XInit(e) == /\ UNCHANGED <<n, tm, set>>
            /\ IF xl THEN UNCHANGED xl /\ out' = Good(1) @@ Obs
               ELSE IF e.failed > 0 THEN UNCHANGED xl /\ out' = Bad @@ Obs
               ELSE xl' = TRUE /\ out' = Good(0) @@ Obs
XCleanup == UNCHANGED <<n, tm, set>> /\ xl' = FALSE /\ out' = Good(IF xl THEN 0 ELSE 1) @@ Obs
TInit == UNCHANGED <<n, xl, set>> /\ tm' = TRUE /\ out' = Good(0) @@ Obs
TCleanup == UNCHANGED <<n, xl, set>> /\ tm' = FALSE /\ out' = Good(0) @@ Obs
(* logging and the clock work in every state *)
Use(e) == UNCHANGED <<n, xl, tm, set>>
          /\ out' = [records |-> IF set.target >= 8 /\ set.level # 0 /\ 5 >= set.level THEN 1 ELSE 0, whole |-> TRUE, clockok |-> TRUE] @@ Obs
Choose(e) == UNCHANGED <<n, xl, tm>> /\ set' = [level |-> e.lv, target |-> e.tg, format |-> e.fm] /\ out' = Obs
Do(e) == \/ e.op = "init" /\ GInit(e)
         \/ e.op = "cleanup" /\ GCleanup
         \/ e.op = "xinit" /\ XInit(e)
         \/ e.op = "xcleanup" /\ XCleanup
         \/ e.op = "tinit" /\ TInit
         \/ e.op = "tcleanup" /\ TCleanup
         \/ e.op = "use" /\ Use(e)
         \/ e.op = "choose" /\ Choose(e)
Inv == n >= 0
=============================================================================
