------------------------------- MODULE LinMap -------------------------------
(* the hash map as an object shared by threads through the caller's lock (C26) *)
EXTENDS HashMap
lvars == vars
LInit(c) == InitCfg(c)
LDo(e) == Do(e)
LInv == Inv
=============================================================================
