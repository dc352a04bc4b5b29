------------------------------ MODULE LinPool -------------------------------
(* the mplite pool as an object shared by threads through the caller's lock (C26) *)
EXTENDS Mplite
lvars == vars
LInit(c) == InitCfg(c)
LDo(e) == Do(e)
LInv == Inv
=============================================================================
