---------------------------- MODULE MC_Session ----------------------------
(* Small constants for exhaustive checking of RfxSession.                   *)
EXTENDS RfxSession
MCK == 3
MCSub(a, b) == (a - b) % MCK
MCAdd(a, b) == (a + b) % MCK
MCNext(n) == n + 1
(* numbers that come round again make the histories of any length finitely many states *)
MCRound(n) == (n + 1) % 3
Symm == Permutations(Pos)
=============================================================================
