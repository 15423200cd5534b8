------------------------------- MODULE MCints -------------------------------
(* Interrupts of several levels against a program that changes the mask, stops and returns. *)
EXTENDS MC
TheCpus == {0, 1}
TheSrs == {8192 + 1024, 0}
(* NOP, RTE, STOP #$2100, MOVE #$2600,SR, MOVE #0,SR *)
TheMenu == {<<20081>>, <<20083>>, <<20082, 8448>>, <<18172, 9728>>, <<18172, 0>>}
TheAsked == {26, 29, 61, 31, 24, 0}
TheBurst == 2
TheBad == {}
TheDepth == atoi(IOEnv.DEPTH)
=============================================================================
