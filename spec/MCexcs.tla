------------------------------- MODULE MCexcs -------------------------------
(* Exceptions raised by instructions, traced or not, in both modes. *)
EXTENDS MC
TheCpus == {0, 1}
TheSrs == {8192, 40960, 32768}
(* NOP, RTE, TRAP #6, ILLEGAL, MOVE #0,SR, MOVE #$A000,SR, STOP #$A000, STOP #0, MOVE USP,A0, DIVU #0,D0, RESET *)
TheMenu == {<<20081>>, <<20083>>, <<20038>>, <<19196>>, <<18172, 0>>, <<18172, 40960>>, <<20082, 40960>>, <<20082, 0>>, <<20072>>, <<33020, 0>>, <<20080>>}
TheAsked == {9, 28}
TheBurst == 1
TheBad == {}
TheDepth == atoi(IOEnv.DEPTH)
=============================================================================
