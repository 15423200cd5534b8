------------------------------- MODULE MCuser -------------------------------
(* User programs: privileged instructions, stack switching, subroutines and traps. *)
EXTENDS MC
TheCpus == {0, 1}
TheSrs == {0, 8192}
(* RTE, TRAP #6, MOVE A7,USP, MOVE USP,A7, MOVE A0,USP, LINK A0,#-8, UNLK A0, BSR.S, RTS, RTR, MOVE #0,SR, ORI #$2000,SR, MOVE.L A7,-(A7), ADDQ.L #2,A7 *)
TheMenu == {<<20083>>, <<20038>>, <<20071>>, <<20079>>, <<20064>>, <<20048, 65528>>, <<20056>>, <<24840>>, <<20085>>, <<20087>>, <<18172, 0>>,
            <<124, 8192>>, <<12047>>, <<21647>>}
TheAsked == {31}
TheBurst == 1
TheBad == {}
TheDepth == atoi(IOEnv.DEPTH)
=============================================================================
