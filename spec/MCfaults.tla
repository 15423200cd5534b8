------------------------------ MODULE MCfaults ------------------------------
(* Odd and refused addresses met by instructions and by exception entries. *)
EXTENDS MC
TheCpus == {0, 1}
TheSrs == {8192, 0}
(* NOP, RTE, TRAP #6, ADDQ.W #1,A7, SUBQ.W #1,A7, JMP $1001, TST.B $5000 (refused), TST.W $2001  *)
TheMenu == {<<20081>>, <<20083>>, <<20038>>, <<21071>>, <<21327>>, <<20216, 4097>>, <<19000, 20480>>, <<19064, 8193>>}
TheAsked == {2, 30, 0}
TheBurst == 1
TheBad == {20480, 12278}
TheDepth == atoi(IOEnv.DEPTH)
=============================================================================
